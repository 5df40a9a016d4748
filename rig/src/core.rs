//! How the host talks to the application under test: `rig_buf` / `rig_call` with JSON text, which deliberately
//! bypasses vertigo's own value bridge so that a defect there cannot disturb the other checks.
use std::cell::RefCell;

thread_local! {
    static BUF: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) };
    static LOG: RefCell<Vec<serde_json::Value>> = const { RefCell::new(Vec::new()) };
}

pub fn log(v: serde_json::Value) {
    LOG.with(|l| l.borrow_mut().push(v));
}

pub fn take_log() -> Vec<serde_json::Value> {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}

#[no_mangle]
pub extern "C" fn rig_buf(len: u32) -> *mut u8 {
    BUF.with(|b| {
        let mut b = b.borrow_mut();
        *b = vec![0; len as usize];
        b.as_mut_ptr()
    })
}

/// Executes the command in the buffer, leaves the reply in the buffer and returns its length.
#[no_mangle]
pub extern "C" fn rig_call() -> u32 {
    let cmd: serde_json::Value = BUF.with(|b| serde_json::from_slice(&b.borrow()).expect("rig: bad command"));
    let reply = crate::dispatch(&cmd);
    let text = serde_json::to_vec(&reply).expect("rig: reply");
    let len = text.len() as u32;
    BUF.with(|b| *b.borrow_mut() = text);
    len
}

#[no_mangle]
pub extern "C" fn rig_reply() -> *const u8 {
    BUF.with(|b| b.borrow().as_ptr())
}
