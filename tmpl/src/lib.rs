//! An application made of the templates which a run of spec/TemplateGen.tla has produced (written out by tmpl.py).
#[path = "../../rig/src/core.rs"]
mod core;
#[path = "../../rig/src/page.rs"]
mod page;

pub use crate::core::{log, take_log};

/// What the written templates use.
#[allow(dead_code)]
mod kit {
    pub use crate::page::{drop_payload, key_payload, sus1, sus2};
    pub use serde_json::{json, Value as J};
    pub use std::rc::Rc;
    pub use vertigo::{
        bind, bind_rc, component, computed_tuple, dom, dom_element, Computed, Context, Css, DomComment, DomElement, DomNode, DomText, DropFileEvent,
        EmbedDom, KeyDownEvent, Value,
    };

    /// The state of the page.
    #[derive(Clone)]
    pub struct Vars {
        pub v1: Value<i64>,
        pub v2: Value<i64>,
        pub v3: Value<i64>,
        pub l1: Value<Vec<i64>>,
        pub l2: Value<Vec<i64>>,
        pub s1: Value<String>,
        pub s2: Value<String>,
        pub o1: Value<Option<String>>,
        pub o2: Value<Option<String>>,
    }

    pub fn vars() -> Vars {
        let st = crate::page::state();
        Vars {
            v1: st.vars[0].clone(),
            v2: st.vars[1].clone(),
            v3: st.vars[2].clone(),
            l1: st.lists[0].clone(),
            l2: st.lists[1].clone(),
            s1: st.strs[0].clone(),
            s2: st.strs[1].clone(),
            o1: st.opts[0].clone(),
            o2: st.opts[1].clone(),
        }
    }

    pub fn ran(h: i64, payload: J, captured: i64) {
        crate::log(json!(["ev", h, payload, captured]));
    }
}

#[allow(warnings)]
mod gen {
    include!(env!("TEMPLATES"));
}

pub fn template(n: usize) -> vertigo::DomNode {
    gen::get(n)
}

pub fn dispatch(cmd: &serde_json::Value) -> serde_json::Value {
    match cmd["m"].as_str().unwrap_or("") {
        "page" => page::dispatch(cmd),
        "log" => serde_json::json!({ "log": take_log() }),
        other => panic!("tmpl: unknown module {other}"),
    }
}

#[vertigo::main]
pub fn app() -> vertigo::DomNode {
    page::app()
}
