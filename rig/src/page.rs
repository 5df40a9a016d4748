//! Component trees described by JSON, built with the public DOM API.
use serde_json::{json, Value as J};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;
use vertigo::{
    inspect, transaction, Computed, Context, Css, DomComment, DomElement, DomNode, DomText, DropFileEvent, DropResource, EmbedDom,
    KeyDownEvent, Value,
};

use crate::log;

pub struct St {
    pub vars: Vec<Value<i64>>,
    pub lists: Vec<Value<Vec<i64>>>,
    pub plists: Vec<Value<Vec<(i64, i64)>>>,
    pub strs: Vec<Value<String>>,
    pub opts: Vec<Value<Option<String>>>,
    css: Vec<&'static str>,
}

thread_local! {
    static SCEN: RefCell<Option<&'static J>> = const { RefCell::new(None) };
    static STATE: RefCell<Option<Rc<St>>> = const { RefCell::new(None) };
    static ROOT: RefCell<Option<Value<i64>>> = const { RefCell::new(None) };
    static EXTRA: RefCell<Vec<DropResource>> = const { RefCell::new(Vec::new()) };
    static CMDS: RefCell<Vec<vertigo::DriverDomCommand>> = const { RefCell::new(Vec::new()) };
    static STRS: RefCell<HashMap<String, &'static str>> = RefCell::new(HashMap::new());
}

fn intern(s: &str) -> &'static str {
    STRS.with(|m| {
        let mut m = m.borrow_mut();
        if let Some(x) = m.get(s) {
            return *x;
        }
        let x: &'static str = Box::leak(s.to_string().into_boxed_str());
        m.insert(s.to_string(), x);
        x
    })
}

pub fn state() -> Rc<St> {
    STATE.with(|s| s.borrow().clone().expect("rig: page state"))
}

fn i(v: &J) -> i64 {
    v.as_i64().unwrap_or(0)
}

fn ints(v: &J) -> Vec<i64> {
    v.as_array().map(|a| a.iter().map(i).collect()).unwrap_or_default()
}

fn pairs(v: &J) -> Vec<(i64, i64)> {
    v.as_array().map(|a| a.iter().map(|p| (i(&p[0]), i(&p[1]))).collect()).unwrap_or_default()
}

fn arr(v: &'static J) -> &'static [J] {
    v.as_array().map(|a| a.as_slice()).unwrap_or(&[])
}

fn text(v: &J) -> String {
    v.as_str().unwrap_or("").to_string()
}

fn opt(v: &J) -> Option<String> {
    v.as_str().map(|s| s.to_string())
}

fn eval(e: &J, st: &St, it: i64, ctx: &Context) -> i64 {
    let mut sum = i(&e["a"]) + i(&e["i"]) * it;
    for v in ints(&e["v"]) {
        sum += st.vars[v as usize - 1].get(ctx);
    }
    sum.rem_euclid(i(&e["m"]))
}

fn comp(e: &'static J, it: i64) -> Computed<i64> {
    let st = state();
    let vs = ints(&e["v"]);
    if vs.len() == 1 && i(&e["a"]) % 2 == 1 {
        let m = i(&e["m"]);
        let k = i(&e["a"]) + i(&e["i"]) * it;
        return st.vars[vs[0] as usize - 1].map(move |x| (x + k).rem_euclid(m));
    }
    Computed::from(move |ctx| eval(e, &st, it, ctx))
}

fn css_of(g: &J, st: &St) -> Css {
    let mut css = Css { groups: vec![] };
    for n in ints(g) {
        if n > 0 {
            css = css.push_str(st.css[n as usize - 1]);
        } else {
            css.push_string(st.css[(-n) as usize - 1].to_string());
        }
    }
    css
}

pub fn sus1(loading: bool) -> Css {
    if loading {
        Css::str("color: red")
    } else {
        Css::str("color: green")
    }
}

pub fn sus2(loading: bool) -> Css {
    if loading {
        Css::string("opacity: 0.5".to_string())
    } else {
        Css::str("opacity: 1")
    }
}

pub fn apply(op: &J) {
    let st = state();
    let k = i(&op["j"]) as usize;
    match op["k"].as_str().unwrap_or("") {
        "v" => st.vars[k - 1].set(i(&op["x"])),
        "vc" => st.vars[k - 1].change(|v| *v = i(&op["x"])),
        "vs" => st.vars[k - 1].set_value_and_compare(i(&op["x"])),
        "l" => st.lists[k - 1].set(ints(&op["x"])),
        "pl" => st.plists[k - 1].set(pairs(&op["x"])),
        "s" => st.strs[k - 1].set(text(&op["x"])),
        "o" => st.opts[k - 1].set(opt(&op["x"])),
        other => panic!("rig: op {other}"),
    }
}

fn apply_all(ops: &J) {
    for op in ops.as_array().unwrap() {
        apply(op);
    }
}

fn run_handler(h: &J, payload: J, captured: i64) -> bool {
    log(json!(["ev", h["h"], payload, captured]));
    apply_all(&h["ops"]);
    // what the handler itself reads afterwards is already the new state
    h["r"].as_bool().unwrap_or(false)
}

pub fn key_payload(k: &KeyDownEvent) -> J {
    json!([k.key, k.code, k.alt_key, k.ctrl_key, k.shift_key, k.meta_key])
}

pub fn drop_payload(d: &DropFileEvent) -> J {
    J::Array(d.items.iter().map(|f| json!([f.name, f.data.as_ref()])).collect())
}

macro_rules! on0 {
    ($el:expr, $m:ident, $h:expr, $it:expr, $ret:ty, $conv:expr) => {{
        let h: &'static J = $h;
        if h["k"] == "c" {
            let it = $it;
            let st = state();
            let c: Computed<Rc<dyn Fn() -> $ret>> = Computed::from(move |ctx| {
                let v = eval(&h["x"], &st, it, ctx);
                Rc::new(move || $conv(run_handler(h, J::Null, v))) as Rc<dyn Fn() -> $ret>
            });
            $el.$m(c)
        } else {
            $el.$m(move || $conv(run_handler(h, J::Null, -1)))
        }
    }};
}
macro_rules! on1 {
    ($el:expr, $m:ident, $h:expr, $it:expr, $arg:ty, $ret:ty, $pay:expr, $conv:expr) => {{
        let h: &'static J = $h;
        if h["k"] == "c" {
            let it = $it;
            let st = state();
            let c: Computed<Rc<dyn Fn($arg) -> $ret>> = Computed::from(move |ctx| {
                let v = eval(&h["x"], &st, it, ctx);
                Rc::new(move |a: $arg| $conv(run_handler(h, $pay(&a), v))) as Rc<dyn Fn($arg) -> $ret>
            });
            $el.$m(c)
        } else {
            $el.$m(move |a: $arg| $conv(run_handler(h, $pay(&a), -1)))
        }
    }};
}

fn unit(_: bool) {}
fn same(b: bool) -> bool {
    b
}

fn event(el: DomElement, h: &'static J, it: i64) -> DomElement {
    match h["e"].as_str().unwrap_or("") {
        "click" => on0!(el, on_click, h, it, (), unit),
        "mousedown" => on0!(el, on_mouse_down, h, it, bool, same),
        "mouseup" => on0!(el, on_mouse_up, h, it, bool, same),
        "mouseenter" => on0!(el, on_mouse_enter, h, it, (), unit),
        "mouseleave" => on0!(el, on_mouse_leave, h, it, (), unit),
        "blur" => on0!(el, on_blur, h, it, (), unit),
        "load" => on0!(el, on_load, h, it, (), unit),
        "input" => on1!(el, on_input, h, it, String, (), |s: &String| json!(s), unit),
        "change" => on1!(el, on_change, h, it, String, (), |s: &String| json!(s), unit),
        "keydown" => on1!(el, on_key_down, h, it, KeyDownEvent, bool, key_payload, same),
        "hook" => on1!(el, hook_key_down, h, it, KeyDownEvent, bool, key_payload, same),
        "drop" => on1!(el, on_dropfile, h, it, DropFileEvent, (), drop_payload, unit),
        other => panic!("rig: event {other}"),
    }
}

fn attr(el: &DomElement, a: &'static J, it: i64) {
    let st = state();
    let name = intern(a["n"].as_str().unwrap_or(""));
    let prefix = text(&a["x"]);
    match a["k"].as_str().unwrap_or("") {
        "s" => el.add_attr(name, prefix),
        "c" => el.add_attr(name, comp(&a["e"], it).map(move |v| format!("{prefix}{v}"))),
        "o" => el.add_attr(name, comp(&a["e"], it).map(move |v| if v == 0 { None } else { Some(format!("{prefix}{v}")) })),
        "v" => el.add_attr(name, &st.strs[i(&a["j"]) as usize - 1]),
        "w" => el.add_attr(name, st.opts[i(&a["j"]) as usize - 1].clone()),
        other => panic!("rig: attr {other}"),
    }
}

pub fn build(d: &'static J, it: i64) -> DomNode {
    let st = state();
    match d["t"].as_str().unwrap_or("") {
        "el" => {
            let mut el = DomElement::new(d["tag"].as_str().unwrap_or("div").to_string());
            for a in arr(&d["at"]) {
                attr(&el, a, it);
            }
            match d["css"]["k"].as_str().unwrap_or("n") {
                "s" => el = el.css(css_of(&d["css"]["g"], &st)),
                "c" => {
                    let st2 = st.clone();
                    el = el.css(comp(&d["css"]["e"], it).map(move |v| css_of(&d["css"]["g"][v as usize], &st2)));
                }
                _ => {}
            }
            match i(&d["sus"]) {
                1 => el = el.suspense(Some(sus1)),
                2 => el = el.suspense(Some(sus2)),
                _ => {}
            }
            for h in arr(&d["ev"]) {
                el = event(el, h, it);
            }
            for c in arr(&d["c"]) {
                el.add_child(build(c, it));
            }
            el.into()
        }
        "text" => DomText::new(text(&d["x"])).into(),
        "ctext" => {
            let prefix = text(&d["x"]);
            DomText::new_computed(comp(&d["e"], it).map(move |v| format!("{prefix}{v}"))).into()
        }
        "etext" => {
            let prefix = text(&d["x"]);
            comp(&d["e"], it).map(move |v| format!("{prefix}{v}")).embed()
        }
        "stext" => DomText::new_computed(st.strs[i(&d["j"]) as usize - 1].to_computed()).into(),
        "val" => {
            let b = &d["b"];
            if arr(b).iter().any(|x| x.is_null() || x["t"] == "none") {
                comp(&d["e"], it).render_value_option(move |v| {
                    let x = &b[v as usize];
                    if x.is_null() || x["t"] == "none" {
                        None
                    } else {
                        Some(build(x, it))
                    }
                })
            } else {
                comp(&d["e"], it).render_value(move |v| build(&b[v as usize], it))
            }
        }
        "list" => {
            let b = &d["b"];
            let n = arr(b).len() as i64;
            st.lists[i(&d["l"]) as usize - 1].to_computed().render_list(|k| *k, move |k| build(&b[k.rem_euclid(n) as usize], *k))
        }
        // items are (key, payload): the payload shown is the one of the rendering
        "plist" => {
            let b = &d["b"];
            let n = arr(b).len() as i64;
            st.plists[i(&d["l"]) as usize - 1].to_computed().render_list(
                |k| k.0,
                move |k| {
                    log(json!(["render", k.0, k.1]));
                    build(&b[k.0.rem_euclid(n) as usize], k.1)
                },
            )
        }
        "frag" => DomComment::dom_fragment(arr(&d["c"]).iter().map(|c| build(c, it)).collect()).into(),
        other => panic!("rig: tree {other}"),
    }
}

/// The tree itself, or the template written for it.
fn root(sc: &'static J) -> DomNode {
    match sc["tmpl"].as_u64() {
        Some(n) => crate::template(n as usize),
        None => build(&sc["tree"], 0),
    }
}

pub fn load(sc: &J) {
    let sc: &'static J = Box::leak(Box::new(sc.clone()));
    let init = if sc["there"].is_object() && vertigo::get_driver().is_browser() { &sc["there"] } else { &sc["init"] };
    let a = |k: &str| init[k].as_array().cloned().unwrap_or_default();
    let st = St {
        vars: a("v").iter().map(|x| Value::new(i(x))).collect(),
        lists: a("l").iter().map(|x| Value::new(ints(x))).collect(),
        plists: a("pl").iter().map(|x| Value::new(pairs(x))).collect(),
        strs: a("s").iter().map(|x| Value::new(text(x))).collect(),
        opts: a("o").iter().map(|x| Value::new(opt(x))).collect(),
        css: sc["css"].as_array().map(|l| l.iter().map(|x| intern(x.as_str().unwrap())).collect()).unwrap_or_default(),
    };
    STATE.with(|s| *s.borrow_mut() = Some(Rc::new(st)));
    SCEN.with(|s| *s.borrow_mut() = Some(sc));
    if sc["inspect"] == true {
        inspect::log_start();
    }
}

/// What the inspector makes of all commands so far, and of those since the last time.
fn inspected() -> J {
    let new = inspect::log_take();
    inspect::log_start();
    let all = CMDS.with(|c| {
        let mut c = c.borrow_mut();
        c.extend(new);
        c.clone()
    });
    let f = inspect::DomDebugFragment::from_cmds(all);
    let node = |n: &inspect::DomDebugNode| {
        json!({
            "n": n.name.as_str(),
            "a": n.attrs.iter().map(|(k, v)| (k.as_str().to_string(), json!(v))).collect::<serde_json::Map<_, _>>(),
            "on": n.callbacks.iter().map(|(k, v)| (k.clone(), json!(v.as_u64()))).collect::<serde_json::Map<_, _>>(),
            "c": n.children.iter().map(|c| c.to_u64().to_string()).collect::<Vec<_>>(),
            "t": n.text,
        })
    };
    json!({
        "root": f.root_node.map(|r| r.to_u64().to_string()),
        "nodes": f.map.iter().map(|(id, n)| (id.to_u64().to_string(), node(n))).collect::<serde_json::Map<_, _>>(),
        "html": f.to_pseudo_html(),
    })
}

/// The application: an html page whose body is the scenario's tree.  "alive" lets the host drop the whole tree.
pub fn is_on() -> bool {
    SCEN.with(|s| s.borrow().is_some())
}

pub fn app() -> DomNode {
    let sc = SCEN.with(|s| s.borrow().expect("rig: no page scenario"));
    let html = DomElement::new("html");
    for a in arr(&sc["html_at"]) {
        attr(&html, a, 0);
    }
    let head = DomElement::new("head");
    for c in arr(&sc["head"]) {
        head.add_child(build(c, 0));
    }
    html.add_child(head);
    if sc["nobody"] != true {
        let body = DomElement::new("body");
        for a in arr(&sc["body_at"]) {
            attr(&body, a, 0);
        }
        let alive = Value::new(1i64);
        ROOT.with(|r| *r.borrow_mut() = Some(alive.clone()));
        if sc["wrap"] == true {
            body.add_child(alive.to_computed().render_value_option(move |x| if x == 1 { Some(root(sc)) } else { None }));
        } else {
            for c in arr(&sc["body"]) {
                body.add_child(build(c, 0));
            }
            if !sc["tree"].is_null() {
                body.add_child(root(sc));
            }
        }
        html.add_child(body);
    }
    html.into()
}

pub fn transact(ops: &J) {
    transaction(|_| apply_all(ops));
}

pub fn dispatch(cmd: &J) -> J {
    match cmd["do"].as_str().unwrap_or("") {
        "load" => load(&cmd["sc"]),
        "op" => apply(&cmd["op"]),
        "tx" => transact(&cmd["ops"]),
        "alive" => ROOT.with(|r| r.borrow().clone()).expect("rig: root").set(i(&cmd["x"])),
        "inspect" => return inspected(),
        other => panic!("rig: page {other}"),
    }
    json!({ "log": crate::take_log() })
}

#[allow(dead_code)]
pub fn keep(d: DropResource) {
    EXTRA.with(|e| e.borrow_mut().push(d));
}
