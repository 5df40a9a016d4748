//! B01: values passed through the access to the page's objects (`DomAccess`), in both directions.
use crate::{log, take_log};
use serde_json::{json, Value as J};
use std::cell::RefCell;
use std::collections::HashMap;
use vertigo::{get_driver, window, DomElement, DomNode, JsJson, JsValue, RequestBody, RequestBuilder};

thread_local! {
    static ELEMENT: RefCell<Option<Box<dyn Fn(&J)>>> = const { RefCell::new(None) };
    static KEPT: RefCell<HashMap<String, JsValue>> = RefCell::new(HashMap::new());
    static ON: RefCell<bool> = const { RefCell::new(false) };
}

fn t(v: &J) -> &str {
    v.as_str().expect("rig: text")
}

fn n<T: std::str::FromStr>(v: &J) -> T {
    t(v).parse().ok().expect("rig: number")
}

fn list(v: &J) -> &Vec<J> {
    v.as_array().expect("rig: list")
}

fn count(v: &J) -> usize {
    v.as_u64().expect("rig: count") as usize
}

/// Every other value is made by the conversion an application would write.
fn turn() -> bool {
    thread_local!(static TURN: std::cell::Cell<bool> = const { std::cell::Cell::new(false) });
    TURN.with(|t| !t.replace(!t.get()))
}

fn converted(d: &J) -> Option<JsValue> {
    fn small<T: std::str::FromStr>(d: &J) -> Option<T> {
        d.as_str().map(str::to_string).unwrap_or_else(|| d.to_string()).parse().ok()
    }
    let x = &d[1];
    Some(match t(&d[0]) {
        "u32" => small::<u8>(x).map(JsValue::from).or(small::<u16>(x).map(JsValue::from)).or(small::<u32>(x).map(JsValue::from))?,
        "i32" => small::<i8>(x).map(JsValue::from).or(small::<i16>(x).map(JsValue::from)).or(small::<i32>(x).map(JsValue::from))?,
        "u64" => small::<usize>(x).map(JsValue::from).or(small::<u64>(x).map(JsValue::from))?,
        "i64" => small::<isize>(x).map(JsValue::from).or(small::<i64>(x).map(JsValue::from))?,
        "f64" => JsValue::from(n::<f64>(x)),
        "bool" => JsValue::from(x == true),
        "str" if t(x).len() % 2 == 0 => JsValue::from(t(x)),
        "str" => JsValue::from(t(x).to_string()),
        "obj" => {
            let items: Vec<(&str, JsValue)> = list(x).iter().map(|x| (t(&x[0]), value(&x[1]))).collect();
            match items.len() % 3 {
                0 => JsValue::from(items),
                1 => JsValue::from(items.into_iter().map(|(k, v)| (k.to_string(), v)).collect::<Vec<(String, JsValue)>>()),
                _ => JsValue::from(items.into_iter().map(|(k, v)| (k.to_string(), v)).collect::<std::collections::HashMap<String, JsValue>>()),
            }
        }
        _ => return None,
    })
}

/// The value of a description.
fn value(d: &J) -> JsValue {
    if turn() {
        if let Some(v) = converted(d) {
            return v;
        }
    }
    match t(&d[0]) {
        "u32" => JsValue::U32(n(&d[1])),
        "i32" => JsValue::I32(n(&d[1])),
        "u64" => JsValue::U64(n(&d[1])),
        "i64" => JsValue::I64(n(&d[1])),
        "f64" => JsValue::F64(n(&d[1])),
        "bool" => JsValue::bool(d[1] == true),
        "null" => JsValue::Null,
        "undef" => JsValue::Undefined,
        "bytes" => JsValue::Vec(list(&d[1]).iter().map(|x| x.as_u64().unwrap() as u8).collect()),
        "bytesn" => JsValue::Vec((0..count(&d[1])).map(|i| (i % 251) as u8).collect()),
        "str" => JsValue::str(t(&d[1])),
        "strn" => JsValue::str(t(&d[2]).repeat(count(&d[1]))),
        "list" => JsValue::List(list(&d[1]).iter().map(value).collect()),
        "listn" => JsValue::List((0..count(&d[1])).map(|_| value(&d[2])).collect()),
        "obj" => JsValue::Object(list(&d[1]).iter().map(|x| (t(&x[0]).to_string(), value(&x[1]))).collect()),
        "objn" => JsValue::Object((0..count(&d[1])).map(|i| (format!("k{i}"), value(&d[2]))).collect()),
        "json" => JsValue::Json(json_value(&d[1])),
        "kept" => KEPT.with(|k| k.borrow()[t(&d[1])].clone()),
        x => panic!("rig: value {x}"),
    }
}

pub fn json_value(d: &J) -> JsJson {
    match t(&d[0]) {
        "num" => JsJson::Number(n(&d[1])),
        "bool" => if d[1] == true { JsJson::True } else { JsJson::False },
        "null" => JsJson::Null,
        "str" => JsJson::String(t(&d[1]).into()),
        "strn" => JsJson::String(t(&d[2]).repeat(count(&d[1]))),
        "list" => JsJson::List(list(&d[1]).iter().map(json_value).collect()),
        "listn" => JsJson::List((0..count(&d[1])).map(|_| json_value(&d[2])).collect()),
        "obj" => JsJson::Object(list(&d[1]).iter().map(|x| (t(&x[0]).to_string(), json_value(&x[1]))).collect()),
        "objn" => JsJson::Object((0..count(&d[1])).map(|i| (format!("k{i}"), json_value(&d[2]))).collect()),
        x => panic!("rig: json value {x}"),
    }
}

/// What a received value holds: the kinds of numbers and of containers are not told apart.
fn show(v: &JsValue) -> J {
    match v {
        JsValue::U32(x) => json!(["num", x.to_string()]),
        JsValue::I32(x) => json!(["num", x.to_string()]),
        JsValue::F64(x) => json!(["num", format!("{x:?}")]),
        JsValue::U64(x) => json!(["big", x.to_string()]),
        JsValue::I64(x) => json!(["big", x.to_string()]),
        JsValue::True => json!(["bool", true]),
        JsValue::False => json!(["bool", false]),
        JsValue::Null => json!(["null"]),
        JsValue::Undefined => json!(["undef"]),
        JsValue::Vec(x) => json!(["bytes", x]),
        JsValue::String(x) => json!(["str", x]),
        JsValue::List(x) => json!(["list", x.iter().map(show).collect::<Vec<_>>()]),
        JsValue::Object(x) => json!(["obj", x.iter().map(|(k, v)| json!([k, show(v)])).collect::<Vec<_>>()]),
        JsValue::Json(x) => show_json(x),
    }
}

pub fn show_json(v: &JsJson) -> J {
    match v {
        JsJson::True => json!(["bool", true]),
        JsJson::False => json!(["bool", false]),
        JsJson::Null => json!(["null"]),
        JsJson::String(x) => json!(["str", x]),
        JsJson::Number(x) => json!(["num", format!("{x:?}")]),
        JsJson::List(x) => json!(["list", x.iter().map(show_json).collect::<Vec<_>>()]),
        JsJson::Object(x) => json!(["obj", x.iter().map(|(k, v)| json!([k, show_json(v)])).collect::<Vec<_>>()]),
    }
}

fn receive(keep: &J, v: JsValue) {
    log(json!(["got", show(&v)]));
    if let Some(k) = keep.as_str().filter(|k| !k.is_empty()) {
        KEPT.with(|s| s.borrow_mut().insert(k.to_string(), v));
    }
}

/// One operation on the object at the end of a path which begins at that root (whose type has no public name).
macro_rules! perform {
    ($root:expr, $o:expr) => {{
        let o: &J = $o;
        let mut at = $root;
        for p in &list(&o[1])[1..] {
            at = at.get(t(p));
        }
        match t(&o[0]) {
            "set" => at.set(t(&o[2]), value(&o[3])).exec(),
            "get" => receive(&o[3], at.get(t(&o[2])).fetch()),
            "call" => receive(&o[4], at.call(t(&o[2]), list(&o[3]).iter().map(value).collect()).fetch()),
            "props" => {
                let names = list(&o[2]).iter().map(t).collect::<Vec<_>>();
                receive(&o[3], at.get_props(&names).fetch())
            }
            "whole" => receive(&o[2], at.fetch()),
            x => panic!("rig: bridge {x}"),
        }
    }};
}

fn op(o: &J) {
    match (t(&o[0]), t(&o[1][0])) {
        ("post", _) => {
            let (url, body) = ("http://b/".to_string(), json_value(&o[2]));
            get_driver().spawn(async move {
                let r = RequestBuilder::post(url).body_json(Wire(body)).call().await;
                let got = r.into(|_, b| match b {
                    RequestBody::Json(j) => Some(Ok(show_json(&j))),
                    _ => None,
                });
                log(json!(["answer", got.ok()]));
            });
        }
        (_, "w") => perform!(get_driver().dom_access().root("window"), o),
        (_, "d") => perform!(get_driver().dom_access().root("document"), o),
        (_, "W") => receive(&o[3], match t(&o[2]) {
            "a" => window!("a"),
            "b" => window!("b"),
            "args()" => window!("args()", value(&o[4]), value(&o[5])),
            x => panic!("rig: window {x}"),
        }),
        _ => ELEMENT.with(|e| e.borrow().as_ref().expect("rig: element")(o)),
    }
}

struct Wire(JsJson);
impl vertigo::JsJsonSerialize for Wire {
    fn to_json(self) -> JsJson {
        self.0
    }
}

pub fn is_on() -> bool {
    ON.with(|o| *o.borrow())
}

pub fn app() -> DomNode {
    let html = DomElement::new("html");
    html.add_child(DomElement::new("head"));
    let body = DomElement::new("body");
    let e = DomElement::new("i");
    ELEMENT.with(|s| *s.borrow_mut() = Some({
        let r = e.get_ref();
        Box::new(move |o: &J| perform!(r.dom_access(), o))
    }));
    body.add_child(e);
    html.add_child(body);
    html.into()
}

pub fn dispatch(cmd: &J) -> J {
    match t(&cmd["do"]) {
        "on" => ON.with(|o| *o.borrow_mut() = true),
        "op" => op(&cmd["op"]),
        other => panic!("rig: bridge {other}"),
    }
    json!({ "log": take_log() })
}
