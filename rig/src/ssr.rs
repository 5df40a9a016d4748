//! The application as the server runs it: what it does is written in the address of the page.
use serde_json::{json, Value as J};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::rc::Rc;
use vertigo::router::Router;
use vertigo::{get_driver, Computed, DomElement, DomNode, DomText, DropResource, JsJson, JsJsonContext, JsJsonDeserialize, LazyCache, Resource, Value};

use crate::net::{items, json_from, num, request, response_of, text, Route};
use crate::page;

/// Any JSON.
#[derive(Clone, PartialEq)]
struct Whole(JsJson);

impl JsJsonDeserialize for Whole {
    fn from_json(_: JsJsonContext, json: JsJson) -> Result<Self, JsJsonContext> {
        Ok(Whole(json))
    }
}

#[derive(Clone)]
enum Shown {
    Text(Value<String>),
    Cache(Computed<Resource<Rc<Whole>>>),
}

#[derive(Default)]
struct World {
    cells: BTreeMap<i64, Shown>,
    ids: Option<Value<Vec<i64>>>,
    keep: Vec<DropResource>,
    routers: Vec<Router<Route>>,
}

thread_local! {
    static WORLD: RefCell<World> = RefCell::new(World::default());
    static STARTS: Cell<i64> = const { Cell::new(0) };
}

fn with<R>(f: impl FnOnce(&mut World) -> R) -> R {
    WORLD.with(|w| f(&mut w.borrow_mut()))
}

fn ids() -> Value<Vec<i64>> {
    with(|w| w.ids.get_or_insert_with(|| Value::new(Vec::new())).clone())
}

fn show(id: i64, s: Shown) {
    with(|w| w.cells.insert(id, s));
    ids().set(with(|w| w.cells.keys().copied().collect()));
}

fn put(id: &J, v: J) {
    let id = num(id);
    match with(|w| w.cells.get(&id).cloned()) {
        Some(Shown::Text(t)) => t.set(v.to_string()),
        _ => show(id, Shown::Text(Value::new(v.to_string()))),
    }
}

fn cache_text(r: &Resource<Rc<Whole>>) -> String {
    match r {
        Resource::Loading => json!(["loading"]),
        Resource::Ready(v) => json!(["ready", [200, "json", json_from(&v.0)]]),
        Resource::Error(_) => json!(["error"]),
    }
    .to_string()
}

fn cell(id: i64) -> DomNode {
    let p = DomElement::new("p").attr("id", format!("c{id}"));
    let text = match with(|w| w.cells.get(&id).cloned()).expect("rig: cell") {
        Shown::Text(v) => DomText::new_computed(v.to_computed()),
        Shown::Cache(c) => DomText::new_computed(c.map(|r| cache_text(&r))),
    };
    p.add_child(text);
    p.into()
}

async fn fetch(op: &'static J) {
    let out = response_of(request(&op[2]).call().await);
    put(&op[1], match out {
        Some(v) => json!(["resp", v]),
        None => json!(["error"]),
    });
    run_all(items(&op[3]));
}

fn run_all(list: &'static [J]) {
    for o in list {
        run(o);
    }
}

fn run(op: &'static J) {
    let a = &op[1];
    let d = get_driver();
    match text(&op[0]) {
        "set" => put(a, json!(["=", op[2]])),
        "spawn" => d.spawn(async move { run_all(items(a)) }),
        "nap" => d.spawn(async move {
            for _ in 0..num(a) {
                get_driver().sleep(0).await;
            }
            run_all(items(&op[2]));
        }),
        "fetch" => {
            put(a, json!(["=", "-"]));
            d.spawn(fetch(op));
        }
        "cache" => {
            let c: LazyCache<Whole> = request(&op[2]).lazy_cache(|status, body| match status {
                200 => Some(body.into::<Whole>()),
                _ => None,
            });
            let c = c.to_computed();
            // the request starts here, not when the cell is rendered
            let r = c.clone().subscribe(|_| {});
            with(|w| w.keep.push(r));
            show(num(a), Shown::Cache(c));
        }
        "panic" => panic!("rig: {}", text(a)),
        "env" => put(a, json!(["env", op[2], d.env(text(&op[2]))])),
        "route" => {
            let r = with(|w| {
                w.routers.push(Router::<Route>::new_history_router());
                w.routers[w.routers.len() - 1].clone()
            });
            let t = d.transaction(|ctx| r.route.get(ctx).to_string());
            put(a, json!(["route", t]));
        }
        "random" => put(a, json!(["random", op[2], op[3], d.get_random(num(&op[2]) as u32, num(&op[3]) as u32)])),
        "zone" => put(a, json!(["zone", d.timezone_offset()])),
        "time" => put(a, json!(["time", d.utc_now()])),
        "browser" => put(a, json!(["browser", d.is_browser(), d.is_server()])),
        "starts" => put(a, json!(["starts", STARTS.get()])),
        // of no consequence here
        "later" => {
            let c = num(&op[2]);
            d.spawn(async move {
                get_driver().sleep(num(a) as u32).await;
                put(&json!(c), json!("late"));
            })
        }
        "interval" => {
            let c = num(&op[2]);
            let r = d.set_interval(num(a) as u32, move || put(&json!(c), json!("tick")));
            with(|w| w.keep.push(r));
        }
        "socket" => {
            let c = num(&op[2]);
            let r = d.websocket(text(a), move |_| put(&json!(c), json!("socket")));
            with(|w| w.keep.push(r));
        }
        "cookie" => {
            d.cookie_set("rig", text(a), 1000);
            d.cookie_set_json("rig", JsJson::Null, 1000);
            let _ = d.cookie_get("rig");
            let _ = d.cookie_get_json("rig");
        }
        "push" => d.history_replace(text(a)),
        "back" => d.history_back(),
        x => panic!("rig: ssr {x}"),
    }
}

fn script(sc: &'static J) -> DomNode {
    if let Some(plain) = sc["plain"].as_str() {
        get_driver().plains(move |_| Some(plain.to_string()));
    } else {
        get_driver().plains(move |_| None);
    }
    run_all(items(&sc["ops"]));
    let body = DomElement::new("body");
    body.add_child(ids().to_computed().render_list(|k| *k, |k| cell(*k)));
    let head = DomElement::new("head");
    let root = DomElement::new(if sc["root"] == "div" { "div" } else { "html" });
    root.add_child(head);
    if sc["root"] != "nobody" {
        root.add_child(body);
    }
    root.into()
}

/// A component tree of the page family; "then" holds lists of transactions which follow the start.
fn tree(sc: &'static J) -> DomNode {
    page::load(sc);
    // what the application makes of what it finds may be another page in the browser
    let tree = if sc["tree_there"].is_object() && get_driver().is_browser() { &sc["tree_there"] } else { &sc["tree"] };
    let root = if tree["tag"] == "html" { page::build(tree, 0) } else { page::app() };
    get_driver().spawn(async move {
        for step in items(&sc["then"]) {
            get_driver().sleep(0).await;
            page::transact(step);
        }
    });
    root
}

fn decode(s: &str) -> Option<Vec<u8>> {
    let (mut out, mut acc, mut bits) = (Vec::new(), 0u32, 0);
    for c in s.bytes() {
        let v = match c {
            b'A'..=b'Z' => c - b'A',
            b'a'..=b'z' => c - b'a' + 26,
            b'0'..=b'9' => c - b'0' + 52,
            b'-' => 62,
            b'_' => 63,
            _ => return None,
        };
        acc = (acc << 6) | v as u32;
        bits += 6;
        if bits >= 8 {
            bits -= 8;
            out.push((acc >> bits) as u8);
            acc &= (1 << bits) - 1;
        }
    }
    Some(out)
}

pub fn app() -> DomNode {
    STARTS.set(STARTS.get() + 1);
    let r = Router::<Route>::new_history_router();
    let location = get_driver().transaction(|ctx| r.route.get(ctx).to_string());
    let sc = location.strip_prefix("/s/").map(|s| s.split('?').next().unwrap_or(s)).and_then(decode).and_then(|b: Vec<u8>| serde_json::from_slice::<J>(&b).ok());
    let sc: &'static J = Box::leak(Box::new(sc.unwrap_or_else(|| json!({ "ops": [["set", 1, location]] }))));
    if sc["tree"].is_object() {
        tree(sc)
    } else {
        script(sc)
    }
}
