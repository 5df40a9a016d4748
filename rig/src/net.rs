//! Everything that talks to the browser: cached resources, requests, timers and futures, routers, websockets.
use serde_json::{json, Value as J};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::Poll;
use std::time::Duration;
use vertigo::router::Router;
use vertigo::{
    get_driver, transaction, AutoMap, Computed, Context, DomElement, DomNode, DomText, DropResource, EmbedDom, FetchMethod, FutureBox,
    FutureBoxSend, Instant, JsJson, LazyCache, Reactive, RequestBody, RequestBuilder, RequestResponse, Resource, ToComputed, Value, WebsocketConnection,
    WebsocketMessage,
};

use crate::{log, take_log};

/// A route is the text of the location, taken as it is.
#[derive(Clone, PartialEq, Debug)]
pub struct Route(String);

impl From<String> for Route {
    fn from(s: String) -> Self {
        Route(s)
    }
}

impl std::fmt::Display for Route {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}

#[derive(Default)]
struct World {
    vars: BTreeMap<i64, Value<i64>>,
    caches: BTreeMap<i64, LazyCache<i64>>,
    views: BTreeMap<i64, Computed<Resource<Rc<i64>>>>,
    subs: BTreeMap<i64, DropResource>,
    timers: BTreeMap<i64, DropResource>,
    boxes: BTreeMap<i64, (FutureBoxSend<i64>, Option<FutureBox<i64>>)>,
    routers: BTreeMap<i64, Router<Route>>,
    sockets: BTreeMap<i64, DropResource>,
    conns: BTreeMap<i64, WebsocketConnection>,
    instants: BTreeMap<i64, Instant>,
    maps: BTreeMap<i64, AutoMap<i64, Entry>>,
}

/// An entry of a keyed store: which one of the store it is, and its variable.
#[derive(Clone)]
struct Entry {
    at: i64,
    value: Value<i64>,
}

thread_local! {
    static WORLD: RefCell<World> = RefCell::new(World::default());
    static SCEN: RefCell<Option<&'static J>> = const { RefCell::new(None) };
}

fn with<R>(f: impl FnOnce(&mut World) -> R) -> R {
    WORLD.with(|w| f(&mut w.borrow_mut()))
}

pub fn num(v: &J) -> i64 {
    v.as_i64().unwrap_or_else(|| panic!("rig: number {v}"))
}

pub fn text(v: &J) -> &str {
    v.as_str().unwrap_or("")
}

pub fn items(v: &'static J) -> &'static [J] {
    v.as_array().map(|a| a.as_slice()).unwrap_or(&[])
}

fn var(id: i64) -> Value<i64> {
    with(|w| w.vars.entry(id).or_insert_with(|| Value::new(0)).clone())
}

fn cache(id: i64) -> LazyCache<i64> {
    with(|w| w.caches.get(&id).cloned().expect("rig: cache"))
}

fn view(id: i64) -> Computed<Resource<Rc<i64>>> {
    let c = cache(id);
    with(|w| w.views.entry(id).or_insert_with(|| c.to_computed()).clone())
}

/// The clock of the mini browser at the beginning.
const START: i64 = 1700000000000;

fn instant(id: &J) -> Option<Instant> {
    with(|w| w.instants.get(&num(id)).cloned())
}

fn router(id: i64) -> Router<Route> {
    with(|w| w.routers.get(&id).cloned().expect("rig: router"))
}

fn res(r: &Resource<Rc<i64>>) -> J {
    match r {
        Resource::Loading => json!("L"),
        Resource::Ready(v) => json!(["R", **v]),
        Resource::Error(e) => json!(["E", e]),
    }
}

fn json_of(v: &J) -> JsJson {
    match v {
        J::Null => JsJson::Null,
        J::Bool(true) => JsJson::True,
        J::Bool(false) => JsJson::False,
        J::Number(n) => JsJson::Number(n.as_f64().unwrap()),
        J::String(s) => JsJson::String(s.clone()),
        J::Array(a) => JsJson::List(a.iter().map(json_of).collect()),
        J::Object(o) => JsJson::Object(o.iter().map(|(k, v)| (k.clone(), json_of(v))).collect()),
    }
}

pub fn json_from(v: &JsJson) -> J {
    match v {
        JsJson::Null => J::Null,
        JsJson::True => J::Bool(true),
        JsJson::False => J::Bool(false),
        JsJson::Number(n) => json!(n),
        JsJson::String(s) => json!(s),
        JsJson::List(a) => J::Array(a.iter().map(json_from).collect()),
        JsJson::Object(o) => J::Object(o.iter().map(|(k, v)| (k.clone(), json_from(v))).collect()),
    }
}

/// The text of JSON; whole numbers without a fraction, properties in order.
fn plain_json(v: &JsJson) -> String {
    match v {
        JsJson::Number(n) if n.fract() == 0.0 => format!("{}", *n as i64),
        JsJson::List(a) => format!("[{}]", a.iter().map(plain_json).collect::<Vec<_>>().join(",")),
        JsJson::Object(o) => {
            let all: BTreeMap<_, _> = o.iter().collect();
            let all: Vec<_> = all.iter().map(|(k, v)| format!("{}:{}", json!(k), plain_json(v))).collect();
            format!("{{{}}}", all.join(","))
        }
        other => json_from(other).to_string(),
    }
}

fn method(m: &str) -> FetchMethod {
    match m {
        "GET" => FetchMethod::GET,
        "HEAD" => FetchMethod::HEAD,
        "POST" => FetchMethod::POST,
        "PUT" => FetchMethod::PUT,
        "DELETE" => FetchMethod::DELETE,
        "CONNECT" => FetchMethod::CONNECT,
        "OPTIONS" => FetchMethod::OPTIONS,
        "TRACE" => FetchMethod::TRACE,
        "PATCH" => FetchMethod::PATCH,
        x => panic!("rig: method {x}"),
    }
}

/// A request is described by the calls on its builder.
pub fn request(steps: &J) -> RequestBuilder {
    let mut r: Option<RequestBuilder> = None;
    for s in steps.as_array().expect("rig: request") {
        let a = &s[1];
        r = Some(match (text(&s[0]), r) {
            ("new", _) => RequestBuilder::new(method(text(a)), text(&s[2])),
            ("get", _) => RequestBuilder::get(text(a)),
            ("post", _) => RequestBuilder::post(text(a)),
            ("dget", _) => get_driver().request_get(text(a)),
            ("dpost", _) => get_driver().request_post(text(a)),
            ("header", Some(r)) => r.set_header(text(a), text(&s[2])),
            ("headers", Some(r)) => {
                let m: HashMap<String, String> = a.as_array().unwrap().iter().map(|p| (text(&p[0]).to_string(), text(&p[1]).to_string())).collect();
                r.headers(m)
            }
            ("bearer", Some(r)) => r.bearer_auth(text(a)),
            ("text", Some(r)) => r.body(RequestBody::Text(text(a).to_string())),
            ("json", Some(r)) => r.body(RequestBody::Json(json_of(a))),
            ("vec", Some(r)) => r.body_json(a.as_array().unwrap().iter().map(num).collect::<Vec<i64>>()),
            ("bin", Some(r)) => r.body(RequestBody::Binary(a.as_array().unwrap().iter().map(|x| num(x) as u8).collect())),
            ("ttl", Some(r)) => r.ttl_seconds(num(a) as u64),
            ("ttlm", Some(r)) => r.ttl_minutes(num(a) as u64),
            ("ttlh", Some(r)) => r.ttl_hours(num(a) as u64),
            ("ttld", Some(r)) => r.ttl_days(num(a) as u64),
            (x, _) => panic!("rig: builder {x}"),
        });
    }
    r.expect("rig: empty request")
}

/// Counts the polls of a task.
struct Polls {
    id: i64,
    inner: Pin<Box<dyn Future<Output = ()>>>,
}

impl Future for Polls {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> Poll<()> {
        log(json!(["poll", self.id]));
        self.inner.as_mut().poll(cx)
    }
}

async fn join(a: FutureBox<()>, b: FutureBox<()>) {
    let (mut a, mut b) = (Some(a), Some(b));
    std::future::poll_fn(move |cx| {
        for f in [&mut a, &mut b] {
            if let Some(x) = f {
                if Pin::new(x).poll(cx).is_ready() {
                    *f = None;
                }
            }
        }
        if a.is_none() && b.is_none() {
            Poll::Ready(())
        } else {
            Poll::Pending
        }
    })
    .await
}

async fn steps(id: i64, list: &'static [J]) {
    for s in list {
        match text(&s[0]) {
            "sleep" => get_driver().sleep(num(&s[1]) as u32).await,
            "join" => {
                let (a, b) = (get_driver().sleep(num(&s[1]) as u32), get_driver().sleep(num(&s[2]) as u32));
                join(a, b).await
            }
            "recv" => {
                let f = with(|w| match w.boxes.get_mut(&num(&s[1])) {
                    Some((_, f)) => f.take(),
                    None => None,
                });
                if let Some(f) = f {
                    let v = f.await;
                    log(json!(["got", id, s[1], v]));
                }
            }
            "fetch" => fetch(s).await,
            _ => run(s, None),
        }
    }
    log(json!(["end", id]));
}

fn spawn(id: i64, list: &'static [J]) {
    let polls = move || Polls { id, inner: Box::pin(steps(id, list)) };
    if id % 2 == 0 {
        get_driver().spawn(polls());
    } else {
        // how an event handler of an application starts it
        let start = vertigo::bind_spawn!(polls, async move { polls().await });
        start();
    }
}

/// An answer as [status, kind, content].
pub fn response_of(response: RequestResponse) -> Option<J> {
    let out: Result<J, String> = response.into(|status, body| {
        Some(Ok(match body {
            RequestBody::Text(s) => json!([status, "text", s]),
            RequestBody::Json(j) => json!([status, "json", json_from(&j)]),
            RequestBody::Binary(b) => json!([status, "bin", b]),
        }))
    });
    out.ok()
}

/// ["fetch", id, request, ops afterwards]
async fn fetch(op: &'static J) {
    let id = op[1].clone();
    let response = request(&op[2]).call().await;
    let status = response.status();
    match response_of(response) {
        Some(v) => log(json!(["resp", id, status, v])),
        None => log(json!(["resp", id, status, "E"])),
    }
    for o in items(&op[3]) {
        run(o, None);
    }
}

fn read_all(ctx: &Context, ids: &J) -> Vec<i64> {
    ids.as_array().unwrap().iter().map(|v| var(num(v)).get(ctx)).collect()
}

fn run_all(list: &'static [J], ctx: Option<&Context>) {
    for o in list {
        run(o, ctx);
    }
}

pub fn run(op: &'static J, ctx: Option<&Context>) {
    let a = &op[1];
    match text(&op[0]) {
        "log" => log(json!(["log", a])),
        "tx" => transaction(|ctx| run_all(items(a), Some(ctx))),
        // variables
        "set" => var(num(a)).set(num(&op[2])),
        "watch" => {
            // subscriber of several variables at once
            let (id, ids) = (num(a), &op[2]);
            let c = Computed::from(move |ctx| read_all(ctx, ids));
            let d = c.subscribe(move |v| log(json!(["vals", id, v])));
            with(|w| w.subs.insert(id, d));
        }
        "unsub" => drop(with(|w| w.subs.remove(&num(a)))),
        // cookies
        "cset" => get_driver().cookie_set(text(a), text(&op[2]), num(&op[3]) as u64),
        "csetj" => get_driver().cookie_set_json(text(a), json_of(&serde_json::from_str(text(&op[2])).expect("rig: json")), num(&op[3]) as u64),
        "cget" => log(json!(["cget", a, get_driver().cookie_get(text(a))])),
        "cgetj" => log(json!(["cgetj", a, plain_json(&get_driver().cookie_get_json(text(a)))])),
        // the environment; the clock starts at START
        "iset" => drop(with(|w| w.instants.insert(num(a), get_driver().now()))),
        "irefresh" => {
            if let Some(i) = instant(&op[2]) {
                with(|w| w.instants.insert(num(a), i.refresh()));
            }
        }
        "iadd" => {
            if let Some(i) = instant(&op[2]) {
                with(|w| w.instants.insert(num(a), i.add_duration(Duration::from_micros(num(&op[3]) as u64))));
            }
        }
        "iread" => {
            if let Some(i) = instant(a) {
                log(json!(["inst", a, i.instant as i64 - START, i.elapsed(), i.seconds_elapsed(), i.is_expire()]));
            }
        }
        "ieq" => {
            if let (Some(i), Some(j)) = (instant(a), instant(&op[2])) {
                log(json!(["ieq", i == j]));
            }
        }
        "utc" => log(json!(["utc", get_driver().utc_now() - START])),
        "tz" => log(json!(["tz", get_driver().timezone_offset()])),
        "env" => log(json!(["env", a, get_driver().env(text(a)).into_iter().collect::<Vec<_>>()])),
        "side" => log(json!(["side", get_driver().is_browser(), get_driver().is_server()])),
        "rand" => {
            let (min, max): (u32, u32) = (text(a).parse().expect("rig: min"), text(&op[2]).parse().expect("rig: max"));
            let all: BTreeSet<u32> = (0..400).map(|_| get_driver().get_random(min, max)).collect();
            for x in &all {
                assert!(*x >= min && *x <= max, "random number {x} between {min} and {max}");
            }
            let all = if max - min < 10 { all.iter().map(|x| x.to_string()).collect() } else { Vec::new() };
            log(json!(["rand", a, op[2], all]));
        }
        "choose" => {
            let list: Vec<i64> = (1..=num(a)).collect();
            let all: BTreeSet<i64> = (0..if list.is_empty() { 3 } else { 400 }).filter_map(|_| get_driver().get_random_from(&list)).collect();
            log(json!(["choose", a, all]));
        }
        "say" => {
            let m = text(&op[2]);
            match text(a) {
                "trace" => vertigo::log::trace!("~rig~{m}"),
                "debug" => vertigo::log::debug!("~rig~{m}"),
                "info" => vertigo::log::info!("~rig~{m}"),
                "warn" => vertigo::log::warn!("~rig~{m}"),
                _ => vertigo::log::error!("~rig~{m}"),
            }
        }
        // cached resources
        "cache" => {
            let mut r = request(&op[2]);
            if num(&op[3]) >= 0 {
                r = r.ttl_seconds(num(&op[3]) as u64);
            }
            let c: LazyCache<i64> = r.lazy_cache(|status, body| match status {
                200 => Some(body.into::<i64>()),
                404 => Some(Err("nf".to_string())),
                _ => None,
            });
            with(|w| w.caches.insert(num(a), c));
        }
        "resource" => {
            let c = LazyCache::<i64>::new_resource("http://api", text(&op[2]), num(&op[3]) as u64);
            with(|w| w.caches.insert(num(a), c));
        }
        "read" => {
            let c = cache(num(a));
            let v = match ctx {
                Some(ctx) => c.get(ctx),
                None => transaction(|ctx| c.get(ctx)),
            };
            log(json!(["read", a, res(&v)]));
        }
        "csub" => {
            let (s, c) = (num(a), num(&op[2]));
            let comp = if op[3] == "own" { cache(c).to_computed() } else { view(c) };
            let d = comp.subscribe(move |v| log(json!(["cb", s, res(&v)])));
            with(|w| w.subs.insert(s, d));
        }
        "force" => cache(num(a)).force_update(op[2] == true),
        "forget" => cache(num(a)).forget(),
        "update" => cache(num(a)).update(false, false),
        // requests
        "fetch" => get_driver().spawn(fetch(op)),
        // timers and futures
        "interval" => {
            let i = num(a);
            let ops = items(&op[3]);
            let d = get_driver().set_interval(num(&op[2]) as u32, move || {
                log(json!(["tick", i]));
                run_all(ops, None);
            });
            with(|w| w.timers.insert(i, d));
        }
        "clear" => drop(with(|w| w.timers.remove(&num(a)))),
        "spawn" => spawn(num(a), items(&op[2])),
        "box" => {
            let (s, f) = FutureBox::new();
            with(|w| w.boxes.insert(num(a), (s, Some(f))));
        }
        "send" => {
            let s = with(|w| w.boxes.get(&num(a)).map(|(s, _)| s.clone()));
            if let Some(s) = s {
                s.publish(num(&op[2]));
            }
        }
        "now" => {
            let n = get_driver().now();
            log(json!(["now", get_driver().utc_now(), n.instant, n.add_duration(Duration::from_millis(5)).instant]));
        }
        // routers
        "router" => {
            let r = match text(&op[2]) {
                "hash" => Router::<Route>::new_hash_router(),
                _ => Router::<Route>::new_history_router(),
            };
            with(|w| w.routers.insert(num(a), r));
        }
        "rsub" => {
            let s = num(a);
            let r = router(num(&op[2]));
            let c = if op[3] == "map" { r.route.map(|x| x) } else { r.to_computed() };
            let d = c.subscribe(move |v| log(json!(["route", s, v.0])));
            with(|w| w.subs.insert(s, d));
        }
        "rset" => router(num(a)).set(Route(text(&op[2]).to_string())),
        "rtset" => {
            let r = router(num(a));
            transaction(|_| r.set(Route(text(&op[2]).to_string())));
        }
        "rchange" => Reactive::change(&router(num(a)), |x| x.0.push_str(text(&op[2]))),
        "rget" => {
            let r = router(num(a));
            let v = match ctx {
                Some(ctx) => Reactive::get(&r, ctx),
                None => transaction(|ctx| Reactive::get(&r, ctx)),
            };
            log(json!(["rget", a, v.0]));
        }
        // keyed stores
        "map" => {
            let (name, plan) = (num(&op[2]), items(&op[3]));
            let made = std::cell::Cell::new(0);
            let map = AutoMap::<i64, Entry>::new(move |map, key| {
                for k in plan.get(*key as usize).map(items).unwrap_or_default() {
                    map.get(&num(k));
                }
                let at = made.replace(made.get() + 1);
                log(json!(["made", name, key, at]));
                Entry { at, value: Value::new(100 * key) }
            });
            with(|w| w.maps.insert(num(a), map));
        }
        "amclone" => {
            if let Some(map) = with(|w| w.maps.get(&num(&op[2])).cloned()) {
                with(|w| w.maps.insert(num(a), map));
            }
        }
        "amforget" => drop(with(|w| w.maps.remove(&num(a)))),
        "amget" => {
            if let Some(map) = with(|w| w.maps.get(&num(a)).cloned()) {
                let e = map.get(&num(&op[2]));
                let v = match ctx {
                    Some(ctx) => e.value.get(ctx),
                    None => transaction(|ctx| e.value.get(ctx)),
                };
                log(json!(["amget", a, op[2], e.at, v]));
            }
        }
        "ammany" => {
            if let Some(map) = with(|w| w.maps.get(&num(a)).cloned()) {
                let at: Vec<i64> = (num(&op[2])..=num(&op[3])).map(|k| map.get(&k).at).collect();
                log(json!(["ammany", at]));
            }
        }
        "amset" => {
            if let Some(map) = with(|w| w.maps.get(&num(a)).cloned()) {
                map.get(&num(&op[2])).value.set(num(&op[3]));
            }
        }
        "ameq" => {
            if let (Some(x), Some(y)) = with(|w| (w.maps.get(&num(a)).cloned(), w.maps.get(&num(&op[2])).cloned())) {
                log(json!(["ameq", x == y]));
            }
        }
        "amview" => {
            let (id, s) = (num(a), num(&op[3]));
            if let Some(map) = with(|w| w.maps.get(&num(&op[2])).cloned()) {
                let c = Computed::from(move |ctx| map.get(&var(s).get(ctx)).value.get(ctx));
                let d = c.subscribe(move |v| log(json!(["amv", id, v])));
                with(|w| w.subs.insert(id, d));
            }
        }
        "amdrop" => drop(with(|w| w.subs.remove(&num(a)))),
        "back" => get_driver().history_back(),
        "hreplace" => get_driver().history_replace(text(a)),
        // websockets
        "ws" => {
            let k = num(a);
            let onopen = items(&op[3]);
            let onmsg = items(&op[4]);
            let d = get_driver().websocket(text(&op[2]), move |m| match m {
                WebsocketMessage::Connection(c) => {
                    log(json!(["ws", k, "open"]));
                    with(|w| w.conns.insert(k, c));
                    run_all(onopen, None);
                }
                WebsocketMessage::Message(m) => {
                    log(json!(["ws", k, "msg", m]));
                    run_all(onmsg, None);
                }
                WebsocketMessage::Close => log(json!(["ws", k, "close"])),
            });
            with(|w| w.sockets.insert(k, d));
        }
        "wssend" => {
            let c = with(|w| w.conns.get(&num(a)).cloned());
            if let Some(c) = c {
                c.send(text(&op[2]));
            }
        }
        "wsdrop" => drop(with(|w| w.sockets.remove(&num(a)))),
        x => panic!("rig: net op {x}"),
    }
}

// ---- the page of a startup scenario
fn show(d: &'static J) -> DomNode {
    match text(&d["k"]) {
        "text" => DomText::new(text(&d["s"])).into(),
        "var" => {
            let p = DomElement::new("p");
            p.add_child(DomText::new_computed(var(num(&d["v"])).map(|x| x.to_string())));
            p.into()
        }
        "rows" => {
            // up to a thousand rows, which come and go in one transaction
            let ul = DomElement::new("ul");
            ul.add_child(var(num(&d["v"])).map(|x| (0..500 * (x % 3)).collect::<Vec<_>>()).render_list(|k| *k, |k| {
                let i = DomElement::new("i");
                i.add_child(DomText::new(k.to_string()));
                i.into()
            }));
            ul.into()
        }
        "link" => {
            let p = DomElement::new("a");
            p.add_attr("href", text(&d["href"]));
            p.add_child(DomText::new(text(&d["href"])));
            p.into()
        }
        "route" => {
            let p = DomElement::new("b");
            p.add_child(router(num(&d["r"])).embed());
            p.into()
        }
        "cache" => {
            let div = DomElement::new("div");
            let inner = items(&d["in"]);
            div.add_child(cache(num(&d["c"])).render(move |v| {
                let s = DomElement::new("span");
                s.add_child(DomText::new(v.to_string()));
                for x in inner {
                    s.add_child(show(x));
                }
                s.into()
            }));
            div.into()
        }
        "view" => {
            // as text, without suspense
            let p = DomElement::new("i");
            p.add_child(DomText::new_computed(view(num(&d["c"])).map(|r| res(&r).to_string())));
            p.into()
        }
        x => panic!("rig: show {x}"),
    }
}

pub fn is_on() -> bool {
    SCEN.with(|s| s.borrow().is_some())
}

pub fn app() -> DomNode {
    let sc = SCEN.with(|s| s.borrow().expect("rig: no net scenario"));
    run_all(items(&sc["init"]), None);
    let html = DomElement::new("html");
    html.add_child(DomElement::new("head"));
    let body = DomElement::new("body");
    for d in items(&sc["show"]) {
        body.add_child(show(d));
    }
    html.add_child(body);
    run_all(items(&sc["late"]), None);
    html.into()
}

fn leak(v: &J) -> &'static J {
    Box::leak(Box::new(v.clone()))
}

pub fn dispatch(cmd: &J) -> J {
    match text(&cmd["do"]) {
        "load" => {
            let sc = leak(&cmd["sc"]);
            SCEN.with(|s| *s.borrow_mut() = Some(sc));
        }
        "op" => run(leak(&cmd["op"]), None),
        other => panic!("rig: net {other}"),
    }
    json!({ "log": take_log() })
}

