//! Reactive graph scenarios: values, connected values, computeds with dynamic dependencies, subscribers, transactions.
use serde_json::{json, Value as J};
use std::cell::RefCell;
use std::collections::BTreeMap;
use vertigo::{get_driver, transaction, AutoMap, Computed, Context, DropResource, Value};

use crate::{log, take_log};

#[derive(Clone)]
pub enum Node {
    Val(Value<i64>),
    Comp(Computed<i64>),
}

impl Node {
    pub fn get(&self, ctx: &Context) -> i64 {
        match self {
            Node::Val(v) => v.get(ctx),
            Node::Comp(c) => c.get(ctx),
        }
    }
    pub fn comp(&self) -> Computed<i64> {
        match self {
            Node::Val(v) => v.to_computed(),
            Node::Comp(c) => c.clone(),
        }
    }
}

#[derive(Default)]
struct World {
    nodes: BTreeMap<i64, Node>,
    sources: BTreeMap<i64, Value<i64>>, // live handle of a connected value's source
    subs: BTreeMap<i64, DropResource>,
    hooks: BTreeMap<i64, DropResource>,
}

thread_local! {
    static WORLD: RefCell<World> = RefCell::new(World::default());
}

fn with<R>(f: impl FnOnce(&mut World) -> R) -> R {
    WORLD.with(|w| f(&mut w.borrow_mut()))
}

fn node(id: i64) -> Node {
    with(|w| w.nodes.get(&id).cloned().expect("rig: node"))
}

fn bump(id: i64) {
    log(json!(["ev", id]));
}

fn ids(v: &J) -> Vec<i64> {
    v.as_array().map(|a| a.iter().map(|x| x.as_i64().unwrap()).collect()).unwrap_or_default()
}

/// A computed is described by: cond `c` (0 = none), lists `a` and `b`, constant `k`, modulus `m`, and `api`.
/// Its value is (k + sum of the chosen list) mod m, where the list is `a` if c = 0 or value(c) > 0, else `b`.
fn make(desc: &J) {
    let id = desc["id"].as_i64().unwrap();
    let n = match desc["kind"].as_str().unwrap() {
        "val" => Node::Val(Value::new(desc["init"].as_i64().unwrap())),
        "conn" => {
            // a connected value; `sync` >= 0 makes the source push that value while it is being connected
            let sync = desc["sync"].as_i64().unwrap_or(-1);
            Node::Comp(Value::with_connect(desc["init"].as_i64().unwrap(), move |value| {
                log(json!(["open", id]));
                with(|w| w.sources.insert(id, value.clone()));
                if sync >= 0 {
                    value.set(sync);
                }
                DropResource::new(move || {
                    log(json!(["close", id]));
                })
            }))
        }
        "comp" => {
            let k = desc["k"].as_i64().unwrap();
            let m = desc["mod"].as_i64().unwrap();
            let c = desc["c"].as_i64().unwrap();
            let cond = if c > 0 { Some(node(c)) } else { None };
            let a: Vec<Node> = ids(&desc["a"]).into_iter().map(node).collect();
            let b: Vec<Node> = ids(&desc["b"]).into_iter().map(node).collect();
            match desc["api"].as_str().unwrap() {
                // the .map() shortcut on the only dependency
                "map" => {
                    let f = move |x: i64| {
                        bump(id);
                        (k + x).rem_euclid(m)
                    };
                    Node::Comp(match &a[0] {
                        Node::Val(v) => v.map(f),
                        Node::Comp(c) => c.map(f),
                    })
                }
                // each dependency is read through a computed created during the evaluation
                "tmp" => Node::Comp(Computed::from(move |ctx| {
                    bump(id);
                    let list = match &cond {
                        Some(c) if c.comp().map(|x| x).get(ctx) <= 0 => &b,
                        _ => &a,
                    };
                    let mut sum = k;
                    for n in list {
                        sum += n.comp().map(|x| x).get(ctx);
                    }
                    sum.rem_euclid(m)
                })),
                // each dependency is read through an AutoMap of computeds
                "auto" => {
                    let all: Vec<Node> = a.iter().chain(b.iter()).cloned().collect();
                    let na = a.len();
                    let map: AutoMap<usize, Computed<i64>> = AutoMap::new(move |_, i: &usize| all[*i].comp().map(|x| x));
                    let nb = b.len();
                    Node::Comp(Computed::from(move |ctx| {
                        bump(id);
                        let range = match &cond {
                            Some(c) if c.get(ctx) <= 0 => na..na + nb,
                            _ => 0..na,
                        };
                        let mut sum = k;
                        for i in range {
                            sum += map.get(&i).get(ctx);
                        }
                        sum.rem_euclid(m)
                    }))
                }
                // plain
                _ => Node::Comp(Computed::from(move |ctx| {
                    bump(id);
                    let list = match &cond {
                        Some(c) if c.get(ctx) <= 0 => &b,
                        _ => &a,
                    };
                    let mut sum = k;
                    for n in list {
                        sum += n.get(ctx);
                    }
                    sum.rem_euclid(m)
                })),
            }
        }
        x => panic!("rig: node kind {x}"),
    };
    with(|w| w.nodes.insert(id, n));
}

fn num(op: &J, i: usize) -> i64 {
    op[i].as_i64().unwrap_or_else(|| panic!("rig: operand {op}"))
}

fn run(op: &J, ctx: Option<&Context>) {
    match op[0].as_str().unwrap() {
        "set" => {
            if let Node::Val(v) = node(num(op, 1)) {
                v.set(num(op, 2))
            }
        }
        "cset" => {
            if let Node::Val(v) = node(num(op, 1)) {
                v.set_value_and_compare(num(op, 2))
            }
        }
        "chg" => {
            if let Node::Val(v) = node(num(op, 1)) {
                let d = num(op, 2);
                v.change(|x| *x = (*x + d).rem_euclid(5))
            }
        }
        "push" => {
            let src = with(|w| w.sources.get(&num(op, 1)).cloned());
            if let Some(src) = src {
                src.set(num(op, 2));
            }
        }
        "read" => {
            let n = node(num(op, 1));
            let v = match ctx {
                Some(ctx) => n.get(ctx),
                None => transaction(|ctx| n.get(ctx)),
            };
            log(json!(["read", op[1], v]));
        }
        "sub" => {
            let s = num(op, 1);
            let c = node(num(op, 2)).comp();
            let cb = move |v: i64| log(json!(["cb", s, v]));
            let r = if op[3] == "all" { c.subscribe_all(cb) } else { c.subscribe(cb) };
            with(|w| w.subs.insert(s, r));
        }
        "drop" => {
            let r = with(|w| w.subs.remove(&num(op, 1)));
            drop(r);
        }
        "hook" => {
            let h = num(op, 1);
            let r = get_driver().on_after_transaction(move || log(json!(["hook", h])));
            with(|w| w.hooks.insert(h, r));
        }
        "unhook" => {
            let r = with(|w| w.hooks.remove(&num(op, 1)));
            drop(r);
        }
        "tx" => {
            let ret = transaction(|ctx| {
                log(json!(["opened"]));
                for o in op[1].as_array().unwrap() {
                    run(o, Some(ctx));
                    log(json!(["done"]));
                }
                log(json!(["closing"]));
                41
            });
            log(json!(["ret", ret]));
        }
        x => panic!("rig: op {x}"),
    }
}

pub fn dispatch(cmd: &J) -> J {
    match cmd["do"].as_str().unwrap() {
        "reset" => {
            let old = with(|w| std::mem::take(w));
            let World { nodes, sources, subs, hooks, .. } = old;
            drop(subs);
            drop(hooks);
            drop(nodes);
            drop(sources);
            take_log();
            J::Null
        }
        "make" => {
            for d in cmd["nodes"].as_array().unwrap() {
                make(d);
            }
            J::Null
        }
        "op" => {
            run(&cmd["op"], None);
            json!({"log": take_log()})
        }
        x => panic!("rig: react {x}"),
    }
}
