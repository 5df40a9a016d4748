//! Scenario interpreter used by the conformance checks.  It is an ordinary vertigo application (public API only).
mod bridge;
mod core;
mod json;
mod net;
mod page;
mod react;
mod ssr;

pub use crate::core::{log, take_log};

/// Only the application of ../../tmpl has templates.
pub fn template(n: usize) -> vertigo::DomNode {
    panic!("rig: no template {n}")
}

pub fn dispatch(cmd: &serde_json::Value) -> serde_json::Value {
    match cmd["m"].as_str().unwrap_or("") {
        "react" => react::dispatch(cmd),
        "page" => page::dispatch(cmd),
        "bridge" => bridge::dispatch(cmd),
        "json" => json::dispatch(cmd),
        "net" => net::dispatch(cmd),
        "log" => serde_json::json!({ "log": take_log() }),
        other => panic!("rig: unknown module {other}"),
    }
}

#[vertigo::main]
pub fn app() -> vertigo::DomNode {
    if vertigo::get_driver().is_server() {
        ssr::app()
    } else if net::is_on() {
        net::app()
    } else if bridge::is_on() {
        bridge::app()
    } else if page::is_on() {
        page::app()
    } else {
        ssr::app()
    }
}
