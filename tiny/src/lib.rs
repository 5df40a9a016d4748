//! The smallest application: a page which shows the text VERSION, which the checks overwrite in the compiled module.
use vertigo::{dom, main, DomNode};

static VERSION: [u8; 16] = *b"@VERSION-000000@";

#[main]
fn app() -> DomNode {
    let version: String = std::hint::black_box(&VERSION).iter().map(|c| char::from(*c)).collect();
    dom! { <html><head></head><body><p id="version">{version}</p></body></html> }
}
