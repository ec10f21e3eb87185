use crate::kit::*;

// the scenarios of local actors (P54)
#[path = "../../harness/src/scn/core.rs"]
pub mod core;
#[path = "../../harness/src/scn/ends.rs"]
pub mod ends;
#[path = "../../harness/src/scn/ident.rs"]
pub mod ident;
#[path = "../../harness/src/scn/large.rs"]
pub mod large;
#[path = "../../harness/src/scn/life.rs"]
pub mod life;
#[path = "../../harness/src/scn/links.rs"]
pub mod links;
#[path = "../../harness/src/scn/send.rs"]
pub mod send;
#[path = "../../harness/src/scn/start.rs"]
pub mod start;
#[path = "../../harness/src/scn/values.rs"]
pub mod values;

pub fn all() -> Vec<Scn> {
    let mut v = crate::p50::all();
    v.extend(crate::p51::all());
    v.extend(crate::p52::all());
    v.extend(crate::p53::all());
    v.extend(crate::p54::all());
    v.extend(crate::large::all());
    v
}
