//! P40: the message macro and the derives, on every method shape of a grammar (see gen.py).
#[path = "../../harness/src/kit.rs"]
#[allow(dead_code)]
mod kit;
#[path = "../../harness/src/driver.rs"]
mod driver;
#[cfg(not(feature = "bare"))]
mod derives;
#[cfg(not(feature = "bare"))]
mod scn;
#[cfg(feature = "bare")]
mod scn {
    pub fn all() -> Vec<crate::kit::Scn> {
        vec![]
    }
}
fn main() {
    std::process::exit(driver::main());
}
