//! P50 to P53: remote actors, on the real swarm handler and behaviour (see net.rs).
#[path = "../../harness/src/kit.rs"]
#[allow(dead_code)]
mod kit;
#[path = "../../harness/src/driver.rs"]
mod driver;
mod large;
#[allow(dead_code)]
mod net;
#[allow(dead_code)]
mod node;
#[allow(dead_code)]
mod p50;
#[allow(dead_code)]
mod p51;
mod p52;
mod p53;
mod p54;
#[path = "../../harness/src/uni.rs"]
mod uni;
#[path = "../../harness/src/vars.rs"]
mod vars;
mod scn;
fn main() {
    std::process::exit(driver::main());
}
