mod kit;
mod uni;
mod vars;
mod scn;
mod driver;
fn main() {
    std::process::exit(driver::main());
}
