//! The library workload as a program, see libwork::command.
fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    std::process::exit(libwork::command(&a));
}
