mod ast;
mod cases;
mod check;
mod driver;
mod emit;
mod gen;
mod model;
mod reject;
mod spec;
mod twins;
fn main() {
    if std::env::args().nth(1).as_deref() == Some("names") {
        return twins::show_names();
    }
    spec::main()
}
