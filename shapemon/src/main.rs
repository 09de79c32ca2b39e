//! Monitor over the derive macros.
mod derived;
mod shapes;

fn main() {
    model::harness::main(&derived::props(), concat!(env!("CARGO_MANIFEST_DIR"), "/.."));
}
