// Native replay of a solver model against the real crate.
#[path = "../../src/all.rs"]
mod all;
fn main() {
    all::replay_main();
}
