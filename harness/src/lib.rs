// Symbolic build: every entry point `h_*` is executed by /verif/engine on the
// LLVM IR of this crate linked (LTO) with the real ext4-view crate and std.
mod all;
pub use all::*;
