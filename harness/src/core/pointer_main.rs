//! The suites over tagged pointers, and the hand-written declarations.
mod cells;
use tbx::{ptr, worker};

fn c03(_: &tbx::tbx_engine::run::Case, _: &mut tbx::tbx_engine::run::Cx) -> tbx::tbx_engine::run::Verdict {
    ptr::c03()
}

fn main() {
    worker::main(
        vec![
            ("pointer", "c01", ptr::c01),
            ("pointer", "c02", ptr::c02),
            ("pointer", "c03", c03),
            ("cells", "c10", cells::c10),
            ("pointer", "c16", ptr::c16),
            ("pointer", "c17", ptr::c17),
            ("pointer", "c18", ptr::c18),
        ],
        &[("c01", |_| ptr::c01_exhaustive())],
    )
}
