//! The suites over boxes of plain types.
mod boxes;
mod hand;
use tbx::worker;

fn main() {
    worker::main(
        vec![
            ("boxes", "c04", boxes::c04),
            ("boxes", "c05", boxes::c05),
            ("boxes", "c06", boxes::c06),
            ("boxes", "c19", boxes::c19),
            ("boxes", "c21", boxes::c21),
            ("boxes", "c24", boxes::c24),
            ("boxes", "c28", hand::c28),
            ("boxes", "c28left", hand::c28_left),
        ],
        &[
            ("c04", |cx| boxes::every_row(cx, false)),
            ("c05", |cx| boxes::every_row(cx, false)),
            ("c06", |cx| boxes::every_row(cx, true)),
            ("c24", |cx| boxes::every_row(cx, false)),
        ],
    )
}
