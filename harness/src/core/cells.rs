//! Interior mutability behind a shared view.
use std::cell::{Cell, RefCell};
use tbx::tagged_box::{tagged_box, TaggableContainer, TaggableInner, TaggedBox};
use tbx::tbx_engine::{
    ensure,
    run::{Case, Cx, Src, Verdict},
};

tagged_box! {
    struct Cells, enum CellItem {
        One(Cell<u64>),
        Two(u8, Cell<u64>),
        Named { a: u8, c: RefCell<u64> },
        Far(Box<Cell<u64>>),
        FarTwo(u8, Box<Cell<u64>>),
        FarNamed { a: u8, c: Box<RefCell<u64>> },
    }
}

fn read(e: &CellItem) -> u64 {
    match e {
        CellItem::One(c) | CellItem::Two(_, c) => c.get(),
        CellItem::Named { c, .. } => *c.borrow(),
        CellItem::Far(c) | CellItem::FarTwo(_, c) => c.get(),
        CellItem::FarNamed { c, .. } => *c.borrow(),
    }
}
fn write(e: &CellItem, v: u64) {
    match e {
        CellItem::One(c) | CellItem::Two(_, c) => c.set(v),
        CellItem::Named { c, .. } => *c.borrow_mut() = v,
        CellItem::Far(c) | CellItem::FarTwo(_, c) => c.set(v),
        CellItem::FarNamed { c, .. } => *c.borrow_mut() = v,
    }
}

/// C10: what is written through a shared view is there in the next
pub fn c10(case: &Case, cx: &mut Cx) -> Verdict {
    let mut s = Src::new(&case[0]);
    let (kind, mut want) = (s.below(6), s.next());
    let c = Cells::from(match kind {
        0 => CellItem::One(Cell::new(want)),
        1 => CellItem::Two(1, Cell::new(want)),
        2 => CellItem::Named { a: 1, c: RefCell::new(want) },
        3 => CellItem::Far(Box::new(Cell::new(want))),
        4 => CellItem::FarTwo(1, Box::new(Cell::new(want))),
        _ => CellItem::FarNamed { a: 1, c: Box::new(RefCell::new(want)) },
    });
    cx.leaves(c.value.as_ptr::<u8>() as usize);
    for op in &case[1..] {
        let mut s = Src::new(op);
        let new = s.next();
        let mut seen = None;
        cx.step(|| format!("write {new} through a view of kind {kind}"));
        cx.nontrivial |= new != want;
        unsafe {
            CellItem::ref_from_tagged_box(&c.value, |e| {
                write(e, new);
                ensure_now(read(e), new, &mut seen);
            })
        };
        if let Some(m) = seen {
            return Err(m);
        }
        let mut got = None;
        unsafe { CellItem::ref_from_tagged_box(&c.value, |e| got = Some(read(e))) };
        let got = got.ok_or("no callback")?;
        if kind < 3 && got == want && new != want {
            // The view is a bitwise copy: what lies in the block itself isn't written
            cx.known("interior-mutability", || {
                "a change of a Cell or RefCell held inline, made through the shared view of a box, is lost".to_string()
            })?;
        } else {
            ensure!(got == new, "after {new} was written through a view, the next shows {got}");
            want = new;
        }
    }
    let e = c.into_inner();
    ensure!(read(&e) == want, "taken out is {}, expected {want}", read(&e));
    let b: TaggedBox<CellItem> = e.into_tagged_box();
    cx.leaves(b.as_ptr::<u8>() as usize);
    ensure!(read(&CellItem::from_tagged_box(b)) == want, "after a second round trip it isn't {want}");
    Ok(())
}

fn ensure_now(got: u64, want: u64, out: &mut Option<String>) {
    if got != want {
        *out = Some(format!("within one view {want} was written, {got} read"));
    }
}
