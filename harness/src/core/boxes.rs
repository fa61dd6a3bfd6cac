//! The suites over `TaggedBox` itself, with values of many sizes and alignments.
use tbx::{
    ptr::Never,
    types::{Field, Pay, Sig, Tracked, TrackedZst, A16, A4096, A512, A64, Z128, Z16},
};
use std::mem::{align_of, size_of};
use tbx::tagged_box::{discriminant::{MAX_DISCRIMINANT, MAX_POINTER_VALUE}, Discriminant, TaggedBox};
use tbx::tbx_engine::{
    ensure, ledger,
    place::Place,
    run::{forked, mix, quietly, Case, Cx, End, Src, Verdict},
    track,
};

fn fill(b: &mut [u8], p: &mut Pay) {
    let mut x = p.next();
    for c in b.chunks_mut(8) {
        x = mix(x);
        let n = c.len();
        c.copy_from_slice(&x.to_le_bytes()[..n]);
    }
}
fn digest(b: &[u8]) -> u64 {
    let mut h = b.len() as u64;
    for c in b.chunks(8) {
        let mut w = [0u8; 8];
        w[..c.len()].copy_from_slice(c);
        h = (h.rotate_left(5) ^ u64::from_le_bytes(w)).wrapping_mul(0x9e37_79b9_7f4a_7c15);
    }
    h
}

pub struct Bytes<const N: usize>([u8; N]);
impl<const N: usize> Field for Bytes<N> {
    fn make(p: &mut Pay) -> Self {
        let mut b = [0; N];
        fill(&mut b, p);
        Self(b)
    }
    fn sig(&self, s: &mut Sig) {
        s.words.push(digest(&self.0));
    }
}

macro_rules! al {
    ($($name:ident $a:literal)*) => {$(
        #[repr(C, align($a))]
        pub struct $name<const N: usize>([u8; N]);
        impl<const N: usize> Field for $name<N> {
            fn make(p: &mut Pay) -> Self {
                let mut b = [0; N];
                fill(&mut b, p);
                Self(b)
            }
            fn sig(&self, s: &mut Sig) {
                s.words.push((self as *const Self as usize % $a != 0) as u64);
                s.words.push(digest(&self.0));
            }
        }
    )*};
}
al!(L2 2 L4 4 L8 8 L16 16 L32 32 L64 64 L128 128 L256 256 L1024 1024 L4096 4096 L65536 65536);

/// A value with a destructor, of some size and alignment
#[repr(C)]
pub struct Own<L> {
    pad: L,
    t: Tracked,
}
impl<L: Field> Field for Own<L> {
    fn make(p: &mut Pay) -> Self {
        Self {
            pad: L::make(p),
            t: Tracked::make(p),
        }
    }
    fn sig(&self, s: &mut Sig) {
        self.pad.sig(s);
        self.t.sig(s);
    }
}

/// What can be done with a box of one type
pub struct Row {
    pub name: &'static str,
    pub size: usize,
    pub align: usize,
    make: fn(Pay, Discriminant, u64) -> (TaggedBox<Never>, Sig, ledger::Stats),
    adopt: fn(Pay, Discriminant, u64) -> (TaggedBox<Never>, Sig, usize),
    look: fn(&TaggedBox<Never>) -> (Sig, Sig, usize),
    write: fn(&mut TaggedBox<Never>, Pay, u64) -> Sig,
    take: fn(TaggedBox<Never>, &Sig) -> (Verdict, ledger::Stats),
    unbox: fn(TaggedBox<Never>, &Sig, &mut usize) -> (Verdict, ledger::Stats),
    raw: fn(TaggedBox<Never>, Discriminant) -> (TaggedBox<Never>, usize, ledger::Stats),
    rebox: fn(TaggedBox<Never>, Discriminant) -> (TaggedBox<Never>, usize, ledger::Stats),
    visit: fn(Pay, Discriminant, &Place) -> Verdict,
    starve: fn(Pay, Discriminant, u64, usize, usize) -> Result<usize, String>,
}

fn sig<U: Field>(u: &U) -> Sig {
    let mut s = Sig::default();
    u.sig(&mut s);
    s
}

fn is(what: &str, got: &Sig, want: &Sig) -> Verdict {
    ensure!(got == want, "{what}: got {got:x?}, expected {want:x?}");
    Ok(())
}

pub fn row<U: Field>(name: &'static str) -> Row {
    Row {
        name,
        size: size_of::<U>(),
        align: align_of::<U>(),
        make: |mut p, d, how| {
            let u = U::make(&mut p);
            let s = sig(&u);
            let (b, st) = ledger::measure(|| match how % 3 {
                0 | 1 => TaggedBox::new::<U>(u, d),
                _ => unsafe { TaggedBox::new_unchecked::<U>(u, d) },
            });
            (b, s, st)
        },
        // A pointer that no box made: from a Box, or for a zero-sized value any aligned address
        adopt: |mut p, d, w| {
            let u = U::make(&mut p);
            let s = sig(&u);
            let raw = if size_of::<U>() == 0 {
                std::mem::forget(u);
                let most = MAX_POINTER_VALUE.min(usize::MAX as u64) / align_of::<U>() as u64;
                let w = if w % 2 == 0 { w >> 40 } else { w >> 1 };
                ((1 + w % most) * align_of::<U>() as u64) as *mut U
            } else {
                Box::into_raw(Box::new(u))
            };
            (unsafe { TaggedBox::from_raw(raw, d) }, s, raw as usize)
        },
        look: |b| unsafe {
            let a = sig::<U>(b.as_ref::<U>());
            let p = b.as_ptr::<U>();
            (a, sig::<U>(&*p), p as usize)
        },
        write: |b, mut p, how| unsafe {
            let u = U::make(&mut p);
            let s = sig(&u);
            match how % 4 {
                0 => *b.as_mut_ref::<U>() = u,
                1 => *b.as_mut_ptr::<U>() = u,
                2 => drop(std::mem::replace(b.as_mut_ref::<U>(), u)),
                _ => drop(b.as_mut_ptr::<U>().replace(u)),
            }
            s
        },
        take: |b, want| {
            let (u, st) = ledger::measure(|| unsafe { TaggedBox::into_inner::<U>(b) });
            let got = sig(&u);
            if got != *want {
                std::mem::forget(u);
            }
            (is("into_inner", &got, want), st)
        },
        unbox: |b, want, addr| {
            let (u, st) = ledger::measure(|| unsafe { TaggedBox::into_box::<U>(b) });
            let got = sig(&*u);
            *addr = &*u as *const U as usize;
            if got != *want {
                std::mem::forget(u);
                return (is("into_box", &got, want), st);
            }
            drop(u);
            (Ok(()), st)
        },
        raw: |b, d| {
            let ((b, r), st) = ledger::measure(|| {
                let r: *mut U = TaggedBox::into_raw(b);
                (unsafe { TaggedBox::from_raw(r, d) }, r as usize)
            });
            (b, r, st)
        },
        rebox: |b, d| {
            let ((b, r), st) = ledger::measure(|| {
                let x: Box<U> = unsafe { TaggedBox::into_box(b) };
                let r = Box::into_raw(x);
                (unsafe { TaggedBox::from_raw(r, d) }, r as usize)
            });
            (b, r, st)
        },
        // A value which lies in memory of the caller's choice
        visit: |mut p, d, place| unsafe {
            let at = (place.at() + align_of::<U>() - 1) / align_of::<U>() * align_of::<U>();
            let raw = at as *mut U;
            let u = U::make(&mut p);
            let one = sig(&u);
            raw.write(u);
            let mut b = TaggedBox::<Never>::from_raw(raw, d);
            ensure!(b.discriminant() == d && b.as_ptr::<u8>() as usize == at, "from_raw({at:#x}, {d}) has the address {:?} and the tag {}", b.as_ptr::<u8>(), b.discriminant());
            is("as_ref", &sig::<U>(b.as_ref::<U>()), &one)?;
            let u = U::make(&mut p);
            let two = sig(&u);
            let was = std::mem::replace(b.as_mut_ref::<U>(), u);
            let got = sig(&was);
            if got != one {
                std::mem::forget(was);
                return is("as_mut_ref", &got, &one);
            }
            is("as_mut_ptr", &sig::<U>(&*b.as_mut_ptr::<U>()), &two)?;
            is("the value under the box", &sig::<U>(&*raw), &two)?;
            if p.next() % 2 == 0 {
                let r: *mut U = TaggedBox::into_raw(b);
                ensure!(r == raw, "into_raw gave {r:?} for {raw:?}");
                let u = r.read();
                return is("what into_raw points to", &sig(&u), &two);
            }
            let u = TaggedBox::into_inner::<U>(b);
            let got = sig(&u);
            if got != two {
                std::mem::forget(u);
            }
            is("into_inner", &got, &two)
        },
        starve: |mut p, d, how, size, align| {
            let u = U::make(&mut p);
            ledger::arm_failure(size, align);
            let r = quietly(|| match how % 2 {
                0 => TaggedBox::<Never>::new::<U>(u, d).as_ptr::<u8>() as usize,
                _ => unsafe { TaggedBox::<Never>::new_unchecked::<U>(u, d).as_ptr::<u8>() as usize },
            });
            match (r, ledger::disarm()) {
                (Ok(a), 1..) => Err(format!("a box was made without memory, at {a:#x}")),
                (Ok(_), 0) => Ok(0),
                (Err(_), n) => Ok(n),
            }
        },
    }
}

macro_rules! dense {
    ($v:ident; $($n:literal)*) => { $( $v.push(row::<Bytes<$n>>(concat!("[u8; ", $n, "]"))); )* };
}
macro_rules! grid {
    ($v:ident; $($l:ident)*; $ns:tt) => { $( grid!(@ $v; $l; $ns); )* };
    (@ $v:ident; $l:ident; [$($n:literal)*]) => { $( $v.push(row::<$l<$n>>(concat!(stringify!($l), "<", $n, ">"))); )* };
}
macro_rules! named {
    ($v:ident; $($t:ty),* $(,)?) => { $( $v.push(row::<$t>(stringify!($t))); )* };
}

/// Values without destructors
pub fn plain() -> Vec<Row> {
    let mut v = Vec::new();
    dense!(v; 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39
        40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63 64 65 66 67 68 69 70 71 72 73 74 75 76 77 78 79
        80 81 82 83 84 85 86 87 88 89 90 91 92 93 94 95 96 97 98 99 100 101 102 103 104 105 106 107 108 109 110 111 112 113 114
        115 116 117 118 119 120 121 122 123 124 125 126 127 128 129 130 255 256 257 511 512 513 1023 1024 1025 4095 4096 4097 65535 65536);
    grid!(v; L2 L4 L8 L16 L32 L64 L128; [0 1 7 8 33 96 200]);
    grid!(v; L256 L1024 L4096 L65536; [0 1 300]);
    grid!(v; Bytes; [1048576]);
    named!(v; u8, i16, u32, i64, u128, usize, f32, f64, bool, char, (), &'static str, [u16; 3], (u8, u64), (u64, (u8, u16), bool),
        Option<u32>, Option<std::num::NonZeroU64>, Option<bool>, [Option<u8>; 5], *const u8, fn(u32) -> u32,
        std::marker::PhantomData<u64>, A16, A64, A512, A4096, Z16, Z128);
    v
}

/// Values which own something
pub fn owning() -> Vec<Row> {
    let mut v = Vec::new();
    named!(v; Tracked, TrackedZst, Own<()>, Own<Bytes<1>>, Own<Bytes<13>>, Own<Bytes<40>>, Own<Bytes<300>>, Own<Bytes<5000>>, Own<L16<1>>, Own<L64<8>>,
        Own<L1024<1>>, Own<L4096<9>>, [Tracked; 3], (u8, Tracked), Vec<Tracked>, Box<Tracked>, Option<Tracked>, Option<Box<Tracked>>,
        Result<Tracked, u8>, [TrackedZst; 4], (TrackedZst, Z128), (TrackedZst, Tracked), Vec<TrackedZst>, std::rc::Rc<Tracked>,
        String, Vec<u64>, Box<u64>, std::sync::Arc<u32>, Box<[Tracked; 2]>, Vec<Vec<Tracked>>);
    v
}

fn all() -> &'static [Row] {
    static ROWS: std::sync::OnceLock<Vec<Row>> = std::sync::OnceLock::new();
    ROWS.get_or_init(|| {
        let mut v = plain();
        v.extend(owning());
        v
    })
}
/// Where the owning rows begin
fn own_at() -> usize {
    all().len() - owning_len()
}
fn owning_len() -> usize {
    static N: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
    *N.get_or_init(|| owning().len())
}

struct Slot {
    b: TaggedBox<Never>,
    row: &'static Row,
    sig: Sig,
    d: Discriminant,
}

fn tag(s: &mut Src) -> Discriminant {
    let m = MAX_DISCRIMINANT as u64 + 1;
    let w = s.next();
    (if w % 2 == 0 { m - 1 - (w >> 1) % m } else { (w >> 1) % m }) as Discriminant
}

fn size_label(r: &Row) -> &'static str {
    match (r.size, r.align) {
        (0, 0..=16) => "size:0",
        (0, _) => "size:0 over-aligned",
        (_, 17..) => "align:>16",
        (1..=8, _) => "size:1..8",
        (9..=130, _) => "size:9..130",
        (131..=65536, _) => "size:131..65536",
        _ => "size:1MB",
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Focus {
    Values,
    Owners,
    Heap,
    Hand,
}

fn describe(slot: &Slot) -> String {
    format!("{} with tag {}", slot.row.name, slot.d)
}

fn machine(case: &Case, cx: &mut Cx, focus: Focus) -> Verdict {
    let mut slots: Vec<Slot> = Vec::new();
    let mut gone = (0usize, 0i64);
    let r = run(case, cx, focus, &mut slots, &mut gone);
    if r.is_err() {
        std::mem::forget(slots);
    }
    r
}

fn check(slot: &Slot, when: &str) -> Verdict {
    let (a, b, p) = (slot.row.look)(&slot.b);
    is(&format!("as_ref of {} {when}", describe(slot)), &a, &slot.sig)?;
    is(&format!("as_ptr of {} {when}", describe(slot)), &b, &slot.sig)?;
    ensure!(p % slot.row.align == 0 && p != 0, "{} lies at {p:#x} {when}", describe(slot));
    ensure!(slot.b.discriminant() == slot.d, "{} has the tag {} {when}", describe(slot), slot.b.discriminant());
    Ok(())
}

fn audit(slots: &[Slot], gone: (usize, i64), when: &str) -> Verdict {
    let mut ids: Vec<u64> = slots.iter().flat_map(|s| s.sig.ids.iter().copied()).collect();
    ids.sort();
    let have = track::alive();
    for id in &ids {
        ensure!(have.binary_search(id).is_ok(), "{when}: a value still in its box was dropped");
    }
    ensure!(
        have.len() <= ids.len() + gone.0,
        "{when}: {} values are alive, {} are in boxes: some was duplicated or not dropped",
        have.len(),
        ids.len()
    );
    let z: i64 = slots.iter().map(|s| s.sig.zsts).sum();
    let n = track::zst_live();
    ensure!(n >= z && n <= z + gone.1, "{when}: {n} zero-sized values are alive, {z} are in boxes");
    Ok(())
}

fn run(case: &Case, cx: &mut Cx, focus: Focus, slots: &mut Vec<Slot>, gone: &mut (usize, i64)) -> Verdict {
    let heap = focus == Focus::Heap;
    let quiet = |what: &str, st: ledger::Stats| -> Verdict {
        ensure!(!heap || st.allocs == 0 && st.frees == 0, "{what} requested {} and released {} heap blocks", st.allocs, st.frees);
        Ok(())
    };
    let (mut n, mut crowds) = (0, 0);
    // In the end everything is taken out, by one way or the other
    while n < case.len() || !slots.is_empty() {
        let ending = n >= case.len();
        let last = vec![if n % 2 == 0 { 4 } else { 6 }, n as u64 / 3];
        let op = if ending { &last } else { &case[n] };
        n += 1;
        let mut s = Src::new(op);
        let mut what = s.below(10);
        if !ending && (slots.is_empty() || what < 3) {
            what = 0;
        }
        if what == 0 {
            let rows = all();
            let i = match focus {
                Focus::Values => s.below(own_at()),
                Focus::Owners => own_at() + s.below(owning_len()),
                _ => s.below(rows.len()),
            };
            // Miri takes minutes for the large ones
            let i = if cfg!(miri) && rows[i].size > 1100 { if i >= own_at() { own_at() } else { i % 64 } } else { i };
            let row = &rows[i];
            let (p, d, how) = (s.pay(), tag(&mut s), s.next());
            if focus == Focus::Hand && how % 4 == 3 && row.size <= 65536 {
                cx.label("from a foreign pointer");
                cx.step(|| format!("from_raw a pointer to {} with tag {d}", row.name));
                let (b, sig, raw) = (row.adopt)(p, d, s.next());
                ensure!(b.as_ptr::<u8>() as usize == raw, "from_raw({raw:#x}) of {} gave a box at {:#x}", row.name, b.as_ptr::<u8>() as usize);
                let slot = Slot { b, row, sig, d };
                check(&slot, "after from_raw")?;
                cx.nontrivial |= row.size > 0 || slot.sig.zsts > 0;
                slots.push(slot);
                continue;
            }
            if matches!(focus, Focus::Hand | Focus::Values) && how % 8 == 6 && row.size <= 65536 && row.size > 0 {
                let w = s.next();
                let place = Place::new(if w % 2 == 0 { 1u64 << (16 + w / 2 % 31) } else { mix(w) >> 17 }, row.size + row.align);
                cx.label(if place.mapped() { "in memory at a chosen address" } else { "in memory of the caller" });
                cx.step(|| format!("{} in place at {:#x} with tag {d}", row.name, place.at()));
                (row.visit)(p, d, &place).map_err(|m| format!("{} in place at {:#x} with tag {d}: {m}", row.name, place.at()))?;
                cx.nontrivial = true;
                continue;
            }
            cx.label(size_label(row));
            cx.step(|| format!("new {} with tag {d}{}", row.name, if how % 3 == 2 { " (unchecked)" } else { "" }));
            let (b, sig, st) = (row.make)(p, d, how);
            let slot = Slot { b, row, sig, d };
            if heap {
                if row.size == 0 {
                    ensure!(st.allocs == 0, "boxing {} requested {} heap blocks", row.name, st.allocs);
                } else {
                    ensure!(
                        st.allocs == 1 && st.last_size == row.size && st.last_align == row.align,
                        "boxing {} ({} bytes aligned to {}) requested {} blocks, the last of {} bytes aligned to {}",
                        row.name, row.size, row.align, st.allocs, st.last_size, st.last_align
                    );
                    ensure!(st.last_ptr == slot.b.as_ptr::<u8>() as usize, "the box of {} isn't at its block", row.name);
                }
                ensure!(st.frees == 0, "boxing {} released {} blocks", row.name, st.frees);
            }
            cx.nontrivial |= row.size > 0 || slot.sig.zsts > 0;
            slots.push(slot);
            if s.below(16) == 15 && crowds < 2 && row.size <= 4096 && row.align <= 4096 {
                // Many at once, of this type or of any small one
                crowds += 1;
                let (n, one) = (tbx::enums::crowd(&mut s), s.flag());
                cx.label(if n > 30 { "many boxes at once" } else { "some boxes at once" });
                cx.step(|| format!("{n} more of {}", if one { row.name } else { "any type" }));
                for k in 0..n {
                    let near = &rows[(i + k) % rows.len()];
                    let fits = match focus {
                        Focus::Values => (i + k) % rows.len() < own_at(),
                        Focus::Owners => (i + k) % rows.len() >= own_at(),
                        _ => true,
                    };
                    let row = if one || !fits || near.size > if cfg!(miri) { 1100 } else { 4096 } || near.align > 4096 { row } else { near };
                    let d = ((d as u64 + k as u64) % (MAX_DISCRIMINANT as u64 + 1)) as Discriminant;
                    let (b, sig, _) = (row.make)(Pay::new(s.next().wrapping_add((k as u64) << 8)), d, k as u64);
                    slots.push(Slot { b, row, sig, d });
                }
            }
        } else if !slots.is_empty() {
            let i = s.below(slots.len());
            match what {
                1 | 2 | 3 if !ending => {
                    let (p, how) = (s.pay(), s.next());
                    let slot = &mut slots[i];
                    cx.label("written through");
                    cx.step(|| format!("write {} way {}", describe(slot), how % 4));
                    slot.sig = (slot.row.write)(&mut slot.b, p, how);
                }
                4 | 5 => {
                    let slot = slots.swap_remove(i);
                    cx.label("into_inner");
                    cx.step(|| format!("into_inner {}", describe(&slot)));
                    let at = slot.b.as_ptr::<u8>() as usize;
                    if slot.row.size > 0 {
                        cx.leaves(at);
                    }
                    let (v, st) = (slot.row.take)(slot.b, &slot.sig);
                    v?;
                    if heap {
                        ensure!(st.allocs == 0, "into_inner requested {} heap blocks", st.allocs);
                        if slot.row.size > 0 && st.frees == 0 {
                            cx.known("into_inner-leak", || "into_inner hands out the value but never releases its heap block".into())?;
                        } else {
                            ensure!(
                                st.frees == (slot.row.size > 0) as u64 && (st.frees == 0 || st.freed_ptr == at),
                                "into_inner of {} released {} blocks",
                                slot.row.name, st.frees
                            );
                        }
                    }
                }
                6 => {
                    let slot = slots.swap_remove(i);
                    cx.label("into_box");
                    cx.step(|| format!("into_box {}", describe(&slot)));
                    let at = slot.b.as_ptr::<u8>() as usize;
                    let mut addr = 0;
                    let (v, st) = (slot.row.unbox)(slot.b, &slot.sig, &mut addr);
                    v?;
                    ensure!(addr == at, "into_box moved {} from {at:#x} to {addr:#x}", slot.row.name);
                    quiet("into_box", st)?;
                    if slot.row.size > 0 && !cfg!(miri) {
                        ensure!(ledger::serial(at).is_none(), "dropping the Box of {} didn't release its block", slot.row.name);
                    }
                }
                7 | 8 => {
                    let slot = slots.swap_remove(i);
                    let d = if s.flag() { slot.d } else { tag(&mut s) };
                    let at = slot.b.as_ptr::<u8>() as usize;
                    cx.label(if what == 7 { "into_raw, from_raw" } else { "into_box, from_raw" });
                    cx.step(|| format!("{} to tag {d} by {}", describe(&slot), if what == 7 { "raw" } else { "Box" }));
                    let (b, r, st) = if what == 7 { (slot.row.raw)(slot.b, d) } else { (slot.row.rebox)(slot.b, d) };
                    slots.push(Slot { b, row: slot.row, sig: slot.sig, d });
                    ensure!(r == at, "handing over {} gave the address {r:#x} for {at:#x}", slot.row.name);
                    quiet("handing a block over", st)?;
                }
                _ if (heap || focus == Focus::Owners) && s.next() % 3 == 0 => {
                    let slot = slots.swap_remove(i);
                    cx.label("discarded");
                    cx.step(|| format!("discard {}", describe(&slot)));
                    let at = slot.b.as_ptr::<u8>() as usize;
                    if slot.row.size > 0 {
                        cx.leaves(at);
                    }
                    let then = if slot.row.size > 0 { ledger::serial(at) } else { None };
                    let (ids, z) = (slot.sig.ids.clone(), slot.sig.zsts);
                    gone.0 += ids.len();
                    gone.1 += z;
                    drop(slot.b);
                    if heap && ids.iter().any(|i| !track::is_alive(*i)) {
                        ensure!(ids.iter().all(|i| !track::is_alive(*i)), "discarding a box dropped part of its value");
                    } else if heap && slot.row.size > 0 && ledger::serial(at) == then {
                        cx.known("drop-leak", || "discarding a box neither drops the value nor releases its heap block".into())?;
                    }
                }
                _ => {
                    cx.label("looked at");
                    cx.step(|| format!("look at {}", describe(&slots[i])));
                    check(&slots[i], "when looked at")?;
                }
            }
        }
        if !ending && n % 4 == 0 || slots.len() < 40 || n % 64 == 0 || n == case.len() {
            for slot in slots.iter() {
                check(slot, "after the step")?;
            }
        }
        if focus != Focus::Values && (slots.len() < 40 || n % 16 == 0) {
            audit(slots, *gone, "after the step")?;
        }
    }
    audit(slots, *gone, "at the end")
}

/// C04: values of any type come back as they went in
pub fn c04(case: &Case, cx: &mut Cx) -> Verdict {
    machine(case, cx, Focus::Values)
}
/// C05: owners are dropped once
pub fn c05(case: &Case, cx: &mut Cx) -> Verdict {
    machine(case, cx, Focus::Owners)
}
/// C06: heap blocks
pub fn c06(case: &Case, cx: &mut Cx) -> Verdict {
    machine(case, cx, Focus::Heap)
}
/// C24: hand-over
pub fn c24(case: &Case, cx: &mut Cx) -> Verdict {
    machine(case, cx, Focus::Hand)
}

/// Every type once, through every way: nothing is left to chance
pub fn every_row(cx: &mut Cx, focus_heap: bool) -> Result<u64, String> {
    let mut n = 0;
    for i in 0..all().len() {
        for way in [4u64, 6] {
            for how in [0u64, 2, 6] {
                let k = i as u64;
                let case: Case = vec![vec![0, k, 9 + k, how, how, 2 * k], vec![0, k, 77, 1, 2], vec![1, 0, 5 + k, k], vec![7, 0, 1], vec![8, 0, 0, 3], vec![way, 1], vec![10 - way, 0]];
                tbx::tbx_engine::run::run_one(
                    &mut |c, cx| machine(c, cx, if focus_heap { Focus::Heap } else { Focus::Hand }),
                    &case,
                    cx,
                )
                .map_err(|m| format!("{}: {m}", all()[i].name))?;
                n += 1;
            }
        }
    }
    Ok(n)
}

/// C19: threads with boxes of their own
pub fn c19(case: &Case, cx: &mut Cx) -> Verdict {
    let rows = all();
    let threads = 2 + (case[0].first().copied().unwrap_or(0) % 3) as usize;
    cx.nontrivial = true;
    cx.step(|| format!("{threads} threads box values of {} types", case.len()));
    let gate = std::sync::Barrier::new(threads);
    let done = tbx::enums::together(threads, &|t| -> Verdict {
            gate.wait();
            for round in 0..if cfg!(miri) { 2 } else { 16 } {
                let mut slots: Vec<Slot> = Vec::new();
                for op in case {
                    let mut s = Src::new(op);
                    let row = &rows[s.below(rows.len())];
                    let row = if row.size > 70_000 || cfg!(miri) && row.size > 600 { &rows[9] } else { row };
                    let (p, d, how) = (Pay::new(s.next().wrapping_add(t << 20).wrapping_add(round << 10)), tag(&mut s), s.next());
                    let (b, sig, _) = (row.make)(p, d, how);
                    slots.push(Slot { b, row, sig, d });
                    for slot in &slots {
                        check(slot, "while other threads work")?;
                    }
                    let slot = slots.last_mut().unwrap();
                    slot.sig = (slot.row.write)(&mut slot.b, Pay::new(round ^ t << 7), how);
                }
                while let Some(slot) = slots.pop() {
                    check(&slot, "while other threads work")?;
                    if slots.len() % 2 == 0 {
                        let at = slot.b.as_ptr::<u8>() as usize;
                        let then = if slot.row.size > 0 { ledger::serial(at) } else { None };
                        (slot.row.take)(slot.b, &slot.sig).0?;
                        // What into_inner leaves behind
                        then.into_iter().for_each(|n| ledger::reclaim(at, n));
                    } else {
                        (slot.row.unbox)(slot.b, &slot.sig, &mut 0).0?;
                    }
                }
            }
            Ok(())
    });
    for r in done {
        r??;
    }
    ensure!(track::alive().is_empty() && track::zst_live() == 0, "a value was duplicated or lost while threads worked");
    Ok(())
}

/// C21: the allocator has no memory
pub fn c21(case: &Case, cx: &mut Cx) -> Verdict {
    let mut s = Src::new(&case[0]);
    let rows = all();
    let row = &rows[s.below(rows.len())];
    let (p, d, how) = (s.pay(), tag(&mut s), s.next());
    if row.size == 0 {
        return Ok(());
    }
    cx.nontrivial = true;
    cx.label(size_label(row));
    cx.step(|| format!("no memory for {} ({} bytes)", row.name, row.size));
    let end = forked(|| {
        let r = (row.starve)(p.clone(), d, how, row.size, row.align);
        if let Err(m) = r {
            return (1, m);
        }
        if let Some(m) = track::take_fault() {
            return (1, m);
        }
        (if r == Ok(0) { 2 } else { 0 }, String::new())
    });
    match end {
        End::Exit(0, _) => cx.label("reported by a panic"),
        End::Exit(2, _) => cx.label("the failing request wasn't made"),
        End::Exit(_, m) => return Err(m),
        End::Signal(6, _) => cx.label("reported by an abort"),
        End::Signal(14 | 9, _) => {}
        End::Signal(n, _) => {
            return Err(format!(
                "boxing {} without memory ended the process by signal {n} ({})",
                row.name,
                tbx::tbx_engine::run::signal(n)
            ))
        }
    }
    Ok(())
}
