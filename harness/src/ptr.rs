//! The suites over `TaggedPointer` and the width constants.
use tagged_box::{
    discriminant::{self, MAX_DISCRIMINANT, MAX_POINTER_VALUE, POINTER_WIDTH},
    Discriminant, TaggedBox, TaggedPointer,
};
use std::mem::align_of;
use tbx_engine::{
    ensure,
    place::Place,
    run::{mix, quietly, Case, Cx, Src, Verdict},
    track::{self, Tracked, TrackedZst},
};

pub enum Never {}

/// The layout by the documentation, from the reserved width alone
pub fn width() -> u32 {
    POINTER_WIDTH as u32
}

fn max_addr() -> u64 {
    u64::MAX >> (64 - width())
}
fn max_tag() -> u64 {
    u64::MAX >> width()
}

/// Any address which fits: small, large, single bits, and real ones
fn address(s: &mut Src) -> u64 {
    let w = s.next();
    match w % 4 {
        0 => s.next() & max_addr(),
        1 => 1u64 << (s.next() % width() as u64),
        2 => max_addr() - (s.next() & 0xff & max_addr()),
        _ => s.next() & 0xffff,
    }
}
fn tag(s: &mut Src) -> u64 {
    let w = s.next();
    match w % 3 {
        0 => s.next() & max_tag(),
        1 => max_tag() - (s.next() & 3 & max_tag()),
        _ => s.next() & 0xf & max_tag(),
    }
}

fn packed(a: u64, d: u64) -> Verdict {
    let t = d as Discriminant;
    let p = TaggedPointer::new(a, t);
    ensure!(p.discriminant() as u64 == d, "new({a:#x}, {d}) has the tag {}", p.discriminant());
    ensure!(p.as_u64() == a, "new({a:#x}, {d}) has the address {:#x}", p.as_u64());
    let raw = a | (d << width());
    ensure!(p.as_raw_u64() == raw, "new({a:#x}, {d}) is the word {:#x}, not {raw:#x}", p.as_raw_u64());
    ensure!(p.as_ptr::<u8>() as usize == a as usize, "new({a:#x}, {d}).as_ptr() is {:?}", p.as_ptr::<u8>());
    ensure!(p.as_ptr::<[u64; 5]>() as usize == a as usize, "new({a:#x}, {d}).as_ptr() is {:?}", p.as_ptr::<[u64; 5]>());
    ensure!(p.as_mut_ptr::<u32>() as usize == a as usize, "new({a:#x}, {d}).as_mut_ptr() is {:?}", p.as_mut_ptr::<u32>());
    let q = p;
    ensure!(q == p && q.as_raw_u64() == raw, "a copy of new({a:#x}, {d}) differs");
    let s = TaggedPointer::store_discriminant(a, t);
    ensure!(s == raw, "store_discriminant({a:#x}, {d}) is {s:#x}");
    ensure!(TaggedPointer::strip_discriminant(raw) == a, "strip_discriminant({raw:#x}) is {:#x}", TaggedPointer::strip_discriminant(raw));
    ensure!(
        TaggedPointer::fetch_discriminant(raw) as u64 == d,
        "fetch_discriminant({raw:#x}) is {}",
        TaggedPointer::fetch_discriminant(raw)
    );
    Ok(())
}

#[repr(align(64))]
struct Wide64;
#[repr(align(4096))]
struct Page;
#[repr(align(65536))]
struct Wide64K;
#[repr(align(131072))]
struct Wide128K([u8; 3]);
#[repr(align(536870912))]
struct Widest;

macro_rules! dangle {
    ($d:ident; $($t:ty),*) => {$(
        let p = TaggedPointer::dangling::<$t>($d as Discriminant);
        ensure!(p.discriminant() as u64 == $d, "dangling with tag {} has the tag {}", $d, p.discriminant());
        let a = p.as_u64();
        ensure!(
            a != 0 && a % std::mem::align_of::<$t>() as u64 == 0 && a <= max_addr(),
            "dangling::<{}>({}) has the address {a:#x}", stringify!($t), $d
        );
        let b = TaggedBox::<Never>::dangling::<$t>($d as Discriminant);
        ensure!(b.discriminant() as u64 == $d, "a dangling box with tag {} has the tag {}", $d, b.discriminant());
        let a = b.as_ptr::<$t>() as u64;
        ensure!(a != 0 && a % std::mem::align_of::<$t>() as u64 == 0, "a dangling box of {} with tag {} has the address {a:#x}", stringify!($t), $d);
    )*};
}

/// Reads and writes through a pointer to one of three neighbours
fn reach<T: Copy + PartialEq + std::fmt::Debug>(place: &Place, near: usize, v: T, w: T, d: u64) -> Verdict {
    let at = place.at() + near / align_of::<T>() * align_of::<T>();
    let cells = at as *mut [T; 3];
    unsafe {
        cells.write([w, v, w]);
        let mid = (cells as *mut T).add(1);
        let mut p = TaggedPointer::new(mid as usize as u64, d as Discriminant);
        ensure!(*p.as_ref::<T>() == v, "as_ref shows {:?}, stored at {mid:?} was {v:?}", *p.as_ref::<T>());
        ensure!(p.as_ref::<T>() as *const T == mid as *const T, "as_ref of {mid:?} leads to {:?}", p.as_ref::<T>() as *const T);
        *p.as_mut_ref::<T>() = w;
        ensure!(p.as_ptr::<T>().read() == w && mid.read() == w, "as_mut_ref of {mid:?} wrote elsewhere");
        p.as_mut_ptr::<T>().write(v);
        ensure!(*p.as_ref::<T>() == v && mid.read() == v, "as_mut_ptr of {mid:?} wrote elsewhere");
        ensure!(p.discriminant() as u64 == d && p.as_u64() == mid as usize as u64, "a write through the pointer to {mid:?} changed it to {p:?}");
        ensure!(cells.read() == [w, v, w], "a write through the pointer to {mid:?} hit its neighbours");
        // The tag is the pointer's alone: the same memory under another one
        let q = TaggedPointer::new(mid as usize as u64, (max_tag() - d) as Discriminant);
        ensure!(*q.as_ref::<T>() == v, "the memory at {mid:?} shows {:?} under another tag, stored was {v:?}", *q.as_ref::<T>());
    }
    Ok(())
}

/// C01: packing loses nothing
pub fn c01(case: &Case, cx: &mut Cx) -> Verdict {
    for op in case {
        let mut s = Src::new(op);
        match s.below(5) {
            0 | 1 => {
                let (a, d) = (address(&mut s), tag(&mut s));
                cx.label("pack");
                cx.step(|| format!("pack {a:#x} with {d}"));
                cx.nontrivial |= a != 0 && d != 0;
                packed(a, d)?;
            }
            2 => {
                // Any word at all comes apart into a tag and an address, and together again
                let w = s.next();
                cx.label("unpack");
                cx.step(|| format!("unpack {w:#x}"));
                let (d, a) = (TaggedPointer::fetch_discriminant(w), TaggedPointer::strip_discriminant(w));
                ensure!(d as u64 == w >> width() && a == w & max_addr(), "{w:#x} comes apart into {d} and {a:#x}");
                ensure!(TaggedPointer::store_discriminant(a, d) == w, "{w:#x} isn't put together again");
                packed(a, d as u64)?;
                cx.nontrivial |= a != 0 && d != 0;
            }
            3 => {
                // Real memory, at whatever addresses can be had
                let d = tag(&mut s);
                let (v, how, want) = (s.next(), s.below(8), s.next());
                cx.nontrivial |= d != 0;
                if how == 7 {
                    // No memory is needed for nothing: any address will do
                    let a = (address(&mut s) & usize::MAX as u64).max(1);
                    cx.label("reference to nothing");
                    cx.step(|| format!("refer to a zero-sized value at {a:#x} through a pointer with tag {d}"));
                    let mut p = TaggedPointer::new(a, d as Discriminant);
                    let (x, y) = unsafe { (p.as_ref::<()>() as *const () as u64, p.as_mut_ref::<[u8; 0]>() as *mut _ as *mut u8 as u64) };
                    ensure!(x == a && y == a, "as_ref and as_mut_ref of the pointer to {a:#x} with tag {d} refer to {x:#x} and {y:#x}");
                    continue;
                }
                let place = Place::new(if want % 2 == 0 { 1u64 << (16 + want / 2 % 31) } else { mix(want) >> 17 }, 4096);
                cx.label(if place.mapped() { "real memory, chosen" } else { "real memory, given" });
                cx.step(|| format!("reach {v:#x} at {:#x} through a pointer with tag {d}", place.at()));
                let near = s.below(4096 - 64);
                match how {
                    0 => reach::<u8>(&place, near, v as u8, !v as u8, d)?,
                    1 => reach::<u16>(&place, near, v as u16, !v as u16, d)?,
                    2 => reach::<u32>(&place, near, v as u32, !v as u32, d)?,
                    3 | 4 => reach::<u64>(&place, near, v, v.rotate_left(7) ^ 1, d)?,
                    5 => reach::<u128>(&place, near, (v as u128) << 64 | v as u128, v as u128, d)?,
                    _ => reach::<[u8; 13]>(&place, near, [v as u8; 13], [!v as u8; 13], d)?,
                }
            }
            _ => {
                let d = tag(&mut s);
                cx.label("dangling");
                cx.step(|| format!("dangling with tag {d}"));
                dangle!(d; u8, u16, u64, u128, (), [u32; 3], Wide64, Page, Wide64K, Wide128K, Widest, [Widest; 0], String, Never);
            }
        }
    }
    Ok(())
}

/// Every tag, with the addresses most likely to go wrong
pub fn c01_exhaustive() -> Result<u64, String> {
    let mut n = 0;
    let mut addrs = vec![0, 1, max_addr(), max_addr() >> 1, max_addr() - 1, 0x7fff_ffff_ffff & max_addr(), 0x5555_5555_5555_5555 & max_addr()];
    addrs.extend((0..width()).map(|k| 1u64 << k));
    let step = if max_tag() > 4095 { 7 } else { 1 };
    for d in (0..=max_tag()).step_by(step).chain(max_tag().saturating_sub(3)..=max_tag()) {
        for a in &addrs {
            packed(*a, d)?;
            n += 1;
        }
    }
    Ok(n)
}

fn refused(what: &str, r: Result<u64, String>) -> Verdict {
    match r {
        Ok(w) => Err(format!("{what} was accepted (as {w:#x})")),
        Err(_) => Ok(()),
    }
}

/// C02: what doesn't fit is refused, what fits is not
pub fn c02(case: &Case, cx: &mut Cx) -> Verdict {
    let dmax = Discriminant::MAX as u64;
    for op in case {
        let mut s = Src::new(op);
        let how = s.below(10);
        let (bad_addr, bad_tag) = match s.below(4) {
            0 => (true, false),
            1 => (false, true),
            2 => (true, true),
            _ => (false, false),
        };
        let bad_tag = bad_tag && dmax > max_tag();
        let d = if bad_tag {
            let room = dmax - max_tag();
            let x = s.next();
            max_tag() + 1 + if x % 4 == 0 { 0 } else { s.next() % room }
        } else {
            tag(&mut s)
        };
        let t = d as Discriminant;
        let ordinary = s.next();
        match how {
            0..=2 => {
                let a = if bad_addr {
                    match s.below(4) {
                        0 => max_addr() + 1,
                        1 => 1 << (width() as u64 + s.next() % (64 - width() as u64)),
                        2 => u64::MAX - (s.next() & 0xff),
                        _ => s.next() | (max_addr() + 1),
                    }
                } else {
                    address(&mut s)
                };
                cx.step(|| format!("TaggedPointer::new({a:#x}, {d})"));
                let r = quietly(|| TaggedPointer::new(a, t).as_raw_u64());
                if bad_addr || bad_tag {
                    cx.label("pointer:refused");
                    cx.nontrivial = true;
                    refused(&format!("TaggedPointer::new({a:#x}, {d})"), r)?;
                } else {
                    cx.label("pointer:accepted");
                    ensure!(r.is_ok(), "TaggedPointer::new({a:#x}, {d}) was refused: {r:?}");
                }
            }
            3 => {
                cx.step(|| format!("TaggedPointer::dangling({d})"));
                let r = quietly(|| TaggedPointer::dangling::<u32>(t).as_raw_u64());
                if bad_tag {
                    cx.label("dangling:refused");
                    cx.nontrivial = true;
                    refused(&format!("TaggedPointer::dangling({d})"), r)?;
                } else {
                    ensure!(r.is_ok(), "TaggedPointer::dangling({d}) was refused");
                }
            }
            4 => {
                cx.step(|| format!("TaggedBox::dangling({d})"));
                let r = quietly(|| TaggedBox::<Never>::dangling::<u64>(t).as_ptr::<u8>() as u64);
                if bad_tag {
                    cx.label("dangling box:refused");
                    cx.nontrivial = true;
                    refused(&format!("TaggedBox::dangling({d})"), r)?;
                } else {
                    ensure!(r.is_ok(), "TaggedBox::dangling({d}) was refused");
                }
            }
            5 | 6 => {
                cx.step(|| format!("TaggedBox::new(value, {d})"));
                let x = Tracked::new(ordinary);
                let r = quietly(|| TaggedBox::<Never>::new(x, t));
                if bad_tag {
                    cx.label("box:refused");
                    cx.nontrivial = true;
                    if let Ok(b) = &r {
                        cx.leaves(b.as_ptr::<u8>() as usize);
                    }
                    refused(&format!("TaggedBox::new(value, {d})"), r.map(|b| b.as_ptr::<u8>() as u64))?;
                } else {
                    let b = r.map_err(|m| format!("TaggedBox::new(value, {d}) was refused: {m}"))?;
                    let x: Box<Tracked> = unsafe { TaggedBox::into_box(b) };
                    ensure!(x.val() == ordinary, "TaggedBox::new changed the value");
                }
            }
            7 => {
                cx.step(|| format!("TaggedBox::new(zero-sized value, {d})"));
                // Refused values may have been leaked
                let before = track::zst_live();
                let x = TrackedZst::new();
                let r = quietly(|| TaggedBox::<Never>::new(x, t));
                if bad_tag {
                    cx.label("zero-sized box:refused");
                    cx.nontrivial = true;
                    refused(&format!("TaggedBox::new(zero-sized value, {d})"), r.map(|b| b.as_ptr::<u8>() as u64))?;
                    ensure!((before..=before + 1).contains(&track::zst_live()), "a refused zero-sized value was dropped twice");
                } else {
                    let b = r.map_err(|m| format!("TaggedBox::new(zero-sized value, {d}) was refused: {m}"))?;
                    let _: Box<TrackedZst> = unsafe { TaggedBox::into_box(b) };
                    ensure!(track::zst_live() == before, "a zero-sized value wasn't given back");
                }
            }
            _ => {
                // Where pointers are short every one fits
                let bad_addr = bad_addr && usize::BITS == 64;
                let a = if bad_addr { max_addr() + 1 + (s.next() & 0xffff) * 8 } else { address(&mut s) & usize::MAX as u64 };
                cx.step(|| format!("TaggedBox::from_raw({a:#x}, {d})"));
                let r = quietly(|| {
                    let b = unsafe { TaggedBox::<Never>::from_raw(a as *mut u8, t) };
                    TaggedBox::into_raw::<u8>(b) as u64
                });
                if bad_addr || bad_tag {
                    cx.label("from_raw:refused");
                    cx.nontrivial = true;
                    refused(&format!("TaggedBox::from_raw({a:#x}, {d})"), r)?;
                } else {
                    ensure!(r == Ok(a), "TaggedBox::from_raw({a:#x}, {d}) gave {r:?}");
                }
            }
        }
    }
    Ok(())
}

const NUMBER_SPECS: [&str; 19] = ["{:x}", "{:X}", "{:b}", "{:o}", "{:#x}", "{:#X}", "{:#b}", "{:#o}", "{:0w$x}", "{:0w$X}", "{:0w$b}", "{:0w$o}", "{:#0w$x}", "{:<w$X}", "{:*^w$b}", "{:>+#w$o}", "{:+x}", "{:016x}", "{:#018X}"];
fn number_text<T>(n: usize, w: usize, x: &T) -> String
where
    T: std::fmt::LowerHex + std::fmt::UpperHex + std::fmt::Binary + std::fmt::Octal,
{
    match n {
        0 => format!("{x:x}"),
        1 => format!("{x:X}"),
        2 => format!("{x:b}"),
        3 => format!("{x:o}"),
        4 => format!("{x:#x}"),
        5 => format!("{x:#X}"),
        6 => format!("{x:#b}"),
        7 => format!("{x:#o}"),
        8 => format!("{x:0w$x}"),
        9 => format!("{x:0w$X}"),
        10 => format!("{x:0w$b}"),
        11 => format!("{x:0w$o}"),
        12 => format!("{x:#0w$x}"),
        13 => format!("{x:<w$X}"),
        14 => format!("{x:*^w$b}"),
        15 => format!("{x:>+#w$o}"),
        16 => format!("{x:+x}"),
        17 => format!("{x:016x}"),
        _ => format!("{x:#018X}"),
    }
}

/// The number formats of `x` are those of its address
pub fn numbers<T>(what: &str, a: u64, x: &T, s: &mut Src, cx: &mut Cx) -> Verdict
where
    T: std::fmt::LowerHex + std::fmt::UpperHex + std::fmt::Binary + std::fmt::Octal,
{
    let (n, w) = (s.below(NUMBER_SPECS.len()), s.below(80));
    let (want, got) = (number_text(n, w, &a), number_text(n, w, x));
    cx.label("number formatted");
    cx.step(|| format!("{what} as {} -> {got}", NUMBER_SPECS[n]));
    ensure!(got == want, "{what} as {} (w = {w}) is {got:?}, its address {a:#x} is {want:?}", NUMBER_SPECS[n]);
    Ok(())
}

/// C16: pointers as numbers and as pointers
pub fn c16(case: &Case, cx: &mut Cx) -> Verdict {
    for op in case {
        let mut s = Src::new(op);
        let (a, d) = (address(&mut s), tag(&mut s));
        let p = TaggedPointer::new(a, d as Discriminant);
        cx.nontrivial |= a != 0 && d != 0;
        numbers("pointer", a, &p, &mut s, cx)?;
        let q = a as *const ();
        let w = s.below(40);
        let (got, want) = match s.below(5) {
            0 => (format!("{p:p}"), format!("{q:p}")),
            1 => (format!("{p:#p}"), format!("{q:#p}")),
            2 => (format!("{p:w$p}"), format!("{q:w$p}")),
            3 => (format!("{p:0>w$p}"), format!("{q:0>w$p}")),
            _ => (format!("{p:^#w$p}"), format!("{q:^#w$p}")),
        };
        ensure!(got == want, "pointer with address {a:#x} as {{:p}} is {got:?}, not {want:?}");
        // Debug tells the word, the address and the tag
        let dbg = format!("{p:?}");
        let raw = (a | d << width()) as *const ();
        let parts = [format!("{raw:?}"), format!("{q:?}"), format!("{d}")];
        let words: Vec<&str> = dbg.split(|c: char| !c.is_ascii_alphanumeric()).collect();
        for part in &parts {
            ensure!(words.contains(&part.as_str()), "{dbg} doesn't tell {part}");
        }
    }
    Ok(())
}

/// C17: equality, order and hash
pub fn c17(case: &Case, cx: &mut Cx) -> Verdict {
    use std::{collections::hash_map::DefaultHasher, collections::BTreeSet, collections::HashSet, hash::{Hash, Hasher}};
    let mut all = Vec::new();
    for op in case {
        let mut s = Src::new(op);
        let (mut a, mut d) = (address(&mut s), tag(&mut s));
        if let (Some((b, e, _)), n) = (all.last().copied(), s.below(4)) {
            // Often differing in one part only
            match n {
                0 => a = b,
                1 => d = e,
                2 => (a, d) = (b, e),
                _ => {}
            }
        }
        all.push((a, d, TaggedPointer::new(a, d as Discriminant)));
    }
    all.truncate(24);
    cx.nontrivial = all.len() > 2;
    cx.step(|| format!("compare {:x?}", all.iter().map(|x| (x.0, x.1)).collect::<Vec<_>>()));
    let h = |p: &TaggedPointer| {
        let mut h = DefaultHasher::new();
        p.hash(&mut h);
        h.finish()
    };
    for (a, d, p) in &all {
        for (b, e, q) in &all {
            let (same, o) = ((a, d) == (b, e), (d, a).cmp(&(e, b)));
            cx.label(if same { "equal" } else if a == b { "same address" } else if d == e { "same tag" } else { "different" });
            let pair = format!("({a:#x}, {d}) and ({b:#x}, {e})");
            ensure!((p == q) == same && (p != q) == !same, "{pair}: == is {}", p == q);
            ensure!(p.cmp(q) == o && p.partial_cmp(q) == Some(o), "{pair}: ordered {:?}, by tag and address {o:?}", p.cmp(q));
            ensure!((p < q) == o.is_lt() && (p <= q) == o.is_le() && (p > q) == o.is_gt() && (p >= q) == o.is_ge(), "{pair}: <, <=, > or >= disagrees with the order");
            if same {
                ensure!(h(p) == h(q), "{pair}: equal pointers hash differently");
            }
        }
    }
    let keys: BTreeSet<(u64, u64)> = all.iter().map(|x| (x.1, x.0)).collect();
    let set: HashSet<TaggedPointer> = all.iter().map(|x| x.2).collect();
    ensure!(set.len() == keys.len(), "{} different pointers make a set of {}", keys.len(), set.len());
    let sorted: BTreeSet<TaggedPointer> = all.iter().map(|x| x.2).collect();
    let back: Vec<(u64, u64)> = sorted.iter().map(|p| (p.discriminant() as u64, p.as_u64())).collect();
    ensure!(back == keys.into_iter().collect::<Vec<_>>(), "the sorted set is {back:x?}");
    Ok(())
}

/// C03: the constants agree with the width
pub fn c03() -> Verdict {
    let w = width();
    ensure!((48..=63).contains(&w), "POINTER_WIDTH is {w}");
    let free = 64 - w;
    ensure!(discriminant::DISCRIMINANT_BITS == free as u64, "DISCRIMINANT_BITS is {} for a width of {w}", discriminant::DISCRIMINANT_BITS);
    ensure!(MAX_DISCRIMINANT as u64 == (1 << free) - 1, "MAX_DISCRIMINANT is {MAX_DISCRIMINANT} for a width of {w}");
    ensure!(MAX_POINTER_VALUE == (1 << w) - 1, "MAX_POINTER_VALUE is {MAX_POINTER_VALUE:#x} for a width of {w}");
    ensure!(discriminant::DISCRIMINANT_MASK == (1 << w) - 1, "DISCRIMINANT_MASK is {:#x} for a width of {w}", discriminant::DISCRIMINANT_MASK);
    ensure!(Discriminant::MAX as u64 >= (1 << free) - 1, "Discriminant has too few bits for a width of {w}");
    Ok(())
}

// Documented as usable in constants
pub const CONST_POINTER: TaggedPointer = TaggedPointer::dangling::<u64>(1);
pub const CONST_BOX: TaggedBox<Never> = TaggedBox::dangling::<u64>(1);
pub const CONST_PARTS: (u64, Discriminant, u64) = (
    CONST_POINTER.as_u64(),
    CONST_POINTER.discriminant(),
    TaggedPointer::strip_discriminant(CONST_POINTER.as_raw_u64()),
);

/// C18: one word
pub fn c18(case: &Case, cx: &mut Cx) -> Verdict {
    use std::mem::{size_of, transmute};
    ensure!(size_of::<TaggedPointer>() == 8 && align_of::<TaggedPointer>() == align_of::<u64>(), "a TaggedPointer takes {} bytes", size_of::<TaggedPointer>());
    ensure!(
        size_of::<TaggedBox<Never>>() == 8 && size_of::<TaggedBox<[u64; 9]>>() == 8 && align_of::<TaggedBox<[u128; 2]>>() == align_of::<u64>(),
        "a TaggedBox takes more than a word"
    );
    for op in case {
        let mut s = Src::new(op);
        let (a, d) = (address(&mut s), tag(&mut s));
        let raw = a | d << width();
        cx.step(|| format!("word {raw:#x}"));
        cx.nontrivial |= a != 0 && d != 0;
        let p = TaggedPointer::new(a, d as Discriminant);
        let got: u64 = unsafe { transmute(p) };
        ensure!(got == raw, "the pointer to {a:#x} with tag {d} is the word {got:#x}");
        let q: TaggedPointer = unsafe { transmute(raw) };
        ensure!(q == p && q.as_u64() == a && q.discriminant() as u64 == d, "the word {raw:#x} is read as {q:?}");
        let a = a & usize::MAX as u64;
        let raw = a | d << width();
        let b: TaggedBox<Never> = unsafe { TaggedBox::from_raw(a as *mut u8, d as Discriminant) };
        let got: u64 = unsafe { transmute(b) };
        ensure!(got == raw, "the box at {a:#x} with tag {d} is the word {got:#x}");
        let b: TaggedBox<Never> = unsafe { transmute(raw) };
        ensure!(b.discriminant() as u64 == d && b.as_ptr::<u8>() as u64 == a, "the box of the word {raw:#x} has tag {} and address {:?}", b.discriminant(), b.as_ptr::<u8>());
    }
    Ok(())
}
