//! C28: enums whose traits are written by hand, in ways the macro never writes them.
use std::{
    cell::{Cell, RefCell},
    cmp::Ordering,
    fmt,
    mem::{self, ManuallyDrop},
    panic::{catch_unwind, AssertUnwindSafe},
    ptr,
};
use tbx::tagged_box::{discriminant::MAX_DISCRIMINANT, Discriminant, TaggableContainer, TaggableInner, TaggedBox};
use tbx::tbx_engine::{
    ensure,
    run::{quietly, Case, Cx, Src, Verdict},
    track::{self, Tracked},
};

/// How values lie in their boxes
#[derive(Clone, Copy)]
struct Layout {
    /// The whole value is stored, the tag counts boxes and says nothing
    whole: bool,
    tags: [Discriminant; 8],
    /// from_tagged_box leaves the block behind, as what the macro writes does
    leave: bool,
}
/// What the type's own implementations do
#[derive(Clone, Copy, Default)]
struct Ways {
    eq: u64,
    partial: u64,
    cmp: u64,
    clone: u64,
    show: u64,
}

thread_local! {
    static LAYOUT: Cell<Layout> = const { Cell::new(Layout { whole: true, tags: [0; 8], leave: false }) };
    static WAYS: Cell<Ways> = const { Cell::new(Ways { eq: 0, partial: 0, cmp: 0, clone: 0, show: 0 }) };
    static BOXES: Cell<u64> = const { Cell::new(0) };
    static LAST: Cell<Discriminant> = const { Cell::new(0) };
    static LEFT: RefCell<Vec<usize>> = const { RefCell::new(Vec::new()) };
}

enum Hand {
    Num(u64),
    Owned(Tracked, u8),
    Red,
    Green,
    Blue,
    Nothing,
    Far(Box<(Tracked, u64)>),
    Wide([u64; 40], Tracked),
    Inner(Kept),
}

/// A container that drops what it holds
struct Kept {
    value: TaggedBox<Hand>,
}
impl Drop for Kept {
    fn drop(&mut self) {
        drop(Hand::from_tagged_box(unsafe { ptr::read(&self.value) }));
    }
}
impl Clone for Kept {
    fn clone(&self) -> Self {
        Kept { value: self.value.clone() }
    }
    fn clone_from(&mut self, other: &Self) {
        // The box doesn't drop what it overwrites
        let old = unsafe { ptr::read(&self.value) };
        let new = other.value.clone();
        unsafe { ptr::write(&mut self.value, new) };
        drop(Hand::from_tagged_box(old));
    }
}
impl TaggableContainer for Kept {
    type Inner = Hand;
    fn into_inner(self) -> Hand {
        Hand::from_tagged_box(unsafe { ptr::read(&ManuallyDrop::new(self).value) })
    }
}
impl From<Hand> for Kept {
    fn from(h: Hand) -> Self {
        Kept { value: h.into_tagged_box() }
    }
}

fn taken<U>(b: TaggedBox<Hand>) -> U {
    unsafe {
        if LAYOUT.with(Cell::get).leave {
            if mem::size_of::<U>() > 0 {
                LEFT.with(|l| l.borrow_mut().push(b.as_ptr::<U>() as usize));
            }
            TaggedBox::into_inner::<U>(b)
        } else {
            *TaggedBox::into_box::<U>(b)
        }
    }
}

impl TaggableInner for Hand {
    fn into_tagged_box(self) -> TaggedBox<Self> {
        track::burn();
        let l = LAYOUT.with(Cell::get);
        let tag = |k: usize| {
            LAST.with(|c| c.set(l.tags[k]));
            l.tags[k]
        };
        if l.whole {
            let n = BOXES.with(|c| c.replace(c.get().wrapping_add(l.tags[0] as u64 | 1)));
            let d = (n % (MAX_DISCRIMINANT as u64 + 1)) as Discriminant;
            LAST.with(|c| c.set(d));
            return TaggedBox::new(self, d);
        }
        match self {
            Hand::Num(n) if n < 1 << 16 => TaggedBox::new(n as u16, tag(0)),
            Hand::Num(n) => TaggedBox::new(n, tag(1)),
            Hand::Owned(t, b) => TaggedBox::new((t, b), tag(2)),
            Hand::Red => TaggedBox::new(0u8, tag(3)),
            Hand::Green => TaggedBox::new(1u8, tag(3)),
            Hand::Blue => TaggedBox::new(2u8, tag(3)),
            Hand::Nothing => TaggedBox::dangling::<Self>(tag(4)),
            // What is boxed already needs no other box
            Hand::Far(b) => unsafe { TaggedBox::from_raw(Box::into_raw(b), tag(5)) },
            Hand::Wide(a, t) => TaggedBox::new((a, t), tag(6)),
            Hand::Inner(k) => {
                // One tag for the inner box, whatever made it
                let b = TaggedBox::new(k, l.tags[7]);
                tag(7);
                b
            }
        }
    }

    fn from_tagged_box(b: TaggedBox<Self>) -> Self {
        let l = LAYOUT.with(Cell::get);
        if l.whole {
            return taken::<Hand>(b);
        }
        match b.discriminant() {
            d if d == l.tags[0] => Hand::Num(taken::<u16>(b).into()),
            d if d == l.tags[1] => Hand::Num(taken(b)),
            d if d == l.tags[2] => {
                let (t, x) = taken(b);
                Hand::Owned(t, x)
            }
            d if d == l.tags[3] => [Hand::Red, Hand::Green, Hand::Blue].into_iter().nth(taken::<u8>(b).into()).unwrap(),
            d if d == l.tags[4] => Hand::Nothing,
            d if d == l.tags[5] => Hand::Far(unsafe { TaggedBox::into_box(b) }),
            d if d == l.tags[6] => {
                let (a, t) = taken(b);
                Hand::Wide(a, t)
            }
            d if d == l.tags[7] => Hand::Inner(taken(b)),
            d => panic!("a box with the tag {d}"),
        }
    }

    unsafe fn ref_from_tagged_box<F: FnOnce(&Self)>(b: &TaggedBox<Self>, f: F) {
        track::burn();
        let l = LAYOUT.with(Cell::get);
        if l.whole {
            return f(b.as_ref::<Hand>());
        }
        let h = ManuallyDrop::new(match b.discriminant() {
            d if d == l.tags[0] => Hand::Num(u64::from(*b.as_ref::<u16>())),
            d if d == l.tags[1] => Hand::Num(*b.as_ref()),
            d if d == l.tags[2] => {
                let p = b.as_ptr::<(Tracked, u8)>();
                Hand::Owned(ptr::addr_of!((*p).0).read(), (*p).1)
            }
            d if d == l.tags[3] => match *b.as_ref::<u8>() {
                0 => Hand::Red,
                1 => Hand::Green,
                _ => Hand::Blue,
            },
            d if d == l.tags[4] => Hand::Nothing,
            d if d == l.tags[5] => Hand::Far(Box::from_raw(b.as_ptr::<(Tracked, u64)>() as *mut _)),
            d if d == l.tags[6] => {
                let p = b.as_ptr::<([u64; 40], Tracked)>();
                Hand::Wide((*p).0, ptr::addr_of!((*p).1).read())
            }
            d if d == l.tags[7] => Hand::Inner(b.as_ptr::<Kept>().read()),
            d => panic!("a box with the tag {d}"),
        });
        f(&h);
        track::burn();
    }
}

// What a value is to the oracle ---------------------------------------------------------------

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum M {
    Num(u64),
    Owned(u64, u8),
    Color(u8),
    Nothing,
    Far(u64, u64),
    Wide(u64, u64),
    Inner(Box<M>),
}

/// The value, and the tracked values in it
fn read(h: &Hand, ids: &mut Vec<u64>) -> M {
    match h {
        Hand::Num(n) => M::Num(*n),
        Hand::Owned(t, b) => {
            ids.push(t.id());
            M::Owned(t.val(), *b)
        }
        Hand::Red => M::Color(0),
        Hand::Green => M::Color(1),
        Hand::Blue => M::Color(2),
        Hand::Nothing => M::Nothing,
        Hand::Far(b) => {
            ids.push(b.0.id());
            M::Far(b.0.val(), b.1)
        }
        Hand::Wide(a, t) => {
            ids.push(t.id());
            let x = a.iter().fold(a[0], |x, y| x.rotate_left(1) ^ *y);
            M::Wide(x, t.val())
        }
        Hand::Inner(k) => {
            let mut m = None;
            unsafe { Hand::ref_from_tagged_box(&k.value, |e| m = Some(read(e, ids))) };
            M::Inner(Box::new(m.unwrap()))
        }
    }
}
fn model(h: &Hand) -> M {
    read(h, &mut Vec::new())
}
fn key(m: &M) -> u64 {
    match m {
        M::Num(n) => n % 5,
        M::Owned(v, b) => (v ^ u64::from(*b)) % 5,
        M::Color(c) => u64::from(*c),
        M::Nothing => 3,
        M::Far(v, n) => (v ^ n) % 5,
        M::Wide(_, v) => v % 5,
        M::Inner(m) => key(m),
    }
}
fn alike(way: u64, a: &M, b: &M) -> bool {
    match way % 5 {
        0 => a == b,
        1 => key(a) == key(b),
        2 => false,
        3 => key(a) <= key(b),
        _ => true,
    }
}
fn partial(way: u64, a: &M, b: &M) -> Option<Ordering> {
    match way % 5 {
        0 => Some(a.cmp(b)),
        1 => Some(key(a).cmp(&key(b))),
        2 => Some(b.cmp(a)),
        3 => None,
        _ if (key(a) ^ key(b)) & 1 == 1 => None,
        _ => Some(key(a).cmp(&key(b))),
    }
}
fn order(way: u64, a: &M, b: &M) -> Ordering {
    match way % 3 {
        0 => a.cmp(b),
        1 => key(b).cmp(&key(a)),
        _ => b.cmp(a),
    }
}
/// What a clone of the value is
fn copy(way: u64, m: &M) -> M {
    match (way % 3, m) {
        (1, M::Num(n)) => M::Num(n.wrapping_add(1 << 15)),
        (1, M::Owned(v, b)) => M::Owned(*v, b.wrapping_add(1)),
        (1, M::Color(c)) => M::Color((c + 1) % 3),
        (2, M::Owned(v, _)) => M::Num(*v),
        (2, M::Wide(_, v)) => M::Far(*v, 7),
        (2, M::Nothing) => M::Color(2),
        (2, M::Num(n)) if *n == 0 => M::Nothing,
        (_, M::Inner(m)) => M::Inner(Box::new(copy(way, m))),
        _ => m.clone(),
    }
}
fn show(way: u64, m: &M, what: &str, f: &mut fmt::Formatter) -> fmt::Result {
    match way % 5 {
        0 => f.pad(&format!("{what} {m:?}")),
        1 => write!(f, "{what} {:?} {:?} {:?} {} {} {} {m:?}", f.width(), f.precision(), f.fill(), f.alternate(), f.sign_plus(), f.sign_aware_zero_pad()),
        2 => f.debug_struct(what).field("it", m).field("key", &key(m)).finish(),
        3 => Ok(()),
        _ => {
            f.write_str(what)?;
            Err(fmt::Error)
        }
    }
}
/// The oracle's own value with the same text
struct Shown(u64, M);
impl fmt::Debug for Shown {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        show(self.0, &self.1, "debug", f)
    }
}
impl fmt::Display for Shown {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        show(self.0, &self.1, "display", f)
    }
}

// The type's own implementations ----------------------------------------------------------------

fn ways() -> Ways {
    track::burn();
    WAYS.with(Cell::get)
}
impl Clone for Hand {
    fn clone(&self) -> Self {
        let way = ways().clone;
        match (way % 3, self) {
            (1, Hand::Num(n)) => Hand::Num(n.wrapping_add(1 << 15)),
            (1, Hand::Owned(t, b)) => Hand::Owned(t.clone(), b.wrapping_add(1)),
            (1, Hand::Red) => Hand::Green,
            (1, Hand::Green) => Hand::Blue,
            (1, Hand::Blue) => Hand::Red,
            (2, Hand::Owned(t, _)) => Hand::Num(t.val()),
            (2, Hand::Wide(_, t)) => Hand::Far(Box::new((t.clone(), 7))),
            (2, Hand::Nothing) => Hand::Blue,
            (2, Hand::Num(0)) => Hand::Nothing,
            (_, Hand::Num(n)) => Hand::Num(*n),
            (_, Hand::Owned(t, b)) => Hand::Owned(t.clone(), *b),
            (_, Hand::Red) => Hand::Red,
            (_, Hand::Green) => Hand::Green,
            (_, Hand::Blue) => Hand::Blue,
            (_, Hand::Nothing) => Hand::Nothing,
            (_, Hand::Far(b)) => Hand::Far(b.clone()),
            (_, Hand::Wide(a, t)) => Hand::Wide(*a, t.clone()),
            (_, Hand::Inner(k)) => Hand::Inner(k.clone()),
        }
    }
}
impl PartialEq for Hand {
    fn eq(&self, o: &Self) -> bool {
        alike(ways().eq, &model(self), &model(o))
    }
}
impl Eq for Hand {}
impl PartialOrd for Hand {
    #[allow(clippy::non_canonical_partial_ord_impl)]
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        partial(ways().partial, &model(self), &model(o))
    }
}
impl Ord for Hand {
    fn cmp(&self, o: &Self) -> Ordering {
        order(ways().cmp, &model(self), &model(o))
    }
}
impl fmt::Debug for Hand {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        show(ways().show, &model(self), "debug", f)
    }
}
impl fmt::Display for Hand {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        show(ways().show, &model(self), "display", f)
    }
}

// Histories ---------------------------------------------------------------------------------------

struct Slot {
    k: Kept,
    m: M,
    ids: Vec<u64>,
    d: Discriminant,
}

fn make(s: &mut Src, depth: u32) -> Hand {
    let k = s.below(if depth > 2 { 8 } else { 9 });
    let x = s.next();
    match k {
        0 => Hand::Num(x),
        1 => Hand::Owned(Tracked::new(x), (x >> 8) as u8),
        2 => Hand::Red,
        3 => Hand::Green,
        4 => Hand::Blue,
        5 => Hand::Nothing,
        6 => Hand::Far(Box::new((Tracked::new(x), !x))),
        7 => {
            let mut a = [x; 40];
            a.iter_mut().enumerate().for_each(|(i, y)| *y = y.wrapping_mul(i as u64 + 3));
            Hand::Wide(a, Tracked::new(x ^ 1))
        }
        _ => Hand::Inner(make(s, depth + 1).into()),
    }
}

fn view(k: &Kept) -> Result<(M, Vec<u64>), String> {
    let (mut got, mut calls) = (None, 0);
    unsafe {
        Hand::ref_from_tagged_box(&k.value, |e| {
            calls += 1;
            let mut ids = Vec::new();
            got = Some((read(e, &mut ids), ids));
        })
    };
    ensure!(calls == 1, "the view was shown {calls} times");
    Ok(got.unwrap())
}

fn check(s: &Slot, when: &str) -> Verdict {
    let (m, ids) = view(&s.k)?;
    ensure!(m == s.m, "{when}: the box holds {m:?}, expected {:?}", s.m);
    ensure!(ids == s.ids, "{when}: the box of {m:?} holds other values than those put in");
    ensure!(s.k.value.discriminant() == s.d, "{when}: the box of {m:?} has the tag {}, expected {}", s.k.value.discriminant(), s.d);
    Ok(())
}

fn audit(slots: &[Slot], when: &str) -> Verdict {
    let mut ids: Vec<u64> = slots.iter().flat_map(|s| s.ids.iter().copied()).collect();
    ids.sort_unstable();
    let have = track::alive();
    ensure!(have == ids, "{when}: {} values are alive, {} are in boxes", have.len(), ids.len());
    Ok(())
}

fn slot(k: Kept) -> Result<Slot, String> {
    let (m, ids) = view(&k)?;
    let d = k.value.discriminant();
    Ok(Slot { k, m, ids, d })
}

pub fn c28(case: &Case, cx: &mut Cx) -> Verdict {
    hands(case, cx, false)
}
/// With the only `from_tagged_box` the documentation shows, which leaves the block behind
pub fn c28_left(case: &Case, cx: &mut Cx) -> Verdict {
    hands(case, cx, true)
}
fn hands(case: &Case, cx: &mut Cx, left: bool) -> Verdict {
    let mut slots = Vec::new();
    LEFT.with(|l| l.borrow_mut().clear());
    let r = match quietly(|| run(case, cx, &mut slots, left)) {
        Ok(r) => r,
        Err(m) => Err(format!("unexpected panic: {m}")),
    };
    track::disarm_fuse();
    if r.is_err() {
        mem::forget(slots);
        return r;
    }
    drop(slots);
    leave(cx);
    audit(&[], "at the end")
}

fn leave(cx: &mut Cx) {
    for p in LEFT.with(|l| mem::take(&mut *l.borrow_mut())) {
        cx.leaves(p);
    }
}

fn run(case: &Case, cx: &mut Cx, slots: &mut Vec<Slot>, left: bool) -> Verdict {
    let mut s = Src::new(&case[0]);
    let most = MAX_DISCRIMINANT as u64;
    let mut tags: Vec<Discriminant> = Vec::new();
    for _ in 0..8 {
        let mut w = s.next();
        if most < 7 {
            w %= most + 1;
        } else {
            w = if w & 1 == 0 { most - (w >> 1) % (most + 1) } else { (w >> 1) % (most + 1) };
            while tags.contains(&(w as Discriminant)) {
                w = (w + 1) % (most + 1);
            }
        }
        tags.push(w as Discriminant);
    }
    let whole = s.flag() || most < 7;
    let l = Layout { whole, tags: tags.clone().try_into().unwrap(), leave: s.flag() | left };
    LAYOUT.with(|c| c.set(l));
    WAYS.with(|c| c.set(Ways::default()));
    BOXES.with(|c| c.set(s.next()));
    cx.label(if whole { "the whole value in a block" } else { "tags and types by hand" });
    cx.step(|| if whole { "values are stored whole, tags count boxes".into() } else { format!("tags {tags:?}") });
    for op in &case[1..] {
        let mut s = Src::new(op);
        let what = s.below(16);
        let w = Ways { eq: s.next(), partial: s.next(), cmp: s.next(), clone: s.next(), show: s.next() };
        WAYS.with(|c| c.set(w));
        let (i, j) = (s.below(slots.len()), s.below(slots.len()));
        let x = s.next();
        match what {
            _ if slots.is_empty() || what < 3 && slots.len() < 24 => {
                let h = make(&mut s, 0);
                let mut ids = Vec::new();
                let m = read(&h, &mut ids);
                cx.step(|| format!("box {m:?}"));
                cx.label("boxed");
                let k = Kept::from(h);
                slots.push(Slot { k, m, ids, d: LAST.with(Cell::get) });
            }
            3 | 4 => {
                cx.label("cloned");
                cx.nontrivial = true;
                let want = copy(w.clone, &slots[i].m);
                cx.step(|| format!("clone {:?}, giving {want:?}", slots[i].m));
                let before = track::alive();
                let k = slots[i].k.clone();
                let d = LAST.with(Cell::get);
                let new = slot(k)?;
                ensure!(new.m == want, "the clone of {:?} is {:?}, but the value's own clone is {want:?}", slots[i].m, new.m);
                ensure!(new.d == d, "the clone's tag is {}, its type gave it {d}", new.d);
                ensure!(new.ids.iter().all(|n| !before.contains(n)), "the clone of {:?} shares its value", slots[i].m);
                slots.push(new);
            }
            5 => {
                cx.label("cloned from");
                cx.nontrivial = true;
                let want = copy(w.clone, &slots[j].m);
                cx.step(|| format!("clone_from {:?} to {:?}, giving {want:?}", slots[j].m, slots[i].m));
                let from = mem::ManuallyDrop::new(unsafe { ptr::read(&slots[j].k) });
                slots[i].k.clone_from(&from);
                let d = LAST.with(Cell::get);
                let (m, ids) = view(&slots[i].k)?;
                ensure!(m == want, "after clone_from it is {m:?}, not {want:?}");
                slots[i].m = m;
                slots[i].ids = ids;
                slots[i].d = d;
            }
            6..=9 => {
                cx.label("compared");
                let (a, b) = (&slots[i], &slots[j]);
                cx.nontrivial |= a.d != b.d || a.m == b.m;
                cx.step(|| format!("compare {:?} (tag {}) and {:?} (tag {}), ways {} {} {}", a.m, a.d, b.m, b.d, w.eq % 5, w.partial % 5, w.cmp % 3));
                let (p, q) = (&a.k.value, &b.k.value);
                let (e, c, o) = (alike(w.eq, &a.m, &b.m), partial(w.partial, &a.m, &b.m), order(w.cmp, &a.m, &b.m));
                let text = format!("{:?} and {:?}", a.m, b.m);
                ensure!((p == q, p != q) == (e, !e), "{text}: == gives {}, != gives {}, the values' own == {e}", p == q, p != q);
                let got = p.partial_cmp(q);
                ensure!(got == c, "{text}: partial_cmp gives {got:?}, the values' own {c:?}");
                let (lt, le, gt, ge) = (p < q, p <= q, p > q, p >= q);
                let less = c == Some(Ordering::Less);
                let more = c == Some(Ordering::Greater);
                let same = c == Some(Ordering::Equal);
                ensure!((lt, le, gt, ge) == (less, less || same, more, more || same), "{text}: <, <=, >, >= give {lt} {le} {gt} {ge}, partial_cmp {c:?}");
                let got = p.cmp(q);
                ensure!(got == o, "{text}: cmp gives {got:?}, the values' own {o:?}");
            }
            10 => {
                cx.label("shown");
                cx.nontrivial = true;
                let a = &slots[i];
                let m = Shown(w.show, a.m.clone());
                cx.step(|| format!("show {:?}, way {}", a.m, w.show % 5));
                macro_rules! both {
                    ($($f:literal)*) => {$({
                        use fmt::Write;
                        let (mut p, mut q) = (String::new(), String::new());
                        let (r, t) = (write!(p, $f, a.k.value), write!(q, $f, m));
                        ensure!(p == q && r.is_ok() == t.is_ok(), "{:?} under {:?} shows {p:?} ({r:?}), the value itself {q:?} ({t:?})", a.m, $f);
                    })*};
                }
                both!("{}" "{:?}" "{:#}" "{:#?}" "{:>40}" "{:*<50?}" "{:.6}" "{:+}" "{:012.3?}" "{:^#30?}");
            }
            11 => {
                cx.label("taken out");
                let a = slots.swap_remove(i);
                cx.step(|| format!("take {:?} out", a.m));
                let mut ids = Vec::new();
                let h = a.k.into_inner();
                let m = read(&h, &mut ids);
                ensure!(m == a.m && ids == a.ids, "taken out is {m:?}, expected {:?}", a.m);
                if x & 1 == 1 {
                    let k = Kept::from(h);
                    slots.push(Slot { k, m, ids, d: LAST.with(Cell::get) });
                }
            }
            12 => {
                cx.label("changed in place");
                let mut fresh = make(&mut s, 1);
                let mut ids = Vec::new();
                let m = read(&fresh, &mut ids);
                cx.step(|| format!("change {:?} to {m:?}", slots[i].m));
                let a = &mut slots[i];
                if whole {
                    mem::swap(unsafe { a.k.value.as_mut_ref::<Hand>() }, &mut fresh);
                } else {
                    let old = mem::replace(&mut a.k, Kept::from(fresh));
                    a.d = LAST.with(Cell::get);
                    fresh = old.into_inner();
                }
                let mut was = Vec::new();
                let old = read(&fresh, &mut was);
                ensure!(old == a.m && was == a.ids, "what was there is {old:?}, expected {:?}", a.m);
                a.m = m;
                a.ids = ids;
            }
            13 => {
                cx.label("sorted");
                cx.nontrivial |= slots.len() > 2;
                cx.step(|| format!("sort {} boxes, way {}", slots.len(), w.cmp % 3));
                let mut n: Vec<usize> = (0..slots.len()).collect();
                let mut t = n.clone();
                n.sort_by(|a, b| order(w.cmp, &slots[*a].m, &slots[*b].m));
                t.sort_by(|a, b| slots[*a].k.value.cmp(&slots[*b].k.value));
                ensure!(n == t, "sorted boxes are in the order {t:?}, their values {n:?}");
                t.sort_by(|a, b| slots[*b].k.value.cmp(&slots[*a].k.value));
                n.sort_by(|a, b| order(w.cmp, &slots[*b].m, &slots[*a].m));
                ensure!(n == t, "sorted in reverse boxes are in the order {t:?}, their values {n:?}");
                let at = slots.iter().position(|q| slots[i].k.value == q.k.value);
                let want = slots.iter().position(|q| alike(w.eq, &slots[i].m, &q.m));
                ensure!(at == want, "the first box equal to {:?} is {at:?}, by value {want:?}", slots[i].m);
            }
            14 if whole => {
                cx.label("handed over");
                let d = (x % (most + 1)) as Discriminant;
                cx.step(|| format!("hand {:?} over, to tag {d}", slots[i].m));
                let a = &mut slots[i];
                let at = a.k.value.as_ptr::<Hand>();
                let b = unsafe { ptr::read(&a.k.value) };
                let b: Box<Hand> = unsafe { TaggedBox::into_box(b) };
                ensure!(ptr::eq(&*b, at), "the Box of {:?} is elsewhere", a.m);
                unsafe { ptr::write(&mut a.k.value, TaggedBox::from_raw(Box::into_raw(b), d)) };
                a.d = d;
            }
            _ => {
                // The type's own code panics somewhere
                let which = x % 6;
                cx.label("with a panic");
                cx.step(|| format!("operation {which} on {:?} and {:?}, the call {} panics", slots[i].m, slots[j].m, 1 + (x >> 8) % 9));
                let (p, q) = (&slots[i].k.value, &slots[j].k.value);
                track::light_fuse(1 + (x >> 8) as i64 % 9);
                let r = catch_unwind(AssertUnwindSafe(|| match which {
                    0 => return Some(Kept { value: p.clone() }),
                    1 => {
                        let _ = p == q;
                        None
                    }
                    2 => {
                        let _ = p.partial_cmp(q);
                        None
                    }
                    3 => {
                        let _ = p.cmp(q);
                        None
                    }
                    4 => {
                        let _ = format!("{:?}", Caught(p));
                        None
                    }
                    _ => {
                        let mut out = String::new();
                        let _ = fmt::Write::write_fmt(&mut out, format_args!("{p}"));
                        None
                    }
                }));
                let burning = track::disarm_fuse();
                match r {
                    Ok(Some(k)) => {
                        ensure!(burning, "a panic of the type's own code was swallowed");
                        let want = copy(w.clone, &slots[i].m);
                        let new = slot(k)?;
                        ensure!(new.m == want, "the clone of {:?} is {:?}, but the value's own clone is {want:?}", slots[i].m, new.m);
                        slots.push(new);
                    }
                    Ok(None) => ensure!(burning, "a panic of the type's own code was swallowed"),
                    Err(e) => {
                        ensure!(e.is::<track::Injected>(), "another panic came of the type's own");
                        cx.label("panicked");
                        cx.nontrivial = true;
                    }
                }
            }
        }
        leave(cx);
        for a in slots.iter() {
            check(a, "after the step")?;
        }
        audit(slots, "after the step")?;
    }
    Ok(())
}

/// Shows without an error of its own
struct Caught<'a>(&'a TaggedBox<Hand>);
impl fmt::Debug for Caught<'_> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let _ = write!(f, "{:?}", self.0);
        Ok(())
    }
}
