//! The suites over enums declared with `tagged_box!`: generic over the generated `Subject`.
use crate::types::{Field, Sig};
use tagged_box::{discriminant::MAX_DISCRIMINANT, Discriminant, TaggableContainer, TaggableInner, TaggedBox};
use tbx_engine::{
    ensure, ledger,
    run::{forked, quietly, Case, Cx, End, Pay, Src, Verdict},
    track,
};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Unit,
    Empty,
    Single,
    Multi(usize),
    Struct(usize),
}

/// What the heap block of a variant must be able to hold, and may at most take
#[derive(Clone, Copy, Debug)]
pub struct Foot {
    pub least: usize,
    pub most: usize,
    pub align: usize,
}

pub trait Subject: 'static {
    type E: TaggableInner + Field;
    type C: TaggableContainer<Inner = Self::E> + From<Self::E> + 'static;
    const NAME: &'static str;
    const NVAR: usize;
    /// The container is copied bit by bit, by its Clone too (C07)
    const COPY: bool;
    fn kind(v: usize) -> Kind;
    fn foot(v: usize) -> Foot;
    fn build(v: usize, p: &mut Pay) -> Self::E;
    fn variant(e: &Self::E) -> usize;
    fn wrap(b: TaggedBox<Self::E>) -> Self::C;
    fn unwrap(c: Self::C) -> TaggedBox<Self::E>;
    fn peek(c: &Self::C) -> &TaggedBox<Self::E>;
    fn peek_mut(c: &mut Self::C) -> &mut TaggedBox<Self::E>;
    /// By the `From` conversion of the variant's contents, if there is to be one
    fn from_payload(v: usize, p: &mut Pay) -> Option<(Self::C, Sig)>;
    /// For single-element variants: put another element in through a mutable reference
    fn replace(b: &mut TaggedBox<Self::E>, v: usize, p: &mut Pay) -> Option<(Self::E, Sig)>;
    /// For single-element variants: hand the block over to a `Box`
    fn unbox(b: TaggedBox<Self::E>, v: usize) -> Result<Unboxed<Self::E>, TaggedBox<Self::E>>;
}

/// A value in a `Box`, and how to take it out
pub struct Unboxed<E> {
    pub addr: usize,
    pub open: Box<dyn FnOnce() -> E>,
}

pub fn sig_of<S: Subject>(e: &S::E) -> Sig {
    let mut s = Sig::default();
    e.sig(&mut s);
    s
}

pub fn usable<S: Subject>() -> usize {
    S::NVAR.min(MAX_DISCRIMINANT as usize + 1)
}

pub fn show(s: &Sig) -> String {
    let mut t = format!("variant {} {:?}", s.words[0], &s.words[1..s.words.len().min(12)]);
    if s.words.len() > 12 {
        t.push('…');
    }
    if !s.own.is_empty() {
        t += &format!(" own {:x?}", &s.own[..s.own.len().min(4)]);
    }
    if !s.ids.is_empty() {
        t += &format!(" ids {:?}", &s.ids[..s.ids.len().min(8)]);
    }
    t
}

/// The very same value
pub fn same(how: &str, got: &Sig, want: &Sig) -> Verdict {
    ensure!(got == want, "{how}: got {}, expected {}{}", show(got), show(want), differing(got, want));
    Ok(())
}

/// Where the first difference is, as long signatures are cut when shown
fn differing(got: &Sig, want: &Sig) -> String {
    let n = got.words.iter().zip(&want.words).position(|(a, b)| a != b);
    n.map_or(String::new(), |n| format!(" (word {n} is {:#x}, expected {:#x})", got.words[n], want.words[n]))
}

/// An equal value, maybe another one
pub fn alike(how: &str, got: &Sig, want: &Sig) -> Verdict {
    ensure!(
        got.words == want.words && got.zsts == want.zsts && got.ids.len() == want.ids.len(),
        "{how}: got {}, expected {}{}",
        show(got),
        show(want),
        differing(got, want)
    );
    Ok(())
}

pub fn kind_label(k: Kind) -> &'static str {
    match k {
        Kind::Unit => "variant:unit",
        Kind::Empty => "variant:empty-tuple",
        Kind::Single => "variant:single",
        Kind::Multi(2..=4) => "variant:multi-2..4",
        Kind::Multi(5..=16) => "variant:multi-5..16",
        Kind::Multi(_) => "variant:multi-17..32",
        Kind::Struct(0) => "variant:struct-0",
        Kind::Struct(_) => "variant:struct",
    }
}

fn pick<S: Subject>(s: &mut Src, cx: &mut Cx) -> (usize, Pay) {
    let v = s.below(usable::<S>());
    cx.label(kind_label(S::kind(v)));
    (v, s.pay())
}

pub fn addr<S: Subject>(c: &S::C) -> usize {
    S::peek(c).as_ptr::<u8>() as usize
}

/// Remember the block of a box the code under test may leave behind
pub fn leaves<S: Subject>(c: &S::C, v: usize, cx: &mut Cx) {
    if S::foot(v).most > 0 {
        cx.leaves(addr::<S>(c));
    }
}

pub fn view<S: Subject>(b: &TaggedBox<S::E>) -> Result<Sig, String> {
    let mut seen = Vec::new();
    unsafe { S::E::ref_from_tagged_box(b, |e| seen.push(sig_of::<S>(e))) };
    ensure!(seen.len() == 1, "the callback was called {} times", seen.len());
    Ok(seen.pop().unwrap())
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Op {
    New,
    NewInner,
    NewFrom,
    Hold,
    BoxVal,
    Take,
    TakeVia,
    Unbox,
    UnboxDrop,
    Look,
    Swap,
    Raw,
    Replace,
    DropVal,
    Abandon,
    Carry,
    Crowd,
}
use Op::*;

/// How many to make at once: mostly few
pub fn crowd(s: &mut Src) -> usize {
    let n = [2, 3, 5, 9, 17, 40, 130, 500][s.below(8)];
    if cfg!(miri) {
        n.min(9)
    } else {
        n
    }
}

/// Boxes and plain values alive in a history, each with the model of what it holds
pub struct World<S: Subject> {
    pub boxes: Vec<(S::C, Sig)>,
    pub vals: Vec<(S::E, Sig)>,
    /// What was discarded inside a box: may or may not be dropped
    pub gone: Vec<u64>,
    pub gone_zsts: i64,
    pub heap: bool,
}

impl<S: Subject> World<S> {
    pub fn new() -> Self {
        Self {
            boxes: Vec::new(),
            vals: Vec::new(),
            gone: Vec::new(),
            gone_zsts: 0,
            heap: false,
        }
    }

    /// Exactly what is held is alive
    pub fn audit(&self, when: &str) -> Verdict {
        let mut want: Vec<u64> = Vec::new();
        let mut zsts = 0;
        for s in self.boxes.iter().map(|b| &b.1).chain(self.vals.iter().map(|v| &v.1)) {
            want.extend(&s.ids);
            zsts += s.zsts;
        }
        want.sort();
        let have = track::alive();
        for id in &want {
            ensure!(have.binary_search(id).is_ok(), "{when}: a value still held was dropped");
        }
        for id in &have {
            ensure!(
                want.binary_search(id).is_ok() || self.gone.contains(id),
                "{when}: a value which was given up is still alive (or was duplicated)"
            );
        }
        let n = track::zst_live();
        ensure!(
            n >= zsts && n <= zsts + self.gone_zsts,
            "{when}: {n} zero-sized values are alive, {zsts} are held"
        );
        Ok(())
    }

    fn created(&self, v: usize, c: &S::C, st: ledger::Stats, cx: &mut Cx) -> Verdict {
        if !self.heap {
            return Ok(());
        }
        let f = S::foot(v);
        if f.most == 0 {
            cx.label("heap:none");
            ensure!(st.allocs == 0, "storing a variant without contents requested {} heap blocks", st.allocs);
        } else {
            cx.label("heap:block");
            ensure!(st.allocs == 1, "storing a variant requested {} heap blocks", st.allocs);
            ensure!(
                st.last_size >= f.least && st.last_size <= f.most && st.last_align >= f.align,
                "storing a variant of {}..={} bytes aligned to {} requested {} bytes aligned to {}",
                f.least, f.most, f.align, st.last_size, st.last_align
            );
            ensure!(st.last_ptr == addr::<S>(c), "the box doesn't point to the block requested for it");
        }
        ensure!(st.frees == 0, "storing a variant released {} heap blocks", st.frees);
        Ok(())
    }

    fn untouched(&self, what: &str, st: ledger::Stats) -> Verdict {
        ensure!(
            !self.heap || (st.allocs == 0 && st.frees == 0),
            "{what} requested {} and released {} heap blocks",
            st.allocs,
            st.frees
        );
        Ok(())
    }

    /// Taking the value out: the block is no longer needed
    fn emptied(&self, what: &str, v: usize, block: usize, st: ledger::Stats, cx: &mut Cx) -> Verdict {
        if !self.heap {
            return Ok(());
        }
        ensure!(st.allocs == 0, "{what} requested {} heap blocks", st.allocs);
        if S::foot(v).most == 0 {
            ensure!(st.frees == 0, "{what} of a variant without contents released {} heap blocks", st.frees);
        } else if st.frees == 0 {
            cx.known("into_inner-leak", || {
                format!("{what} hands out the value but never releases its heap block")
            })?;
        } else {
            ensure!(
                st.frees == 1 && st.freed_ptr == block,
                "{what} released {} heap blocks, the last not the value's",
                st.frees
            );
        }
        Ok(())
    }

    pub fn step(&mut self, op: Op, s: &mut Src, cx: &mut Cx) -> Verdict {
        match op {
            New | NewInner => {
                let (v, mut p) = pick::<S>(s, cx);
                let e = S::build(v, &mut p);
                let sig = sig_of::<S>(&e);
                cx.step(|| format!("{op:?} {}", show(&sig)));
                let (c, st) = ledger::measure(|| if op == New { S::C::from(e) } else { S::wrap(e.into_tagged_box()) });
                self.created(v, &c, st, cx)?;
                self.boxes.push((c, sig));
            }
            NewFrom => {
                let (v, p) = pick::<S>(s, cx);
                if let Some((c, sig)) = S::from_payload(v, &mut p.clone()) {
                    cx.label("made:from-contents");
                    cx.step(|| format!("NewFrom {}", show(&sig)));
                    self.boxes.push((c, sig));
                }
            }
            Crowd if self.boxes.len() < 600 => {
                // Many boxes alive at once, of one variant or of any
                let n = crowd(s);
                let (one, v0, seed) = (s.flag(), s.below(usable::<S>()), s.next());
                cx.step(|| format!("make {n} boxes{}", if one { format!(" of variant {v0}") } else { String::new() }));
                cx.label(if n > 30 { "many boxes at once" } else { "some boxes at once" });
                for k in 0..n as u64 {
                    let mut p = Pay::new(seed.wrapping_add(k << 8));
                    let v = if one { v0 } else { (v0 + k as usize) % usable::<S>() };
                    let e = S::build(v, &mut p);
                    let sig = sig_of::<S>(&e);
                    let (c, st) = ledger::measure(|| if k % 3 == 0 { S::wrap(e.into_tagged_box()) } else { S::C::from(e) });
                    self.created(v, &c, st, cx)?;
                    self.boxes.push((c, sig));
                }
                for (i, (c, sig)) in self.boxes.iter().enumerate() {
                    same(&format!("box {i} of many"), &view::<S>(S::peek(c))?, sig)?;
                }
            }
            Hold => {
                let (v, mut p) = pick::<S>(s, cx);
                let e = S::build(v, &mut p);
                let sig = sig_of::<S>(&e);
                cx.step(|| format!("Hold {}", show(&sig)));
                self.vals.push((e, sig));
            }
            BoxVal if !self.vals.is_empty() => {
                let i = s.below(self.vals.len());
                let (e, sig) = self.vals.swap_remove(i);
                cx.step(|| format!("BoxVal {}", show(&sig)));
                cx.label("value boxed again");
                let (c, st) = ledger::measure(|| S::C::from(e));
                self.created(sig.words[0] as usize, &c, st, cx)?;
                self.boxes.push((c, sig));
            }
            Take | TakeVia if !self.boxes.is_empty() => {
                let i = s.below(self.boxes.len());
                let (c, sig) = self.boxes.swap_remove(i);
                let v = sig.words[0] as usize;
                cx.step(|| format!("{op:?} box {i}: {}", show(&sig)));
                cx.label("value taken out");
                cx.nontrivial |= sig.words.len() > 1 || sig.zsts > 0;
                let block = addr::<S>(&c);
                leaves::<S>(&c, v, cx);
                let (e, st) = ledger::measure(|| {
                    if op == Take {
                        c.into_inner()
                    } else {
                        S::E::from_tagged_box(S::unwrap(c))
                    }
                });
                let what = if op == Take { "into_inner" } else { "from_tagged_box" };
                // The model is pushed first: a wrong value must not be dropped as if it were right
                let got = sig_of::<S>(&e);
                if got != sig {
                    std::mem::forget(e);
                    return same(what, &got, &sig);
                }
                self.vals.push((e, sig));
                self.emptied(what, v, block, st, cx)?;
            }
            Unbox | UnboxDrop if !self.boxes.is_empty() => {
                let i = s.below(self.boxes.len());
                let v = self.boxes[i].1.words[0] as usize;
                if S::kind(v) == Kind::Single {
                    let (c, sig) = self.boxes.swap_remove(i);
                    cx.step(|| format!("{op:?} box {i}: {}", show(&sig)));
                    cx.label("into_box");
                    cx.nontrivial = true;
                    let block = addr::<S>(&c);
                    let b = S::unwrap(c);
                    let u = match S::unbox(b, v) {
                        Ok(u) => u,
                        Err(_) => return Err("harness: single variant not unboxed".into()),
                    };
                    ensure!(u.addr == block, "into_box moved the value");
                    if op == Unbox {
                        let e = (u.open)();
                        let got = sig_of::<S>(&e);
                        if got != sig {
                            std::mem::forget(e);
                            return same("into_box", &got, &sig);
                        }
                        self.vals.push((e, sig));
                    } else {
                        drop(u.open);
                        for id in &sig.ids {
                            ensure!(!track::is_alive(*id), "dropping the Box didn't drop the value");
                        }
                    }
                    if S::foot(v).most > 0 && !cfg!(miri) {
                        ensure!(
                            ledger::serial(block).is_none(),
                            "dropping the Box given by into_box didn't release the heap block"
                        );
                    }
                }
            }
            Look if !self.boxes.is_empty() => {
                let i = s.below(self.boxes.len());
                let (c, sig) = &self.boxes[i];
                cx.step(|| format!("Look at box {i}"));
                cx.label("looked at");
                let b = S::peek(c);
                let mut n = 0;
                let ((), st) = ledger::measure(|| unsafe { S::E::ref_from_tagged_box(b, |_| n += 1) });
                ensure!(n == 1, "ref_from_tagged_box called back {n} times");
                self.untouched("ref_from_tagged_box", st)?;
                same("ref_from_tagged_box", &view::<S>(b)?, sig)?;
                let (d, st) = ledger::measure(|| b.discriminant());
                self.untouched("discriminant", st)?;
                ensure!(d as u64 == sig.words[0], "discriminant {d} for variant {}", sig.words[0]);
            }
            Swap if self.boxes.len() > 1 => {
                let (i, j) = (s.below(self.boxes.len()), s.below(self.boxes.len()));
                cx.step(|| format!("Swap {i} {j}"));
                self.boxes.swap(i, j);
            }
            Carry if !self.boxes.is_empty() => {
                let i = s.below(self.boxes.len());
                cx.step(|| format!("Carry box {i} through Box, Option and Vec"));
                let (c, sig) = self.boxes.swap_remove(i);
                let mut o = Some(Box::new(c));
                let c = *o.take().unwrap();
                let c = vec![c].pop().unwrap();
                self.boxes.push((c, sig));
            }
            Raw if !self.boxes.is_empty() => {
                let i = s.below(self.boxes.len());
                cx.step(|| format!("Raw round trip of box {i}"));
                cx.label("raw round trip");
                let (c, sig) = self.boxes.swap_remove(i);
                let a = addr::<S>(&c);
                let ((c, r), st) = ledger::measure(|| {
                    let b = S::unwrap(c);
                    let d = b.discriminant();
                    let r: *mut u8 = TaggedBox::into_raw(b);
                    (S::wrap(unsafe { TaggedBox::from_raw(r, d) }), r)
                });
                self.boxes.push((c, sig));
                ensure!(r as usize == a, "into_raw gave another address than as_ptr");
                self.untouched("into_raw and from_raw", st)?;
            }
            Replace if !self.boxes.is_empty() => {
                let i = s.below(self.boxes.len());
                let v = self.boxes[i].1.words[0] as usize;
                let mut p = s.pay();
                let (c, sig) = &mut self.boxes[i];
                if let Some((old, new)) = S::replace(S::peek_mut(c), v, &mut p) {
                    cx.label("contents replaced");
                    cx.nontrivial = true;
                    cx.step(|| format!("Replace contents of box {i}: {}", show(&new)));
                    let was = std::mem::replace(sig, new);
                    let got = sig_of::<S>(&old);
                    if got != was {
                        std::mem::forget(old);
                        return same("as_mut_ref", &got, &was);
                    }
                    self.vals.push((old, was));
                }
            }
            DropVal if !self.vals.is_empty() => {
                let i = s.below(self.vals.len());
                let (e, sig) = self.vals.swap_remove(i);
                cx.step(|| format!("Drop value {}", show(&sig)));
                cx.label("value dropped");
                drop(e);
            }
            Abandon if !self.boxes.is_empty() => {
                let i = s.below(self.boxes.len());
                let (c, sig) = self.boxes.swap_remove(i);
                cx.step(|| format!("Discard box {i}: {}", show(&sig)));
                cx.label("box discarded");
                let v = sig.words[0] as usize;
                let block = addr::<S>(&c);
                leaves::<S>(&c, v, cx);
                let serial = if S::foot(v).most > 0 { ledger::serial(block) } else { None };
                let zsts = track::zst_live();
                drop(c);
                if self.heap {
                    let dropped = sig.ids.iter().filter(|i| !track::is_alive(**i)).count();
                    ensure!(
                        dropped == 0 || dropped == sig.ids.len(),
                        "discarding a box dropped part of its value"
                    );
                    let freed = serial.is_some() && ledger::serial(block) != serial;
                    let gone = zsts - track::zst_live();
                    ensure!(gone == 0 || gone == sig.zsts, "discarding a box dropped {gone} of {} zero-sized values", sig.zsts);
                    let kept = (dropped == 0 && !sig.ids.is_empty())
                        || (serial.is_some() && !freed)
                        || (sig.zsts > 0 && gone == 0);
                    ensure!(
                        !(freed && dropped == 0 && !sig.ids.is_empty()),
                        "discarding a box released its block without dropping the value"
                    );
                    if kept {
                        cx.known("drop-leak", || {
                            "discarding a box neither drops the value nor releases its heap block".into()
                        })?;
                    }
                }
                self.gone.extend(&sig.ids);
                self.gone_zsts += sig.zsts;
            }
            _ => {}
        }
        Ok(())
    }

    /// Take everything out and compare
    pub fn finish(&mut self, s: &mut Src, cx: &mut Cx) -> Verdict {
        for (i, (c, sig)) in self.boxes.iter().enumerate() {
            same(&format!("box {i} at the end"), &view::<S>(S::peek(c))?, sig)?;
        }
        let mut n = 0;
        while !self.boxes.is_empty() {
            n += 1;
            self.step(if n % 2 == 0 { Take } else { TakeVia }, s, cx)?;
        }
        for (e, sig) in &self.vals {
            same("a value at the end", &sig_of::<S>(e), sig)?;
        }
        self.audit("at the end")?;
        self.vals.clear();
        self.audit("after dropping everything")
    }

    /// A wrong value must not go on to be used or dropped
    pub fn give_up(self) {
        std::mem::forget(self);
    }
}

pub fn history<S: Subject>(case: &Case, cx: &mut Cx, menu: &[Op], heap: bool) -> Verdict {
    let mut w = World::<S>::new();
    w.heap = heap;
    let mut go = || -> Verdict {
        for op in case {
            let mut s = Src::new(op);
            let o = menu[s.below(menu.len())];
            w.step(o, &mut s, cx)?;
            w.audit(&format!("after {o:?}"))?;
        }
        let mut s = Src::new(&[]);
        w.finish(&mut s, cx)
    };
    let r = go();
    if r.is_err() {
        w.give_up();
    }
    r
}

/// C05: ownership over histories
pub fn c05<S: Subject>(case: &Case, cx: &mut Cx) -> Verdict {
    const MENU: &[Op] = &[
        New, NewInner, NewFrom, New, Take, TakeVia, Look, DropVal, Abandon, Replace, Unbox, UnboxDrop, Raw, Hold, BoxVal,
        Carry, Crowd,
    ];
    history::<S>(case, cx, MENU, false)
}

/// C06: heap blocks over histories
pub fn c06<S: Subject>(case: &Case, cx: &mut Cx) -> Verdict {
    const MENU: &[Op] = &[
        New, NewInner, New, Take, Look, Unbox, UnboxDrop, Raw, BoxVal, TakeVia, Replace, Abandon, Crowd,
    ];
    history::<S>(case, cx, MENU, true)
}

/// C08: container round trips over histories
pub fn c08<S: Subject>(case: &Case, cx: &mut Cx) -> Verdict {
    const MENU: &[Op] = &[New, New, NewFrom, Take, Swap, Carry, Hold, BoxVal, DropVal, Take, Crowd, New];
    history::<S>(case, cx, MENU, false)
}

/// C09: the conversions of the inner enum, mixed with the container's
pub fn c09<S: Subject>(case: &Case, cx: &mut Cx) -> Verdict {
    // Each case: one value sent along a chain of conversions
    let mut head = Src::new(&case[0]);
    let (v, mut p) = pick::<S>(&mut head, cx);
    let e = S::build(v, &mut p);
    let sig = sig_of::<S>(&e);
    cx.step(|| format!("value {}", show(&sig)));
    cx.nontrivial = sig.words.len() > 1 || sig.zsts > 0;
    let mut e = Some(e);
    let mut chain: Vec<u64> = case.iter().flat_map(|o| o.iter().copied()).skip(2).take(24).collect();
    chain.push(0);
    for how in chain {
        let x = e.take().unwrap();
        let inn = how & 1 == 0;
        let b: TaggedBox<S::E> = if how & 1 == 0 { x.into_tagged_box() } else { S::unwrap(S::C::from(x)) };
        ensure!(b.discriminant() as usize == v, "variant {v} is stored with the tag {}", b.discriminant());
        let b = if how & 2 == 0 {
            b
        } else {
            let d = b.discriminant();
            unsafe { TaggedBox::from_raw(TaggedBox::into_raw::<u8>(b), d) }
        };
        same("ref_from_tagged_box", &view::<S>(&b)?, &sig)?;
        let c = S::wrap(b);
        leaves::<S>(&c, v, cx);
        let y = if how & 4 == 0 {
            cx.label("from_tagged_box");
            S::E::from_tagged_box(S::unwrap(c))
        } else {
            cx.label("container into_inner");
            c.into_inner()
        };
        let got = sig_of::<S>(&y);
        cx.step(|| {
            format!(
                "{} -> {}{}",
                if inn { "into_tagged_box" } else { "C::from" },
                if how & 2 == 0 { "" } else { "raw -> " },
                if how & 4 == 0 { "from_tagged_box" } else { "into_inner" }
            )
        });
        if got != sig {
            std::mem::forget(y);
            return same("after the round trip", &got, &sig);
        }
        e = Some(y);
    }
    drop(e);
    ensure!(track::alive().is_empty() && track::zst_live() == 0, "something is still alive after the value was dropped");
    Ok(())
}

/// C10: access by reference
pub fn c10<S: Subject>(case: &Case, cx: &mut Cx) -> Verdict {
    let mut w = World::<S>::new();
    let mut go = || -> Verdict {
        for op in case {
            let mut s = Src::new(op);
            let what = s.below(10);
            if what < 2 || w.boxes.is_empty() {
                w.step(New, &mut s, cx)?;
                continue;
            }
            if what > 7 {
                cx.label("ref:after a write");
                w.step(Replace, &mut s, cx)?;
                w.audit("after a write")?;
                for (i, (c, sig)) in w.boxes.iter().enumerate() {
                    same(&format!("box {i} after a write"), &view::<S>(S::peek(c))?, sig)?;
                }
                continue;
            }
            let n = w.boxes.len();
            let (i, j, k) = (s.below(n), s.below(n), s.below(n));
            let (a, b, d) = (&w.boxes[i], &w.boxes[j], &w.boxes[k]);
            cx.nontrivial |= a.1.words.len() > 1;
            let before = addr::<S>(&a.0);
            match what {
                2 => {
                    cx.label("ref:plain");
                    cx.step(|| format!("view {i}"));
                    same("the callback", &view::<S>(S::peek(&a.0))?, &a.1)?;
                }
                3 => {
                    cx.label("ref:nested");
                    cx.step(|| format!("view {i}, in it {j}, in it {k}"));
                    let mut seen = Vec::new();
                    unsafe {
                        S::E::ref_from_tagged_box(S::peek(&a.0), |x| {
                            S::E::ref_from_tagged_box(S::peek(&b.0), |y| {
                                S::E::ref_from_tagged_box(S::peek(&d.0), |z| {
                                    seen.push([sig_of::<S>(x), sig_of::<S>(y), sig_of::<S>(z)]);
                                });
                            });
                        });
                    }
                    ensure!(seen.len() == 1, "nested callbacks were called {} times", seen.len());
                    same("outer callback", &seen[0][0], &a.1)?;
                    same("middle callback", &seen[0][1], &b.1)?;
                    same("inner callback", &seen[0][2], &d.1)?;
                }
                4 => {
                    cx.label("ref:panic");
                    cx.step(|| format!("view {i}, panic in it"));
                    let mut n = 0;
                    let r = quietly(|| unsafe {
                        S::E::ref_from_tagged_box(S::peek(&a.0), |x| {
                            n += 1;
                            let _ = sig_of::<S>(x);
                            std::panic::resume_unwind(Box::new("from the callback"));
                        })
                    });
                    ensure!(n == 1, "the callback was called {n} times");
                    ensure!(
                        r == Err("from the callback".to_string()),
                        "the panic of the callback came out as {r:?}"
                    );
                }
                6 => {
                    // The callback boxes, views and takes out other values
                    cx.label("ref:busy");
                    cx.step(|| format!("view {i}, boxing and unboxing in it"));
                    let (v, p) = pick::<S>(&mut s, cx);
                    let mut seen: Vec<[Sig; 2]> = Vec::new();
                    let mut inside: Vec<Result<[Sig; 3], String>> = Vec::new();
                    let mut blocks = Vec::new();
                    unsafe {
                        S::E::ref_from_tagged_box(S::peek(&a.0), |x| {
                            let first = sig_of::<S>(x);
                            for k in 0..2 {
                                let e = S::build(v, &mut p.clone());
                                let made = sig_of::<S>(&e);
                                let c = if k == 0 { S::C::from(e) } else { S::wrap(e.into_tagged_box()) };
                                if S::foot(v).most > 0 {
                                    blocks.extend(ledger::serial(addr::<S>(&c)).map(|n| (addr::<S>(&c), n)));
                                }
                                let shown = view::<S>(S::peek(&c));
                                let e = if k == 0 { S::E::from_tagged_box(S::unwrap(c)) } else { c.into_inner() };
                                let out = sig_of::<S>(&e);
                                if out != made {
                                    std::mem::forget(e);
                                }
                                inside.push(shown.map(|shown| [made, shown, out]));
                            }
                            seen.push([first, sig_of::<S>(x)]);
                        });
                    }
                    cx.left.extend(blocks);
                    ensure!(seen.len() == 1, "the callback was called {} times", seen.len());
                    for k in inside {
                        let [made, shown, out] = k?;
                        same("a view in the callback", &shown, &made)?;
                        same("taken out in the callback", &out, &made)?;
                    }
                    same("the callback", &seen[0][0], &a.1)?;
                    same("the callback after boxing other values", &seen[0][1], &a.1)?;
                }
                7 => {
                    cx.label("ref:panic within");
                    cx.step(|| format!("view {i}, in it {j}, panic there, view {k} on"));
                    let (mut n, mut seen) = (0, Vec::new());
                    unsafe {
                        S::E::ref_from_tagged_box(S::peek(&a.0), |x| {
                            let r = quietly(|| {
                                S::E::ref_from_tagged_box(S::peek(&b.0), |y| {
                                    n += 1;
                                    let _ = sig_of::<S>(y);
                                    std::panic::resume_unwind(Box::new("from within"));
                                })
                            });
                            seen.push((r, sig_of::<S>(x), view::<S>(S::peek(&d.0))));
                        });
                    }
                    ensure!(n == 1 && seen.len() == 1, "the callbacks were called {n} and {} times", seen.len());
                    let (r, x, z) = seen.pop().unwrap();
                    ensure!(r == Err("from within".to_string()), "the panic of the inner callback came out as {r:?}");
                    same("the callback after a panic within", &x, &a.1)?;
                    same("a view after a panic within", &z?, &d.1)?;
                }
                _ => {
                    cx.label("ref:moved");
                    cx.step(|| format!("view {i} twice, moving the box between"));
                    same("first view", &view::<S>(S::peek(&a.0))?, &a.1)?;
                    let (c, sig) = w.boxes.swap_remove(i);
                    let c = *Box::new(c);
                    let got = view::<S>(S::peek(&c))?;
                    w.boxes.push((c, sig));
                    same("second view", &got, &w.boxes.last().unwrap().1)?;
                    w.audit("after a view")?;
                    continue;
                }
            }
            ensure!(addr::<S>(&w.boxes[i].0) == before, "a view changed the box's address");
            w.audit("after a view")?;
            for (i, (c, sig)) in w.boxes.iter().enumerate() {
                same(&format!("box {i} after a view"), &view::<S>(S::peek(c))?, sig)?;
            }
        }
        w.finish(&mut Src::new(&[]), cx)
    };
    let r = go();
    if r.is_err() {
        w.give_up();
    }
    r
}

/// C11: tags
pub fn c11<S: Subject>(case: &Case, cx: &mut Cx) -> Verdict {
    let max = MAX_DISCRIMINANT as u64;
    for op in case {
        let mut s = Src::new(op);
        match s.below(4) {
            0 | 1 => {
                let (v, mut p) = pick::<S>(&mut s, cx);
                cx.label("tag:valid");
                cx.nontrivial |= v > 0;
                let e = S::build(v, &mut p);
                let sig = sig_of::<S>(&e);
                cx.step(|| format!("store {}", show(&sig)));
                let b = e.into_tagged_box();
                ensure!(
                    b.discriminant() as usize == v,
                    "the variant declared at {v} is stored with the tag {}",
                    b.discriminant()
                );
                let c = S::wrap(b);
                leaves::<S>(&c, v, cx);
                let e = c.into_inner();
                let got = S::variant(&e);
                if got != v {
                    std::mem::forget(e);
                    return Err(format!("tag {v} was read back as the variant declared at {got}"));
                }
            }
            2 => {
                if S::NVAR as u64 > max {
                    continue;
                }
                // A tag no variant has
                let room = max - S::NVAR as u64 + 1;
                let d = (S::NVAR as u64 + s.next() % room) as Discriminant;
                let how = s.below(3);
                cx.label("tag:unknown");
                cx.nontrivial = true;
                cx.step(|| format!("read tag {d} of {} variants, way {how}", S::NVAR));
                let mk = || TaggedBox::<S::E>::dangling::<S::E>(d);
                let mut called = false;
                let r = quietly(|| match how {
                    0 => Some(S::wrap(mk()).into_inner()),
                    1 => Some(S::E::from_tagged_box(mk())),
                    _ => {
                        unsafe { S::E::ref_from_tagged_box(&mk(), |_| called = true) };
                        None
                    }
                });
                ensure!(!called, "the callback was called for the unknown tag {d}");
                if let Ok(x) = r {
                    std::mem::forget(x);
                    return Err(format!("reading the unknown tag {d} didn't panic"));
                }
            }
            _ => {
                if S::NVAR as u64 <= max + 1 || S::NVAR > 256 {
                    continue;
                }
                // A variant for which there is no tag
                let over = S::NVAR - (max as usize + 1);
                let v = max as usize + 1 + s.below(over);
                cx.label("tag:none left");
                cx.nontrivial = true;
                let e = S::build(v, &mut s.pay());
                let how = s.below(2);
                cx.step(|| format!("store variant {v} where the largest tag is {max}"));
                let r = quietly(|| if how == 0 { S::C::from(e) } else { S::wrap(e.into_tagged_box()) });
                if let Ok(c) = r {
                    let got = S::peek(&c).discriminant();
                    return Err(format!("variant {v}, for which there is no tag, was stored with the tag {got}"));
                }
            }
        }
    }
    Ok(())
}

/// C12: From conversions
pub fn c12<S: Subject>(case: &Case, cx: &mut Cx) -> Verdict {
    for op in case {
        let mut s = Src::new(op);
        let (v, p) = pick::<S>(&mut s, cx);
        let has = matches!(S::kind(v), Kind::Empty | Kind::Single | Kind::Multi(_));
        match S::from_payload(v, &mut p.clone()) {
            Some((c, sig)) => {
                cx.label("from:contents");
                cx.nontrivial |= sig.words.len() > 1;
                cx.step(|| format!("from contents: {}", show(&sig)));
                ensure!(
                    S::peek(&c).discriminant() as usize == v,
                    "the contents of variant {v} became the variant with tag {}",
                    S::peek(&c).discriminant()
                );
                same("view of a box made from contents", &view::<S>(S::peek(&c))?, &sig)?;
                leaves::<S>(&c, v, cx);
                let e = c.into_inner();
                let got = sig_of::<S>(&e);
                if got != sig {
                    std::mem::forget(e);
                    return same("box made from contents", &got, &sig);
                }
                // The same as by the variant itself
                let d = S::C::from(S::build(v, &mut p.clone()));
                let want = view::<S>(S::peek(&d))?;
                leaves::<S>(&d, v, cx);
                let f = d.into_inner();
                alike("made from contents and from the variant", &got, &want)?;
                drop(f);
                drop(e);
            }
            None => {
                ensure!(!has, "harness: no conversion for variant {v}");
                cx.label("from:variant only");
                let e = S::build(v, &mut p.clone());
                let sig = sig_of::<S>(&e);
                let c = S::C::from(e);
                leaves::<S>(&c, v, cx);
                let e = c.into_inner();
                let got = sig_of::<S>(&e);
                if got != sig {
                    std::mem::forget(e);
                    return same("box made from variant", &got, &sig);
                }
            }
        }
    }
    ensure!(track::alive().is_empty() && track::zst_live() == 0, "a converted value was duplicated or lost");
    Ok(())
}

/// C07: copies of Copy containers
pub fn c07<S: Subject>(case: &Case, cx: &mut Cx) -> Verdict
where
    S::E: Copy,
    S::C: Copy,
{
    let mut all: Vec<(S::C, Sig, u64)> = Vec::new();
    let mut group = 0;
    let mut taken = std::collections::BTreeSet::new();
    let check = |all: &Vec<(S::C, Sig, u64)>, when: &str| -> Verdict {
        for (i, (c, sig, _)) in all.iter().enumerate() {
            same(&format!("copy {i} {when}"), &view::<S>(S::peek(c))?, sig)?;
        }
        Ok(())
    };
    for op in case {
        let mut s = Src::new(op);
        let what = s.below(8);
        if what < 2 || all.is_empty() {
            let (v, mut p) = pick::<S>(&mut s, cx);
            let e = S::build(v, &mut p);
            let sig = sig_of::<S>(&e);
            cx.step(|| format!("new {}", show(&sig)));
            let c = S::C::from(e);
            leaves::<S>(&c, v, cx);
            all.push((c, sig, group));
            group += 1;
            check(&all, "after a new one was made")?;
            continue;
        }
        let i = s.below(all.len());
        match what {
            2 => {
                cx.step(|| format!("copy {i}"));
                let (c, sig, g) = &all[i];
                let d = *c;
                all.push((d, sig.clone(), *g));
            }
            3 => {
                cx.step(|| format!("clone {i}"));
                let (c, sig, g) = &all[i];
                #[allow(clippy::clone_on_copy)]
                let d = c.clone();
                leaves::<S>(&d, sig.words[0] as usize, cx);
                all.push((d, sig.clone(), *g));
            }
            4 => {
                // The original stays in use: `into_inner` gets a copy
                cx.step(|| format!("into_inner of a copy of {i}"));
                let (c, sig, g) = &all[i];
                cx.label("taken out of a copy");
                taken.insert(*g);
                same("into_inner of a copy", &sig_of::<S>(&(*c).into_inner()), sig)?;
            }
            5 => {
                cx.step(|| format!("from_tagged_box of a copy of {i}"));
                let (c, sig, g) = &all[i];
                cx.label("taken out of a copy");
                taken.insert(*g);
                same("from_tagged_box of a copy", &sig_of::<S>(&S::E::from_tagged_box(*S::peek(c))), sig)?;
            }
            6 => {
                cx.step(|| format!("drop {i}"));
                drop(all.swap_remove(i));
            }
            _ => {
                cx.step(|| format!("view {i}"));
                let (c, sig, g) = &all[i];
                if taken.contains(g) {
                    cx.label("used after a copy was taken out");
                    cx.nontrivial = true;
                }
                same("view of a copy", &view::<S>(S::peek(c))?, sig)?;
            }
        }
        check(&all, "after the step")?;
    }
    for (i, (c, sig, _)) in all.iter().enumerate() {
        same(&format!("copy {i} at the end"), &sig_of::<S>(&(*c).into_inner()), sig)?;
    }
    Ok(())
}

fn distinct(how: &str, a: &Sig, b: &Sig) -> Verdict {
    ensure!(a.ids.iter().all(|i| !b.ids.contains(i)), "{how}: the clone holds the original's own value");
    Ok(())
}

/// C13: clones
pub fn c13<S: Subject>(case: &Case, cx: &mut Cx) -> Verdict
where
    S::E: Clone,
    S::C: Clone,
{
    let mut w = World::<S>::new();
    let mut go = || -> Verdict {
        for op in case {
            let mut s = Src::new(op);
            let what = s.below(12);
            if what < 2 || w.boxes.is_empty() {
                w.step(New, &mut s, cx)?;
            } else if what < 6 {
                let i = s.below(w.boxes.len());
                let (c, sig) = &w.boxes[i];
                let v = sig.words[0] as usize;
                cx.step(|| format!("clone {i} {}", if what < 4 && !S::COPY { "(container)" } else { "(box)" }));
                cx.label("cloned");
                let d = if what < 4 && !S::COPY { c.clone() } else { S::wrap(S::peek(c).clone()) };
                let got = view::<S>(S::peek(&d))?;
                alike("the clone", &got, sig)?;
                distinct("the clone", &got, sig)?;
                cx.nontrivial |= got.words.len() > 1;
                if S::foot(v).most > 0 {
                    ensure!(addr::<S>(c) != addr::<S>(&d), "the clone shares the original's heap block");
                }
                same("the original after cloning", &view::<S>(S::peek(c))?, sig)?;
                w.boxes.push((d, got));
            } else if what > 9 && w.boxes.len() > 1 {
                let (mut c, old) = w.boxes.swap_remove(0);
                let i = s.below(w.boxes.len());
                let (from, sig) = &w.boxes[i];
                cx.step(|| format!("clone_from {i} {}", if what == 10 && !S::COPY { "(container)" } else { "(box)" }));
                cx.label("cloned over another");
                leaves::<S>(&c, old.words[0] as usize, cx);
                w.gone.extend(&old.ids);
                w.gone_zsts += old.zsts;
                if what == 10 && !S::COPY {
                    c.clone_from(from);
                } else {
                    S::peek_mut(&mut c).clone_from(S::peek(from));
                }
                let got = view::<S>(S::peek(&c))?;
                alike("the clone over another", &got, sig)?;
                distinct("the clone over another", &got, sig)?;
                if S::foot(sig.words[0] as usize).most > 0 {
                    ensure!(addr::<S>(from) != addr::<S>(&c), "the clone shares the original's heap block");
                }
                w.boxes.push((c, got));
            } else {
                let o = [Replace, Take, DropVal, Abandon, Swap, Carry][what - 6];
                w.step(o, &mut s, cx)?;
            }
            w.audit("after the step")?;
            for (i, (c, sig)) in w.boxes.iter().enumerate() {
                same(&format!("box {i}"), &view::<S>(S::peek(c))?, sig)?;
            }
        }
        w.finish(&mut Src::new(&[]), cx)
    };
    let r = go();
    if r.is_err() {
        w.give_up();
    }
    r
}

/// Two payloads: often the same, or the same variant
fn two<S: Subject>(s: &mut Src, cx: &mut Cx) -> [(usize, Pay); 2] {
    let (v, p) = pick::<S>(s, cx);
    let (v2, p2) = pick::<S>(s, cx);
    match s.below(4) {
        0 => {
            cx.label("pair:equal");
            [(v, p.clone()), (v, p)]
        }
        1 => {
            cx.label("pair:same variant");
            [(v, p), (v, p2)]
        }
        _ => {
            cx.label("pair:any");
            [(v, p), (v2, p2)]
        }
    }
}

fn pair<S: Subject>(x: &(usize, Pay), cx: &mut Cx) -> (S::E, S::C) {
    let e = S::build(x.0, &mut x.1.clone());
    let c = S::C::from(S::build(x.0, &mut x.1.clone()));
    leaves::<S>(&c, x.0, cx);
    (e, c)
}

#[allow(clippy::eq_op)]
fn compare<E: PartialEq + PartialOrd, X: PartialEq + PartialOrd>(what: &str, a: &E, b: &E, x: &X, y: &X, cx: &mut Cx) -> Verdict {
    for (l, (a, b, x, y)) in [("", (a, b, x, y)), (" (swapped)", (b, a, y, x)), (" (with itself)", (a, a, x, x))] {
        let eq = a == b;
        ensure!((x == y) == eq, "{what} == {what}{l} is {}, for the values it is {eq}", !eq);
        ensure!((x != y) == (a != b), "{what} != {what}{l} is {}, for the values it is {}", x != y, a != b);
        let o = a.partial_cmp(b);
        ensure!(x.partial_cmp(y) == o, "{what}{l} is ordered {:?}, the values {o:?}", x.partial_cmp(y));
        ensure!((x < y) == (a < b), "{what} < {what}{l} is {}, for the values it is {}", x < y, a < b);
        ensure!((x <= y) == (a <= b), "{what} <= {what}{l} is {}, for the values it is {}", x <= y, a <= b);
        ensure!((x > y) == (a > b), "{what} > {what}{l} is {}, for the values it is {}", x > y, a > b);
        ensure!((x >= y) == (a >= b), "{what} >= {what}{l} is {}, for the values it is {}", x >= y, a >= b);
        cx.label(match o {
            None => "order:none",
            Some(std::cmp::Ordering::Equal) => "order:equal",
            _ => "order:unequal",
        });
    }
    Ok(())
}

/// C14: comparisons of boxes
pub fn c14<S: Subject>(case: &Case, cx: &mut Cx) -> Verdict
where
    S::E: PartialEq + PartialOrd,
{
    for op in case {
        let mut s = Src::new(op);
        let [x, y] = two::<S>(&mut s, cx);
        let ((a, c), (b, d)) = (pair::<S>(&x, cx), pair::<S>(&y, cx));
        let (sc, sd) = (view::<S>(S::peek(&c))?, view::<S>(S::peek(&d))?);
        cx.step(|| format!("compare {} with {}", show(&sc), show(&sd)));
        cx.nontrivial |= sc.words.len() > 1 || sd.words.len() > 1;
        compare("box", &a, &b, S::peek(&c), S::peek(&d), cx)?;
        same("box after the comparison", &view::<S>(S::peek(&c))?, &sc)?;
        same("box after the comparison", &view::<S>(S::peek(&d))?, &sd)?;
        drop((a, b));
        drop((c.into_inner(), d.into_inner()));
        ensure!(track::alive().is_empty() && track::zst_live() == 0, "a compared value was duplicated or lost");
    }
    Ok(())
}

/// C14: comparisons of containers
pub fn c14_container<S: Subject>(case: &Case, cx: &mut Cx) -> Verdict
where
    S::E: PartialEq + PartialOrd,
    S::C: PartialEq + PartialOrd,
{
    for op in case {
        let mut s = Src::new(op);
        let [x, y] = two::<S>(&mut s, cx);
        let ((a, c), (b, d)) = (pair::<S>(&x, cx), pair::<S>(&y, cx));
        cx.step(|| format!("compare {} with {}", show(&sig_of::<S>(&a)), show(&sig_of::<S>(&b))));
        cx.nontrivial |= x.0 == y.0;
        compare("container", &a, &b, &c, &d, cx)?;
        drop((a, b));
        drop((c.into_inner(), d.into_inner()));
        ensure!(track::alive().is_empty() && track::zst_live() == 0, "a compared value was duplicated or lost");
    }
    Ok(())
}

/// The same shuffle of both
fn shuffle<A, B>(a: &mut [A], b: &mut [B], seed: usize) {
    let n = a.len();
    for i in 0..n {
        let j = (seed + i * 7 + 3) % n;
        a.swap(i, j);
        b.swap(i, j);
    }
}

/// C14: total order
pub fn c14_ord<S: Subject>(case: &Case, cx: &mut Cx) -> Verdict
where
    S::E: Ord,
{
    let mut vals = Vec::new();
    let mut boxes = Vec::new();
    for op in case {
        let mut s = Src::new(op);
        let [x, y] = two::<S>(&mut s, cx);
        for z in [&x, &y] {
            let (e, c) = pair::<S>(z, cx);
            vals.push(e);
            boxes.push(S::unwrap(c));
        }
    }
    vals.truncate(24);
    boxes.truncate(24);
    cx.nontrivial = vals.len() > 4;
    cx.step(|| format!("sort {} boxes", vals.len()));
    for i in 0..vals.len() {
        for j in 0..vals.len() {
            let (o, q) = (vals[i].cmp(&vals[j]), boxes[i].cmp(&boxes[j]));
            cx.label(if o.is_eq() { "order:equal" } else { "order:unequal" });
            ensure!(
                o == q,
                "boxes {i} and {j} are ordered {q:?}, their values {o:?}: {} and {}",
                show(&sig_of::<S>(&vals[i])),
                show(&sig_of::<S>(&vals[j]))
            );
        }
    }
    vals.sort();
    boxes.sort();
    for (e, b) in vals.iter().zip(&boxes) {
        alike("sorted boxes and sorted values", &view::<S>(b)?, &sig_of::<S>(e))?;
    }
    let top = boxes.iter().max().map(|b| view::<S>(b)).transpose()?;
    let want = vals.iter().max().map(|e| sig_of::<S>(e));
    if let (Some(t), Some(w)) = (top, want) {
        alike("the largest", &t, &w)?;
    }
    // max, min and clamp give one of their operands: of equal ones, the same as for the values
    shuffle(&mut vals, &mut boxes, case.len());
    while vals.len() > 2 {
        let how = vals.len() % 3;
        let mut next = || (vals.pop().unwrap(), boxes.pop().unwrap());
        let ((e, b), (f, c)) = (next(), next());
        let (e, b, l) = match how {
            0 => (e.max(f), b.max(c), "max"),
            1 => (e.min(f), b.min(c), "min"),
            _ => {
                let (g, d) = next();
                let swap = f > g;
                let (lo, hi) = if swap { (g, f) } else { (f, g) };
                let (low, high) = if swap { (d, c) } else { (c, d) };
                (e.clamp(lo, hi), b.clamp(low, high), "clamp")
            }
        };
        cx.label(l);
        alike(&format!("{l} of boxes"), &view::<S>(&b)?, &sig_of::<S>(&e))?;
        // The loser is gone, the winner plays on every other time
        if how == 0 {
            vals.push(e);
            boxes.push(b);
        }
    }
    Ok(())
}

/// Writes into a buffer of limited room
struct Tight {
    room: usize,
    got: String,
}
impl std::fmt::Write for Tight {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for c in s.chars() {
            if self.room == 0 {
                return Err(std::fmt::Error);
            }
            self.room -= 1;
            self.got.push(c);
        }
        Ok(())
    }
}

/// How the specs below are called in reports, and the texts they give
const DEBUG_SPECS: [&str; 12] =
    ["{:?}", "{:#?}", "{:x?}", "{:X?}", "{:w$?}", "{:<w$?}", "{:^w$.p$?}", "{:+?}", "{:08?}", "{:.p$?}", "{:*>+#w$.p$?}", "{:#010x?}"];
fn debug_to<X: std::fmt::Debug>(o: &mut dyn std::fmt::Write, n: usize, w: usize, p: usize, x: &X) -> std::fmt::Result {
    match n {
        0 => write!(o, "{x:?}"),
        1 => write!(o, "{x:#?}"),
        2 => write!(o, "{x:x?}"),
        3 => write!(o, "{x:X?}"),
        4 => write!(o, "{x:w$?}"),
        5 => write!(o, "{x:<w$?}"),
        6 => write!(o, "{x:^w$.p$?}"),
        7 => write!(o, "{x:+?}"),
        8 => write!(o, "{x:08?}"),
        9 => write!(o, "{x:.p$?}"),
        10 => write!(o, "{x:*>+#w$.p$?}"),
        _ => write!(o, "{x:#010x?}"),
    }
}
const DISPLAY_SPECS: [&str; 10] =
    ["{}", "{:#}", "{:w$}", "{:<w$}", "{:^w$}", "{:_>w$.p$}", "{:.p$}", "{:+}", "{:08}", "{:*^#w$.p$}"];
fn display_to<X: std::fmt::Display>(o: &mut dyn std::fmt::Write, n: usize, w: usize, p: usize, x: &X) -> std::fmt::Result {
    match n {
        0 => write!(o, "{x}"),
        1 => write!(o, "{x:#}"),
        2 => write!(o, "{x:w$}"),
        3 => write!(o, "{x:<w$}"),
        4 => write!(o, "{x:^w$}"),
        5 => write!(o, "{x:_>w$.p$}"),
        6 => write!(o, "{x:.p$}"),
        7 => write!(o, "{x:+}"),
        8 => write!(o, "{x:08}"),
        _ => write!(o, "{x:*^#w$.p$}"),
    }
}

/// The same text of a value and of its box, whole and to a writer which fails on the way
fn printed(
    what: &str,
    spec: &str,
    room: usize,
    value: &dyn Fn(&mut dyn std::fmt::Write) -> std::fmt::Result,
    boxed: &dyn Fn(&mut dyn std::fmt::Write) -> std::fmt::Result,
    cx: &mut Cx,
) -> Verdict {
    let (mut want, mut got) = (String::new(), String::new());
    let (r, q) = (value(&mut want), boxed(&mut got));
    cx.step(|| format!("{spec} -> {want}"));
    texts(what, spec, &got, &want)?;
    ensure!(r.is_ok() == q.is_ok(), "{what} as {spec} gives {q:?}, the value {r:?}");
    let (mut want, mut got) = (Tight { room, got: String::new() }, Tight { room, got: String::new() });
    let (r, q) = (value(&mut want), boxed(&mut got));
    if r.is_err() {
        cx.label("fmt:writer fails");
    }
    ensure!(r.is_ok() == q.is_ok(), "{what} as {spec} to a writer with room for {room} gives {q:?}, the value {r:?}");
    texts(what, spec, &got.got, &want.got)
}

fn texts(what: &str, spec: &str, got: &str, want: &str) -> Verdict {
    ensure!(got == want, "{what} as {spec} is {got:?}, the value's is {want:?}");
    Ok(())
}

fn debugged<E: std::fmt::Debug, X: std::fmt::Debug>(what: &str, e: &E, x: &X, s: &mut Src, cx: &mut Cx) -> Verdict {
    let (n, w, p, room) = (s.below(12), s.below(40), s.below(6), s.below(30));
    cx.label("fmt:debug");
    cx.nontrivial |= n > 0;
    printed(what, DEBUG_SPECS[n], room, &|o| debug_to(o, n, w, p, e), &|o| debug_to(o, n, w, p, x), cx)
}

/// C15: Debug and Display of boxes
pub fn c15<S: Subject>(case: &Case, cx: &mut Cx) -> Verdict
where
    S::E: std::fmt::Debug + std::fmt::Display + Clone,
{
    for op in case {
        let mut s = Src::new(op);
        let (v, p) = pick::<S>(&mut s, cx);
        let (e, c) = pair::<S>(&(v, p), cx);
        let b = S::peek(&c);
        debugged("Debug of the box", &e, b, &mut s.clone(), cx)?;
        let (n, w, p, room) = (s.below(10), s.below(40), s.below(6), s.below(30));
        cx.label("fmt:display");
        let (v, x): (&S::E, &TaggedBox<S::E>) = (&e, b);
        printed("Display of the box", DISPLAY_SPECS[n], room, &|o| display_to(o, n, w, p, v), &|o| display_to(o, n, w, p, x), cx)?;
        drop(e);
        drop(c.into_inner());
        ensure!(track::alive().is_empty() && track::zst_live() == 0, "a printed value was duplicated or lost");
    }
    Ok(())
}

/// C15: Debug of containers: that of a struct of the same name with the enum as its `value`
pub fn c15_container<S: Subject, M: std::fmt::Debug>(case: &Case, cx: &mut Cx, mirror: fn(S::E) -> M) -> Verdict
where
    S::C: std::fmt::Debug,
{
    for op in case {
        let mut s = Src::new(op);
        let (v, p) = pick::<S>(&mut s, cx);
        let (e, c) = pair::<S>(&(v, p), cx);
        let m = mirror(e);
        debugged("Debug of the container", &m, &c, &mut s, cx)?;
        drop(m);
        drop(c.into_inner());
        ensure!(track::alive().is_empty() && track::zst_live() == 0, "a printed value was duplicated or lost");
    }
    Ok(())
}

/// C16: addresses as numbers
pub fn c16<S: Subject>(case: &Case, cx: &mut Cx) -> Verdict {
    for op in case {
        let mut s = Src::new(op);
        let (v, mut p) = pick::<S>(&mut s, cx);
        let c = S::C::from(S::build(v, &mut p));
        leaves::<S>(&c, v, cx);
        let b = S::peek(&c);
        let a = b.as_ptr::<u8>() as u64;
        cx.nontrivial |= v > 0;
        crate::ptr::numbers("box", a, b, &mut s, cx)?;
        drop(c.into_inner());
    }
    Ok(())
}

/// C18: one word
pub fn c18<S: Subject>(case: &Case, cx: &mut Cx) -> Verdict {
    use std::mem::{align_of, size_of};
    ensure!(size_of::<S::C>() == 8, "a container takes {} bytes", size_of::<S::C>());
    ensure!(size_of::<TaggedBox<S::E>>() == 8, "a box takes {} bytes", size_of::<TaggedBox<S::E>>());
    ensure!(
        align_of::<S::C>() == align_of::<u64>() && align_of::<TaggedBox<S::E>>() == align_of::<u64>(),
        "a container is aligned to {}",
        align_of::<S::C>()
    );
    for op in case {
        let mut s = Src::new(op);
        let (v, mut p) = pick::<S>(&mut s, cx);
        let e = S::build(v, &mut p);
        let sig = sig_of::<S>(&e);
        let c = S::C::from(e);
        leaves::<S>(&c, v, cx);
        let a = addr::<S>(&c) as u64;
        let raw: u64 = unsafe { std::mem::transmute_copy(&c) };
        let d = S::peek(&c).discriminant() as u64;
        let w = tagged_box::discriminant::POINTER_WIDTH;
        cx.step(|| format!("{} -> {raw:#x}", show(&sig)));
        cx.nontrivial |= v > 0 && S::foot(v).most > 0;
        ensure!(d == v as u64 && raw == a | (d << w), "the word {raw:#x} isn't tag {v} above address {a:#x}");
        if S::foot(v).most > 0 {
            ensure!(a as usize % S::foot(v).align == 0, "the contents at {a:#x} aren't aligned to {}", S::foot(v).align);
        }
        // The container is its word: rebuilt from it, it's the same container
        std::mem::forget(c);
        let c: S::C = unsafe { std::mem::transmute_copy(&raw) };
        let e = c.into_inner();
        let got = sig_of::<S>(&e);
        if got != sig {
            std::mem::forget(e);
            return same("container rebuilt from its word", &got, &sig);
        }
        // And so is the box
        let b = e.into_tagged_box();
        let a = b.as_ptr::<u8>() as u64;
        let raw: u64 = unsafe { std::mem::transmute_copy(&b) };
        ensure!(raw == a | ((v as u64) << w), "the word {raw:#x} isn't tag {v} above address {a:#x}");
        std::mem::forget(b);
        let b: TaggedBox<S::E> = unsafe { std::mem::transmute_copy(&raw) };
        leaves::<S>(&S::wrap(unsafe { std::mem::transmute_copy(&raw) }), v, cx);
        let e = S::E::from_tagged_box(b);
        let got = sig_of::<S>(&e);
        if got != sig {
            std::mem::forget(e);
            return same("box rebuilt from its word", &got, &sig);
        }
    }
    Ok(())
}

/// C21: the allocator has no memory
pub fn c21<S: Subject>(case: &Case, cx: &mut Cx) -> Verdict {
    out_of_memory::<S>(case, cx, None)
}

/// C21: nor has it for a clone
pub fn c21_clone<S: Subject>(case: &Case, cx: &mut Cx) -> Verdict
where
    S::E: Clone,
    S::C: Clone,
{
    let how = case[0].get(6).copied().unwrap_or(0) % 3;
    out_of_memory::<S>(case, cx, Some(&move |c, d| match how {
        0 if !S::COPY => c.clone(),
        1 => {
            let mut d = d;
            S::peek_mut(&mut d).clone_from(S::peek(c));
            d
        }
        _ => S::wrap(S::peek(c).clone()),
    }))
}

fn out_of_memory<S: Subject>(case: &Case, cx: &mut Cx, clone: Option<&dyn Fn(&S::C, S::C) -> S::C>) -> Verdict {
    let mut s = Src::new(&case[0]);
    let (v, p) = pick::<S>(&mut s, cx);
    let how = s.below(3);
    let keep = s.below(3);
    // What will be asked for
    let e = S::build(v, &mut p.clone());
    let (c, st) = ledger::measure(|| S::C::from(e));
    leaves::<S>(&c, v, cx);
    drop(c.into_inner());
    if st.allocs == 0 {
        cx.label("no block needed");
        return Ok(());
    }
    cx.nontrivial = true;
    cx.step(|| format!("no memory for {} bytes of variant {v}, way {how}", st.last_size));
    let end = forked(|| {
        let mut w = World::<S>::new();
        let mut cx2 = Cx::default();
        for k in 0..keep {
            let _ = w.step(New, &mut Src::new(&[k as u64, k as u64 + 9]), &mut cx2);
        }
        let e = S::build(v, &mut p.clone());
        // What's cloned over
        let mut over = Some(S::C::from(S::build(0, &mut p.clone())));
        let was = view::<S>(S::peek(over.as_ref().unwrap())).unwrap_or_default();
        w.gone.extend(&was.ids);
        w.gone_zsts += was.zsts;
        let e = if clone.is_some() {
            let sig = sig_of::<S>(&e);
            w.boxes.push((S::C::from(e), sig));
            None
        } else {
            Some(e)
        };
        ledger::arm_failure(st.last_size, st.last_align);
        let r = quietly(|| match (clone, e) {
            (Some(f), _) => f(&w.boxes.last().unwrap().0, over.take().unwrap()),
            (None, None) => unreachable!(),
            (None, Some(e)) => match how {
            0 => S::C::from(e),
            1 => S::wrap(e.into_tagged_box()),
            _ => S::from_payload(v, &mut p.clone()).map_or_else(|| S::C::from(e), |c| c.0),
            },
        });
        let hits = ledger::disarm();
        let said = match &r {
            Ok(c) if hits > 0 => {
                return (
                    1,
                    format!("storing a variant without memory gave a box (address {:#x})", addr::<S>(c)),
                )
            }
            Ok(_) => return (2, String::new()),
            Err(m) => m.clone(),
        };
        if let Some(f) = track::take_fault() {
            return (1, f);
        }
        if let Err(m) = w.finish(&mut Src::new(&[]), &mut cx2) {
            return (1, format!("after storing failed: {m}"));
        }
        (0, said)
    });
    match end {
        End::Exit(0, _) => {
            cx.label("reported by a panic");
            Ok(())
        }
        End::Exit(2, _) => {
            cx.label("the failing request wasn't made");
            Ok(())
        }
        End::Exit(_, m) => Err(m),
        End::Signal(6, _) => {
            cx.label("reported by an abort");
            Ok(())
        }
        End::Signal(14 | 9, _) => Ok(()),
        End::Signal(n, _) => Err(format!(
            "storing a variant without memory ended the process by signal {n} ({})",
            tbx_engine::run::signal(n)
        )),
    }
}

/// C22: panics of user code
pub fn c22<S: Subject>(case: &Case, cx: &mut Cx) -> Verdict
where
    S::E: Clone + PartialEq + PartialOrd + std::fmt::Debug + std::fmt::Display,
    S::C: Clone + PartialEq + PartialOrd + std::fmt::Debug,
{
    let mut w = World::<S>::new();
    let mut go = || -> Verdict {
        for op in case {
            let mut s = Src::new(op);
            let what = s.below(13);
            if what < 2 || w.boxes.is_empty() {
                w.step(New, &mut s, cx)?;
                continue;
            }
            if what == 2 {
                w.step(Take, &mut s, cx)?;
                w.audit("after Take")?;
                continue;
            }
            let n = w.boxes.len();
            let (i, j) = (s.below(n), s.below(n));
            let fuse = 1 + s.below(6) as i64;
            if what > 10 {
                // Cloned over another box: that one keeps its value if the clone panics
                if i == j {
                    continue;
                }
                let name = if what == 11 { "clone_from (container)" } else { "clone_from (box)" };
                cx.step(|| format!("{name} of {i} over {j}, panic at user code call {fuse}"));
                let (mut c, old) = w.boxes.swap_remove(j);
                let i = if i == w.boxes.len() { j } else { i };
                let from = &w.boxes[i].0;
                let zsts = track::zst_live();
                leaves::<S>(&c, old.words[0] as usize, cx);
                track::light_fuse(fuse);
                let r = quietly(|| if what == 11 { c.clone_from(from) } else { S::peek_mut(&mut c).clone_from(S::peek(from)) });
                track::disarm_fuse();
                match r {
                    Ok(()) => {
                        w.gone.extend(&old.ids);
                        w.gone_zsts += old.zsts;
                        let sig = view::<S>(S::peek(&c))?;
                        alike(name, &sig, &w.boxes[i].1)?;
                        w.boxes.push((c, sig));
                    }
                    Err(m) => {
                        ensure!(m == "injected", "{name}: the panic of user code came out as {m:?}");
                        cx.label("panic:clone_from");
                        cx.nontrivial = true;
                        w.boxes.push((c, old));
                        ensure!(track::zst_live() == zsts, "{name}: {} zero-sized values more after the panic", track::zst_live() - zsts);
                    }
                }
                w.audit(name)?;
                for (i, (c, sig)) in w.boxes.iter().enumerate() {
                    same(&format!("box {i} after {name}"), &view::<S>(S::peek(c))?, sig)?;
                }
                continue;
            }
            let (c, d) = (&w.boxes[i].0, &w.boxes[j].0);
            let zsts = track::zst_live();
            let mut made: Option<S::C> = None;
            let name = ["clone container", "clone box", "==", "<", "partial_cmp", "{:?}", "view", "view in a view"][what - 3];
            cx.step(|| format!("{name} on {i} (and {j}), panic at user code call {fuse}"));
            track::light_fuse(fuse);
            let r = quietly(|| match what {
                3 => made = Some(c.clone()),
                4 => made = Some(S::wrap(S::peek(c).clone())),
                5 => {
                    let _ = c == d;
                }
                6 => {
                    let _ = S::peek(c) < S::peek(d);
                }
                7 => {
                    let _ = c.partial_cmp(d);
                }
                8 => {
                    let _ = format!("{:?}{}", c, S::peek(d));
                }
                10 => unsafe {
                    S::E::ref_from_tagged_box(S::peek(c), |x| {
                        S::E::ref_from_tagged_box(S::peek(d), |y| {
                            let _ = x == y;
                            let _ = x.clone();
                            let _ = y.clone();
                            track::light_fuse(1);
                            track::burn();
                        })
                    })
                },
                _ => unsafe {
                    S::E::ref_from_tagged_box(S::peek(c), |x| {
                        let y = x.clone();
                        track::light_fuse(1);
                        track::burn();
                        drop(y);
                    })
                },
            });
            track::disarm_fuse();
            match r {
                Ok(()) => cx.label("user code didn't panic"),
                Err(m) => {
                    ensure!(m == "injected", "{name}: the panic of user code came out as {m:?}");
                    cx.label(["panic:clone", "panic:clone", "panic:==", "panic:<", "panic:cmp", "panic:debug", "panic:view", "panic:view in a view"][what - 3]);
                    cx.nontrivial = true;
                }
            }
            if let Some(c) = made {
                let sig = view::<S>(S::peek(&c))?;
                w.boxes.push((c, sig));
            } else {
                ensure!(track::zst_live() == zsts, "{name}: {} zero-sized values more after the panic", track::zst_live() - zsts);
            }
            w.audit(name)?;
            for (i, (c, sig)) in w.boxes.iter().enumerate() {
                same(&format!("box {i} after {name}"), &view::<S>(S::peek(c))?, sig)?;
            }
        }
        w.finish(&mut Src::new(&[]), cx)
    };
    let r = go();
    if r.is_err() {
        w.give_up();
    }
    r
}

/// C22: panics of comparisons while sorting
pub fn c22_ord<S: Subject>(case: &Case, cx: &mut Cx) -> Verdict
where
    S::E: Ord,
{
    let mut boxes = Vec::new();
    let mut sigs = Vec::new();
    for op in case {
        let (v, mut p) = pick::<S>(&mut Src::new(op), cx);
        let e = S::build(v, &mut p);
        sigs.push(sig_of::<S>(&e));
        let c = S::C::from(e);
        leaves::<S>(&c, v, cx);
        boxes.push(S::unwrap(c));
    }
    let mut s = Src::new(&case[0][case[0].len().min(2)..]);
    for _ in 0..4 {
        let how = s.below(6);
        let fuse = 1 + s.below(30) as i64;
        let (i, j) = (s.below(boxes.len()), s.below(boxes.len()));
        let name = ["sort", "sort_unstable", "cmp", "max", "clamp", "binary_search"][how];
        cx.step(|| format!("{name} of {} boxes ({i} and {j}), panic at user code call {fuse}", boxes.len()));
        track::light_fuse(fuse);
        let r = quietly(|| match how {
            0 => boxes.sort(),
            1 => boxes.sort_unstable(),
            2 => drop(boxes[i].cmp(&boxes[j])),
            3 => drop((&boxes[i]).max(&boxes[j])),
            4 => drop((&boxes[i] <= &boxes[j]).then(|| (&boxes[0]).clamp(&boxes[i], &boxes[j]))),
            _ => drop(boxes.binary_search_by(|x| x.cmp(&boxes[i]))),
        });
        track::disarm_fuse();
        if let Err(m) = r {
            ensure!(m == "injected", "{name}: the panic of user code came out as {m:?}");
            cx.label("panic:ordering");
            cx.nontrivial = true;
        }
        // The same values, each once
        let mut left: Vec<&Sig> = sigs.iter().collect();
        for (k, b) in boxes.iter().enumerate() {
            let got = view::<S>(b)?;
            match left.iter().position(|s| **s == got) {
                Some(n) => drop(left.swap_remove(n)),
                None => return Err(format!("box {k} after {name} holds {}, which none held (or another holds too)", show(&got))),
            }
        }
    }
    let mut ids = sigs.iter().flat_map(|s| s.ids.clone()).collect::<Vec<_>>();
    ids.sort();
    ensure!(track::alive() == ids, "a value was dropped or duplicated");
    for b in boxes {
        drop(S::E::from_tagged_box(b));
    }
    ensure!(track::alive().is_empty() && track::zst_live() == 0, "a value was duplicated or lost");
    Ok(())
}

/// C24: blocks handed over as raw pointers and Boxes
pub fn c24<S: Subject>(case: &Case, cx: &mut Cx) -> Verdict {
    const MENU: &[Op] = &[New, NewInner, NewFrom, Unbox, UnboxDrop, Raw, Raw, Take, BoxVal, Replace, Crowd];
    history::<S>(case, cx, MENU, false)
}

/// C19: containers go between threads whole
pub fn c19<S: Subject>(case: &Case, cx: &mut Cx) -> Verdict
where
    S::C: Send,
    S::E: Send,
{
    let mut boxes = Vec::new();
    let mut sigs = Vec::new();
    for op in case.iter().take(6) {
        let mut s = Src::new(op);
        let (v, mut p) = pick::<S>(&mut s, cx);
        let e = S::build(v, &mut p);
        sigs.push(sig_of::<S>(&e));
        let c = S::C::from(e);
        leaves::<S>(&c, v, cx);
        boxes.push(c);
    }
    cx.step(|| format!("{} boxes taken out in another thread", boxes.len()));
    cx.nontrivial = true;
    let vals = std::thread::spawn(move || boxes.into_iter().map(|c| c.into_inner()).collect::<Vec<_>>())
        .join()
        .map_err(|_| "into_inner panicked in another thread".to_string())?;
    for (e, sig) in vals.iter().zip(&sigs) {
        let got = sig_of::<S>(e);
        if got != *sig {
            std::mem::forget(vals);
            return same("taken out in another thread", &got, sig);
        }
    }
    drop(vals);
    ensure!(track::alive().is_empty() && track::zst_live() == 0, "a value was duplicated or lost between threads");
    Ok(())
}

/// C19: threads with boxes of their own don't disturb each other, whether the enum is Send or not
pub fn c19_apart<S: Subject>(case: &Case, cx: &mut Cx) -> Verdict {
    let threads = 2 + (case[0].first().copied().unwrap_or(0) % 3) as usize;
    let rounds = if cfg!(miri) { 2 } else { 24 };
    cx.step(|| format!("{threads} threads box, view and take out {} values {rounds} times", case.len()));
    cx.nontrivial = true;
    cx.label("threads at the same time");
    let gate = std::sync::Barrier::new(threads);
    let one = |t: u64| -> Verdict {
            gate.wait();
            for round in 0..rounds as u64 {
                let mut held: Vec<(S::C, Sig)> = Vec::new();
                for op in case {
                    let mut s = Src::new(op);
                    let v = (s.below(usable::<S>()) + t as usize) % usable::<S>();
                    let mut p = Pay::new(s.next().wrapping_add(t << 20).wrapping_add(round << 10));
                    let e = S::build(v, &mut p);
                    let sig = sig_of::<S>(&e);
                    let c = if s.flag() { S::C::from(e) } else { S::wrap(e.into_tagged_box()) };
                    held.push((c, sig));
                    for (c, sig) in &held {
                        same("a view while other threads work", &view::<S>(S::peek(c))?, sig)?;
                    }
                    if s.flag() {
                        let i = s.below(held.len());
                        let (c, sig) = held.swap_remove(i);
                        let (at, then) = block::<S>(&c, &sig);
                        let e = c.into_inner();
                        let got = sig_of::<S>(&e);
                        then.into_iter().for_each(|n| ledger::reclaim(at, n));
                        if got != sig {
                            std::mem::forget(e);
                            return same("taken out while other threads work", &got, &sig);
                        }
                    }
                }
                while let Some((c, sig)) = held.pop() {
                    let (at, then) = block::<S>(&c, &sig);
                    let e = S::E::from_tagged_box(S::unwrap(c));
                    let got = sig_of::<S>(&e);
                    then.into_iter().for_each(|n| ledger::reclaim(at, n));
                    if got != sig {
                        std::mem::forget(e);
                        return same("taken out while other threads work", &got, &sig);
                    }
                }
            }
            Ok(())
    };
    let all = together(threads, &one);
    for r in all {
        r??;
    }
    ensure!(track::alive().is_empty() && track::zst_live() == 0, "a value was duplicated or lost while threads worked");
    Ok(())
}

/// The block of a box
fn block<S: Subject>(c: &S::C, sig: &Sig) -> (usize, Option<u64>) {
    let a = addr::<S>(c);
    (a, if S::foot(sig.words[0] as usize).most > 0 { ledger::serial(a) } else { None })
}

/// Run `f` in several threads at the same time
pub fn together<R: Send>(threads: usize, f: &(impl Fn(u64) -> R + Sync)) -> Vec<Result<R, String>> {
    std::thread::scope(|scope| {
        let hs: Vec<_> = (0..threads as u64)
            .map(|t| std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(scope, move || quietly(|| f(t))).unwrap())
            .collect();
        hs.into_iter()
            .map(|h| h.join().unwrap_or_else(|_| Err("a thread ended".into())).map_err(|m| format!("panic in a thread: {m}")))
            .collect()
    })
}

/// C19: containers shared between threads, if the enum is Sync
pub fn c19_shared<S: Subject>(case: &Case, cx: &mut Cx) -> Verdict
where
    S::C: Sync,
    S::E: Sync,
{
    let mut w = World::<S>::new();
    for op in case.iter().take(8) {
        w.step(New, &mut Src::new(op), cx)?;
    }
    cx.step(|| format!("3 threads view {} boxes", w.boxes.len()));
    cx.nontrivial = true;
    cx.label("viewed by threads at the same time");
    let gate = std::sync::Barrier::new(3);
    let shared: Vec<(&S::C, &Sig)> = w.boxes.iter().map(|(c, s)| (c, s)).collect();
    let all = together(3, &|t| -> Verdict {
        gate.wait();
        for round in 0..if cfg!(miri) { 1 } else { 12 } {
            for k in 0..shared.len() {
                let (c, sig) = shared[(k + t as usize + round) % shared.len()];
                same("a view shared with other threads", &view::<S>(S::peek(c))?, sig)?;
                ensure!(S::peek(c).discriminant() as u64 == sig.words[0], "the tag of a shared box changed");
            }
        }
        Ok(())
    });
    for r in all {
        if let Err(m) | Ok(Err(m)) = r {
            w.give_up();
            return Err(m);
        }
    }
    drop(shared);
    let r = w.finish(&mut Src::new(&[]), cx);
    if r.is_err() {
        w.give_up();
    }
    r
}

/// C19: containers cloned, compared and printed by several threads, if the enum is Sync
pub fn c19_use<S: Subject>(case: &Case, cx: &mut Cx) -> Verdict
where
    S::C: Sync,
    S::E: Sync + Clone + PartialEq + PartialOrd + std::fmt::Debug,
{
    let mut w = World::<S>::new();
    for op in case.iter().take(6) {
        w.step(New, &mut Src::new(op), cx)?;
    }
    cx.step(|| format!("3 threads clone, compare and print {} boxes", w.boxes.len()));
    cx.nontrivial = true;
    cx.label("used by threads at the same time");
    let alone: Vec<(String, Vec<(Option<std::cmp::Ordering>, bool)>)> = w
        .boxes
        .iter()
        .map(|(c, _)| (format!("{:?}", S::peek(c)), w.boxes.iter().map(|(d, _)| (S::peek(c).partial_cmp(S::peek(d)), S::peek(c) == S::peek(d))).collect()))
        .collect();
    let gate = std::sync::Barrier::new(3);
    let shared: Vec<(&S::C, &Sig)> = w.boxes.iter().map(|(c, s)| (c, s)).collect();
    let all = together(3, &|t| -> Verdict {
        gate.wait();
        for round in 0..if cfg!(miri) { 1 } else { 8 } {
            for k in 0..shared.len() {
                let i = (k + t as usize + round) % shared.len();
                let (c, sig) = shared[i];
                let d = S::wrap(S::peek(c).clone());
                let got = view::<S>(S::peek(&d))?;
                let (at, then) = block::<S>(&d, sig);
                let e = d.into_inner();
                let out = sig_of::<S>(&e);
                if let Err(m) = alike("a clone of a shared box", &got, sig).and(distinct("a clone of a shared box", &got, sig)).and(same("a clone taken out", &out, &got)) {
                    std::mem::forget(e);
                    return Err(m);
                }
                drop(e);
                then.into_iter().for_each(|n| ledger::reclaim(at, n));
                for (j, (o, _)) in shared.iter().enumerate() {
                    let seen = (S::peek(c).partial_cmp(S::peek(o)), S::peek(c) == S::peek(o));
                    ensure!(seen == alone[i].1[j], "comparing shared boxes {i} and {j} gives {seen:?}, alone {:?}", alone[i].1[j]);
                }
                let text = format!("{:?}", S::peek(c));
                ensure!(text == alone[i].0, "a shared box prints as {text}, alone as {}", alone[i].0);
            }
        }
        Ok(())
    });
    for r in all {
        if let Err(m) | Ok(Err(m)) = r {
            w.give_up();
            return Err(m);
        }
    }
    drop(shared);
    let r = w.finish(&mut Src::new(&[]), cx);
    if r.is_err() {
        w.give_up();
    }
    r
}

/// Another equality for enums than the derived one: across variants
pub fn key<E: Field>(e: &E) -> u64 {
    track::burn();
    let mut s = Sig::default();
    e.sig(&mut s);
    s.words[1..].iter().fold(0u64, |a, w| a.wrapping_add(*w)) % 5
}
/// And another order: some values have none
pub fn odd_order<E: Field>(a: &E, b: &E) -> Option<std::cmp::Ordering> {
    let (x, y) = (key(a), key(b));
    (x + y != 5).then(|| y.cmp(&x))
}

/// C12: conversions which must not be there
pub fn absent(list: &[(&str, bool)]) -> Verdict {
    for (t, has) in list {
        ensure!(!has, "the container converts from {t}, which no tuple variant holds");
    }
    Ok(())
}

/// C19: Send and Sync of the container and of the box are those of the enum
pub fn c19_auto(cx: &mut Cx, e: [bool; 2], c: [bool; 2], b: [bool; 2]) -> Verdict {
    cx.label(match e {
        [true, true] => "enum:Send+Sync",
        [true, false] => "enum:Send",
        [false, true] => "enum:Sync",
        [false, false] => "enum:neither",
    });
    cx.step(|| format!("enum [Send, Sync] = {e:?}, container {c:?}, box {b:?}"));
    cx.nontrivial = true;
    for (i, t) in ["Send", "Sync"].iter().enumerate() {
        for (what, x) in [("container", c), ("TaggedBox", b)] {
            ensure!(!x[i] || e[i], "the {what} is {t} though its enum isn't");
            ensure!(x[i] || !e[i], "the {what} isn't {t} though its enum is");
        }
    }
    Ok(())
}
