"""C29: which programs the borrow checker accepts, against a crate which has the documented signatures and nothing else"""
import json, os, random, re
import vlib
from vlib import BuildError, DEV, Inconclusive

# The documented interface without what it does. The compiler's verdict on a program against it is the oracle.
MODEL = """#![allow(warnings)]
pub type Discriminant = DISCRIMINANT;
pub struct TaggedBox<T> { word: u64, of: std::marker::PhantomData<T> }
impl<T> TaggedBox<T> {
    pub fn new<U>(val: U, discriminant: Discriminant) -> Self { loop {} }
    pub unsafe fn new_unchecked<U>(val: U, discriminant: Discriminant) -> Self { loop {} }
    pub const fn dangling<U>(discriminant: Discriminant) -> Self { loop {} }
    pub unsafe fn as_ref<U>(&self) -> &U { loop {} }
    pub unsafe fn as_mut_ref<U>(&mut self) -> &mut U { loop {} }
    pub unsafe fn into_inner<U>(tagged: Self) -> U { loop {} }
    pub fn into_raw<U>(tagged: Self) -> *mut U { loop {} }
    pub unsafe fn into_box<U>(tagged: Self) -> Box<U> { loop {} }
    pub unsafe fn from_raw<U>(raw: *mut U, discriminant: Discriminant) -> Self { loop {} }
    pub const fn discriminant(&self) -> Discriminant { loop {} }
    pub const fn as_ptr<U>(&self) -> *const U { loop {} }
    pub fn as_mut_ptr<U>(&mut self) -> *mut U { loop {} }
}
impl<T: TaggableInner + Clone> Clone for TaggedBox<T> { fn clone(&self) -> Self { loop {} } }
impl<T: TaggableInner + Copy> Copy for TaggedBox<T> {}
impl<T: TaggableInner + PartialEq> PartialEq for TaggedBox<T> { fn eq(&self, o: &Self) -> bool { loop {} } }
impl<T: TaggableInner + PartialOrd> PartialOrd for TaggedBox<T> { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { loop {} } }
impl<T: TaggableInner + PartialEq + Eq> Eq for TaggedBox<T> {}
impl<T: TaggableInner + Ord> Ord for TaggedBox<T> { fn cmp(&self, o: &Self) -> std::cmp::Ordering { loop {} } }
impl<T: TaggableInner + std::fmt::Debug + Clone> std::fmt::Debug for TaggedBox<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { loop {} } }
pub trait TaggableContainer { type Inner; fn into_inner(self) -> Self::Inner; }
pub trait TaggableInner: Sized {
    fn into_tagged_box(self) -> TaggedBox<Self>;
    fn from_tagged_box(tagged: TaggedBox<Self>) -> Self;
    unsafe fn ref_from_tagged_box<F>(tagged: &TaggedBox<Self>, callback: F) where F: FnOnce(&Self);
}
#[derive(Copy, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct TaggedPointer { word: u64 }
impl TaggedPointer {
    pub fn new(ptr: u64, discriminant: Discriminant) -> Self { loop {} }
    pub const fn dangling<T: Sized>(discriminant: Discriminant) -> Self { loop {} }
    pub const fn discriminant(self) -> Discriminant { loop {} }
    pub unsafe fn as_ref<T>(&self) -> &T { loop {} }
    pub unsafe fn as_mut_ref<T>(&mut self) -> &mut T { loop {} }
    pub const fn as_u64(self) -> u64 { loop {} }
    pub const fn as_raw_u64(self) -> u64 { loop {} }
    pub const fn as_ptr<T>(self) -> *const T { loop {} }
    pub fn as_mut_ptr<T>(self) -> *mut T { loop {} }
}
#[macro_export] macro_rules! tagged_box { ($(#[$m:meta])* struct $c:ident, enum $e:ident { $($b:tt)* }) => {
    $(#[$m])* struct $c { value: $crate::TaggedBox<$e> }
    $(#[$m])* enum $e { $($b)* }
    impl $crate::TaggableContainer for $c { type Inner = $e; fn into_inner(self) -> $e { loop {} } }
    impl From<$e> for $c { fn from(e: $e) -> Self { loop {} } }
    impl From<u64> for $c { fn from(e: u64) -> Self { loop {} } }
    impl $crate::TaggableInner for $e {
        fn into_tagged_box(self) -> $crate::TaggedBox<Self> { loop {} }
        fn from_tagged_box(tagged: $crate::TaggedBox<Self>) -> Self { loop {} }
        unsafe fn ref_from_tagged_box<F>(tagged: &$crate::TaggedBox<Self>, callback: F) where F: FnOnce(&Self) { loop {} }
    }
} }
"""

HEAD = """#![allow(warnings)]
use tagged_box::{tagged_box, Discriminant, TaggableContainer, TaggableInner, TaggedBox, TaggedPointer};
macro_rules! by_hand { ([$($g:tt)*] $t:ty) => {
    impl $($g)* TaggableInner for $t {
        fn into_tagged_box(self) -> TaggedBox<Self> { loop {} }
        fn from_tagged_box(tagged: TaggedBox<Self>) -> Self { loop {} }
        unsafe fn ref_from_tagged_box<F>(tagged: &TaggedBox<Self>, callback: F) where F: FnOnce(&Self) { loop {} }
    }
} }
#[derive(Clone, Debug, PartialEq, PartialOrd)] struct Plain(u64);
#[derive(Clone, Debug, PartialEq, PartialOrd)] struct Lent<'a>(&'a u64);
#[derive(Clone, Copy, Debug, PartialEq, PartialOrd)] struct Copied<'a>(&'a u64);
by_hand!([] Plain); by_hand!([<'a>] Lent<'a>); by_hand!([<'a>] Copied<'a>);
tagged_box! { #[derive(Clone, Debug, PartialEq, PartialOrd)] struct Container, enum Item { Num(u64), Text(String), Nothing, } }
tagged_box! { #[derive(Clone, Copy, Debug, PartialEq, PartialOrd)] struct CopyContainer, enum CopyItem { Num(u64), Nothing, } }
static ZERO: u64 = 0;
fn look<T: ?Sized>(x: &T) {}
fn touch<T: ?Sized>(x: &mut T) {}
fn gone<T>(x: T) {}
fn make<T>() -> T { loop {} }
fn forever<T: 'static>(x: T) {}
"""

# (name, its type in a function that has lifetime 'l, whether it can be a container's enum)
TYPES = ["Plain", "Lent<'l>", "Copied<'l>", "Lent<'static>", "Item", "CopyItem"]
CONTAINERS = ["Container", "CopyContainer"]


def guard(r, text):
    return text if r.random() < 0.04 else "unsafe { %s }" % text


def history(r):
    """A function over boxes, containers, pointers and references to what they hold: [head, [statements]]"""
    t = r.choice(TYPES)
    k = r.choice(CONTAINERS)
    inner = {"Container": "Item", "CopyContainer": "CopyItem"}[k]
    # Mostly about few of them, so that what happens to one concerns another
    pick = lambda xs: (lambda some: lambda: r.choice(some))(r.sample(xs, r.choice([1, 1, 2])))
    B = pick(["b0", "b1"] + ["k0.value"] * (t == inner))
    P = pick(["p0", "p1"])
    R = pick(["r0", "r1"])
    M = pick(["m0", "m1"])
    A = pick([B, B, P, lambda: "k0.value"])
    A = (lambda A: lambda: A()())(A)
    X = lambda: r.choice(["u64", "u64", "[u8; 8]"])
    ref = lambda: guard(r, "%s.as_ref::<u64>()" % A())
    mut = lambda: guard(r, "%s.as_mut_ref::<u64>()" % A())

    def op():
        n = r.randrange(34)
        if n < 5:
            return "%s = %s;" % (R(), ref())
        if n < 9:
            return "%s = %s;" % (M(), mut())
        if n < 12:
            return "look(%s);" % R()
        if n < 15:
            return "touch(%s);" % M()
        if n == 15:
            return "%s = &*%s;" % (R(), M())
        if n == 16:
            b = B()
            return r.choice(["gone(%s);" % b, "let x = %s; look(&x);" % b, "drop(%s);" % b])
        if n == 17:
            return "%s = make();" % r.choice(["b0", "b1", "k0", "k1", "p0", "k0.value"])
        if n == 18:
            return "%s = %s;" % r.choice([("b0", "b1"), ("b1", "b0"), ("k0", "k1"), ("p1", "p0"), ("b0", "b1.clone()"), ("k1", "k0.clone()"), ("b1", "b0.clone()")])
        if n == 19:
            return guard(r, "gone(TaggedBox::into_inner::<%s>(%s))" % (X(), B())) + ";"
        if n == 20:
            return r.choice(["gone(TaggedBox::into_raw::<u64>(%s));" % B(), guard(r, "gone(TaggedBox::into_box::<u64>(%s))" % B()) + ";"])
        if n == 21:
            return "gone(%s);" % r.choice(["%s.as_ptr::<u64>()" % A(), "%s.as_mut_ptr::<u64>()" % A(), "%s.discriminant()" % A()])
        if n == 22:
            return guard(r, "<%s>::ref_from_tagged_box(&%s, |e| %s)" % (t, r.choice(["b0", "b1"]), r.choice(
                ["look(e)", "seen = Some(e)", "b1 = make()", "gone(b1)", "look(%s)" % R(), "touch(%s)" % M(), "{ look(e); look(&b1) }", "gone(e.clone())", "copy = Some(e.clone())", "look(&k0)"]))) + ";"
        if n == 23:
            return guard(r, "%s::ref_from_tagged_box(&k0.value, |e| %s)" % (inner, r.choice(["look(e)", "item = Some(e)", "k0 = make()", "gone(k0)", "look(%s)" % R(), "mine = e.clone()"]))) + ";"
        if n == 24:
            return r.choice(["look(&seen);", "look(&item);", "look(&copy);", "look(&mine);"])
        if n == 25:
            return "{ let mut inner: TaggedBox<%s> = make(); %s look(&inner); }" % (t, r.choice(["%s = unsafe { inner.as_ref::<u64>() };" % R(), "%s = unsafe { inner.as_mut_ref::<u64>() };" % M(), "b0 = inner.clone();", "std::mem::swap(&mut b0, &mut inner);",
                                                                                              "let local = 1; inner = make(); look(unsafe { inner.as_ref::<u64>() });"]))
        if n == 26:
            return "%s = unsafe { %s };" % r.choice([(R(), "make::<TaggedBox<%s>>().as_ref::<u64>()" % t), (M(), "make::<TaggedBox<%s>>().as_mut_ref::<u64>()" % t), (R(), "TaggedPointer::new(8, 1).as_ref::<u64>()")])
        if n == 27:
            return r.choice(["look(&(b0 == b1));", "look(&(k0 < k1));", "look(&format!(\"{:?} {:?}\", b0, k0));", "look(&(p0 == p1));"])
        if n == 28:
            return r.choice(["std::mem::swap(&mut b0, &mut b1);", "std::mem::swap(&mut k0, &mut k1);", "std::mem::swap(&mut p0, &mut p1);"])
        if n == 29:
            return "let s = &%s; gone(%s);" % (B(), r.choice(["unsafe { s.as_mut_ref::<u64>() }", "unsafe { s.as_ref::<u64>() }", "s.as_mut_ptr::<u64>()", "s.as_ptr::<u64>()", "s.discriminant()"]))
        if n == 30:
            return r.choice(["gone(TaggableContainer::into_inner(k0));", "mine = k0.into_inner();", "k0 = %s::from(mine.clone());" % k, "k0 = %s::from(mine);" % k, "k1 = %s::from(7u64);" % k])
        if n == 31:
            return r.choice(["forever(b0);", "forever(k0);", "forever(b1.clone());", "forever(p0);"])
        if n == 32:
            return r.choice(["b0 = TaggedBox::new(3u64, 0);", guard(r, "b0 = TaggedBox::new_unchecked(3u64, 0)") + ";", guard(r, "b1 = TaggedBox::from_raw(&mut 9u64, 1)") + ";", "b1 = TaggedBox::dangling::<u64>(1);",
                             "gone(<%s>::from_tagged_box(%s));" % (t, r.choice(["b0", "b1"])), "b0 = make::<%s>().into_tagged_box();" % t])
        return "let text = String::new(); %s = %s; look(&text);" % r.choice([(R(), ref()), (M(), mut())])

    head = ("let mut b0: TaggedBox<%s> = make(); let mut b1: TaggedBox<%s> = make(); let mut k0: %s = make(); let mut k1: %s = make(); let mut p0: TaggedPointer = make(); let mut p1 = p0; let mut z0 = 0u64; let mut z1 = 0u64;"
            " let mut r0: &u64 = &ZERO; let mut r1: &u64 = &ZERO; let mut m0: &mut u64 = &mut z0; let mut m1: &mut u64 = &mut z1; let mut seen: Option<&%s> = None; let mut item: Option<&%s> = None; let mut copy: Option<%s> = None; let mut mine: %s = make();"
            % (t, t, k, k, t, inner, t, inner))
    return ["history", "fn f@<'l>(given: &'l u64)", head, [op() for _ in range(r.choice([2, 3, 4, 5, 6, 8, 12]))]]


LIFES = ["'a", "'b", "'static"]


def signature(r):
    """A function whose signature promises something of the lifetimes of what boxes give"""
    t = r.choice(["Lent", "Copied"])
    bound = r.choice(["'a, 'b", "'a, 'b: 'a", "'a: 'b, 'b"])
    x, y, z = (r.choice(LIFES) for _ in range(3))
    T = "%s<%s>" % (t, y)
    n = r.randrange(12)
    if n == 0:
        return "fn f@<%s>(b: &%s TaggedBox<%s>) -> &%s u64 { %s }" % (bound, x, T, z, guard(r, "b.as_ref::<u64>()"))
    if n == 1:
        return "fn f@<%s>(b: &%s mut TaggedBox<%s>) -> &%s mut u64 { %s }" % (bound, x, T, z, guard(r, "b.as_mut_ref::<u64>()"))
    if n == 2:
        return "fn f@<%s>(p: &%s mut TaggedPointer) -> &%s %su64 { %s }" % ((bound, x, z) + r.choice([("", "unsafe { p.as_ref::<u64>() }"), ("mut ", "unsafe { p.as_mut_ref::<u64>() }")]))
    if n < 6:
        w = r.choice(["%s", "&'a %s", "&'a mut %s", "Option<%s>", "Vec<%s>", "Box<%s>", "(%s, u8)", "[%s; 2]", "fn(%s)", "fn() -> %s", "*const %s", "*mut %s", "std::cell::Cell<%s>", "&'static %s"])
        return "fn f@<%s>(b: %s) -> %s { b }" % (bound, w % ("TaggedBox<%s>" % T), w % ("TaggedBox<%s<%s>>" % (t, z)))
    if n < 8:
        return "fn f@<%s>(b: &%s TaggedBox<%s>) -> Option<%s> { let mut out = None; unsafe { %s::ref_from_tagged_box(b, |e| out = Some(%s)) }; out }" % ((bound, x, T) + (lambda w, e: (w, t, e))(*r.choice(
            [("&%s %s" % (z, T), "e"), ("&%s u64" % z, "e.0"), ("%s<%s>" % (t, z), "e.clone()"), ("&%s u64" % z, "&*e.0"), ("&%s &%s u64" % (x, z), "&e.0"), ("u64", "*e.0")])))
    if n == 8:
        return "fn f@<%s>(v: &%s u64) -> TaggedBox<%s<%s>> { %s(v).into_tagged_box() }" % (bound, x, t, z, t)
    if n == 9:
        return "fn f@<%s>(b: TaggedBox<%s>) -> %s<%s> { %s::from_tagged_box(%s) }" % (bound, T, t, z, t, r.choice(["b", "b.clone()"]))
    if n == 10:
        return "fn f@<%s>(mut b: TaggedBox<%s>, v: &%s u64) { %s }" % (bound, T, x, r.choice(
            ["b = %s(v).into_tagged_box(); look(&b);" % t, "let c = [b.clone(), %s(v).into_tagged_box()]; look(&c[0]);" % t, "look(&(b == %s(v).into_tagged_box()));" % t, "forever(b);", "forever(b.discriminant()); forever(v);",
             "std::thread::spawn(move || look(&b));", "let f = move || look(&b); forever(f);", "fn two<'x>(a: TaggedBox<%s<'x>>, b: TaggedBox<%s<'x>>) {} two(b, %s(v).into_tagged_box());" % (t, t, t)]))
    return "fn f@<%s>(b: &%s TaggedBox<%s>) -> TaggedBox<%s<%s>> { %s }" % (bound, x, T, t, z, r.choice(["b.clone()", "b.clone().clone()", "let c = b.clone(); c"]))


def item(r):
    return history(r) if r.random() < 0.6 else ["signature", signature(r)]


def text_of(n, i):
    if i[0] == "signature":
        return i[1].replace("f@", "f%d" % n) + "\n"
    return "%s { %s %s }\n" % (i[1].replace("f@", "f%d" % n), i[2], " ".join(i[3]))


def model(c, width):
    """The model's rlib"""
    d = os.path.join(c.work, "model-%s" % width)
    with vlib.lock(d):
        out = os.path.join(d, "libtagged_box.rlib")
        if not os.path.exists(out):
            os.makedirs(d, exist_ok=True)
            with open(os.path.join(d, "m.rs"), "w") as f:
                f.write(MODEL.replace("DISCRIMINANT", "u8" if int(width[:2]) >= 56 else "u16"))
            code, _, err = vlib.rustc(["--edition", "2021", "--crate-type", "rlib", "--crate-name", "tagged_box", os.path.join(d, "m.rs"), "-o", out])
            if code != 0:
                raise BuildError("the model's interface doesn't build: " + err[-2000:])
        return {"rlib": out, "deps": d}


def verdicts(c, items, width, real):
    """For each function what the compiler has against it: a set of error codes"""
    tb = vlib.tagged_box(width, DEV) if real else model(c, width)
    src, out = c.scratch(".rs"), c.scratch(".rmeta")
    starts = HEAD.count("\n") + 1
    with open(src, "w") as f:
        f.write(HEAD + "".join(text_of(n, i) for n, i in enumerate(items)))
    code, _, err = vlib.rustc(["--edition", "2021", "--crate-type", "lib", "--crate-name", "borrows", "--emit=metadata", src, "-o", out, "--error-format=json", "--extern", "tagged_box=" + tb["rlib"], "-L", "dependency=" + tb["deps"]])
    for p in (src, out):
        if os.path.exists(p):
            os.remove(p)
    if code is None:
        raise Inconclusive("rustc took too long")
    found = [set() for _ in items]
    said = [""] * len(items)
    placed = False
    for line in err.split("\n"):
        m = json.loads(line) if line.startswith("{") else {}
        if m.get("level") != "error" or not m.get("spans"):
            continue
        span = ([s for s in m["spans"] if s["is_primary"]] or m["spans"])[0]
        while span.get("expansion") and span["file_name"] != src:
            span = span["expansion"]["span"]
        at = span["line_start"] - starts
        if span["file_name"] != src or not 0 <= at < len(items):
            raise BuildError("the programs of borrows don't compile: " + m["rendered"][:2000])
        found[at].add((m.get("code") or {}).get("code") or "lifetime")
        said[at] = said[at] or m["rendered"]
        placed = True
    if code != 0 and not placed:
        raise BuildError("the programs of borrows don't compile: " + err[-2000:])
    return found, said


def bits(codes):
    """Whether it needs unsafe, and whether it's refused for another reason"""
    return ("E0133" in codes, bool(codes - {"E0133"}))


def differ(c, items, width):
    """[(index, what's wrong)] and the model's verdicts"""
    want, _ = verdicts(c, items, width, False)
    got, said = verdicts(c, items, width, True)
    bad = []
    for n, (w, g) in enumerate(zip(want, got)):
        if bits(w) != bits(g):
            if g and not w:
                what = "a program which keeps to what is documented is refused: " + said[n][:1200]
            elif w and not g:
                what = "a program which must be refused (%s) is accepted" % ", ".join(sorted(w))
            else:
                what = "a program is refused for %s, not for %s" % (sorted(g), sorted(w))
            bad.append((n, what))
    return bad, want


def shrink(c, it, width):
    if it[0] == "signature":
        return it
    while True:
        smaller = [[it[0], it[1], it[2], it[3][:k] + it[3][k + 1:]] for k in range(len(it[3]))]
        bad, _ = differ(c, smaller, width) if smaller else ([], [])
        if not bad:
            return it
        it = smaller[bad[0][0]]


def c29(c):
    r = random.Random("c29/%s" % c.seed)
    jobs = []
    per, rounds = (500, 48) if c.quick else (800, 400)
    for k in range(rounds):
        width = ["60bits", "48bits", "63bits", "56bits"][k % 4]
        jobs.append((width, [item(r) for _ in range(per)]))
    accepted = [0, 0]

    def one(j):
        if c.failures:
            return
        width, items = j
        bad, want = differ(c, items, width)
        with c.lock:
            c.evaluations += len(items)
            c.distinct += len({json.dumps(i) for i, w in zip(items, want) if w or i[0] == "signature" or "as_" in json.dumps(i) and "look(r" in json.dumps(i)})
            c.kits.add(width)
            for w in want:
                for e in w or ["accepted"]:
                    c.labels[e] = c.labels.get(e, 0) + 1
                accepted[not w] += 1
            if len(c.samples) < 6:
                c.samples += ["%s: %s" % (sorted(w) or "accepted", text_of(0, i).replace(i[2], "..") if i[0] == "history" else i[1]) for i, w in list(zip(items, want))[:3]]
        if bad:
            n, what = bad[0]
            it = shrink(c, items[n], width)
            again, _ = differ(c, [it], width)
            c.fail(kind="borrows", items=[it], width=width, profile=DEV, suite="c29", message=again[0][1] if again else what, trace=[text_of(0, it).strip()])
    vlib.parallel(one, jobs)
    if not c.failures and min(accepted) * 8 < sum(accepted):
        raise BuildError("nearly all programs have the same verdict: %s" % accepted)


def replay(c, f):
    bad, _ = differ(c, f["items"], f["width"])
    return bool(bad), bad[0][1] if bad else ""
