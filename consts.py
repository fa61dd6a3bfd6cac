"""C27: what is documented as const gives in constants what it gives at run time"""
import json, os, random
import vlib
from vlib import BuildError, DEV, Inconclusive, REL

WIDTHS = ["%dbits" % w for w in range(48, 64)]

TYPES = ["u8", "u16", "u32", "u64", "u128", "()", "[u64; 0]", "[u8; 3]", "String", "Vec<u8>", "Option<Box<u8>>", "&'static str", "char", "f64", "A16", "A64", "A4096", "A65536", "Z1", "Z32", "Item", "Container", "TaggedBox<Item>",
         "TaggedPointer", "fn()", "std::cell::Cell<u8>", "[A64; 2]", "(u8, u128)"]
UNITS = [0, 2, 3, 5, 6]
VARIANTS = ["U0,", "T1(u64),", "U2,", "U3,", "S4 { a: u8 },", "U5,", "U6,"]

HEAD = """#![allow(warnings)]
use std::hint::black_box as bb;
use tagged_box::{tagged_box, Discriminant as D, TaggableContainer, TaggableInner, TaggedBox, TaggedPointer};
#[repr(align(16))] struct A16(u8);
#[repr(align(64))] struct A64([u8; 100]);
#[repr(align(4096))] struct A4096(u8);
#[repr(align(65536))] struct A65536(u8);
struct Z1; #[repr(align(32))] struct Z32;
mod m {
    tagged_box::tagged_box! { #[derive(Debug, Clone, PartialEq)] pub struct Container, pub enum Item { VARIANTS } }
}
use m::*;
tagged_box! { #[derive(Debug, Clone, Copy, PartialEq)] struct OneC, enum One { Only, } }
const fn packed(p: u64, d: D) -> u64 { TaggedPointer::store_discriminant(p, d) }
const fn apart(w: u64) -> (u64, D) { (TaggedPointer::strip_discriminant(w), TaggedPointer::fetch_discriminant(w)) }
const fn dangling<T>(d: D) -> (u64, u64, D) { let p = TaggedPointer::dangling::<T>(d); (p.as_raw_u64(), p.as_u64(), p.discriminant()) }
const fn boxed<T>(d: D) -> (*const T, D) { let b = TaggedBox::<Item>::dangling::<T>(d); let r = (b.as_ptr::<T>(), b.discriminant()); std::mem::forget(b); r }
struct Holds<const W: u64, const G: u64>;
impl<const W: u64, const G: u64> Holds<W, G> {
    const APART: (u64, D) = apart(W);
    const PACKED: u64 = packed(G >> 16 << 4, (G & 1) as D);
}
fn is<T: PartialEq + std::fmt::Debug>(n: usize, what: &str, got: T, want: T) { if got != want { println!("{} {}: {:?}, not {:?}", n, what, got, want); std::process::exit(1) } }
"""


def item(r, width):
    most = (1 << (64 - width)) - 1
    tag = lambda: r.choice([0, 1, most, most // 2, most // 2 + 1, r.randint(0, most)])
    low = (1 << width) - 1
    word = lambda: r.choice([0, 1, (1 << 64) - 1, low, low + 1, 1 << 63, 1 << (width - 1), r.getrandbits(64), r.getrandbits(64), 1 << r.randrange(64), (1 << 64) - 1 - (1 << r.randrange(64))])
    k = r.randrange(8)
    if k < 2:
        return ["dangling", r.choice(TYPES), tag()]
    if k == 2:
        return ["box", r.choice(TYPES), tag()]
    if k == 3:
        return ["apart", word()]
    if k == 4:
        return ["pack", word() & low, tag()]
    if k == 5:
        return ["unit", r.choice([n for n in UNITS if n <= most])]
    if k == 6:
        return ["table", [r.choice([n for n in UNITS if n <= most]) for _ in range(r.randint(1, 6))]]
    return ["generic", word(), r.getrandbits(48)]


def render(width, items):
    """A program which ends with 1 and says why if a constant isn't what it should be"""
    low, top, body = (1 << width) - 1, [], []
    for n, i in enumerate(items):
        kind = i[0]
        if kind == "dangling":
            t, d = i[1], i[2]
            top.append("const KP%d: TaggedPointer = TaggedPointer::dangling::<%s>(%d); static KV%d: (u64, u64, D) = dangling::<%s>(%d); const KG%d: [u8; (KP%d.discriminant() & 7) as usize] = [9; (KP%d.discriminant() & 7) as usize]; const KQ%d: *const %s = KP%d.as_ptr::<%s>();"
                       % (n, t, d, n, t, d, n, n, n, n, t, n, t))
            body.append('let p = TaggedPointer::dangling::<%s>(bb(%d)); is(%d, "a constant dangling pointer", KP%d, p); is(%d, "in a const fn", KV%d, (p.as_raw_u64(), p.as_u64(), p.discriminant())); is(%d, "tag", KV%d.2, %d); is(%d, "address", KV%d.1, KV%d.0 & %d);'
                        ' is(%d, "alignment", (KV%d.1 != 0, KV%d.1 %% std::mem::align_of::<%s>() as u64), (true, 0)); is(%d, "word", KV%d.0 >> %d, %d); is(%d, "length", KG%d.len(), %d); is(%d, "pointer", KQ%d as u64, KV%d.1);'
                        % (t, d, n, n, n, n, n, n, d, n, n, n, low, n, n, n, t, n, n, width, d, n, n, d & 7, n, n, n))
        elif kind == "box":
            t, d = i[1], i[2]
            top.append("const KB%d: TaggedBox<Item> = TaggedBox::dangling::<%s>(%d); const KBD%d: D = { let b = KB%d; let d = b.discriminant(); std::mem::forget(b); d }; const KBP%d: (*const %s, D) = boxed::<%s>(%d);" % (n, t, d, n, n, n, t, t, d))
            body.append('let b = TaggedBox::<Item>::dangling::<%s>(bb(%d)); is(%d, "tag of a constant box", KBD%d, %d); is(%d, "tag in a const fn", KBP%d.1, %d); is(%d, "address", KBP%d.0, b.as_ptr::<%s>()); is(%d, "the box itself", (KB%d.discriminant(), KB%d.as_ptr::<%s>()), (b.discriminant(), b.as_ptr::<%s>()));'
                        ' is(%d, "alignment", (KBP%d.0 as usize != 0, KBP%d.0 as usize %% std::mem::align_of::<%s>()), (true, 0)); let k = KB%d; is(%d, "moved out of the constant", k.discriminant(), %d); std::mem::forget(k);' % (t, d, n, n, d, n, n, d, n, n, t, n, n, n, t, t, n, n, n, t, n, n, d))
        elif kind == "apart":
            w = i[1]
            top.append("const KA%d: (u64, D) = apart(%d); static KS%d: u64 = packed(KA%d.0, KA%d.1);" % (n, w, n, n, n))
            body.append('is(%d, "a word taken apart in a constant", KA%d, (%d, %d)); is(%d, "at run time", apart(bb(%d)), KA%d); is(%d, "put together", KS%d, %d);' % (n, n, w & low, w >> width, n, w, n, n, n, w))
        elif kind == "pack":
            p, d = i[1], i[2]
            top.append("const KW%d: u64 = TaggedPointer::store_discriminant(%d, %d); const KW%dT: D = TaggedPointer::fetch_discriminant(KW%d); const KW%dP: u64 = TaggedPointer::strip_discriminant(KW%d);" % (n, p, d, n, n, n, n))
            body.append('is(%d, "packed in a constant", KW%d, %d); is(%d, "at run time", packed(bb(%d), bb(%d)), KW%d); is(%d, "and taken apart", (KW%dP, KW%dT), (%d, %d)); is(%d, "as a pointer", TaggedPointer::new(bb(%d), bb(%d)).as_raw_u64(), KW%d);'
                        % (n, n, p | d << width, n, p, d, n, n, n, n, p, d, n, p, d, n))
        elif kind == "unit":
            u = i[1]
            top.append("static KU%d: TaggedBox<Item> = TaggedBox::dangling::<Item>(%d);" % (n, u))
            body.append('let mut seen = 0; unsafe { Item::ref_from_tagged_box(&KU%d, |e| { seen += 1; is(%d, "a static box", e, &Item::U%d) }) }; is(%d, "calls", seen, 1); is(%d, "compared", KU%d == Item::U%d.into_tagged_box(), true); is(%d, "shown", format!("{:?}", KU%d), "U%d".to_string());'
                        ' is(%d, "cloned", Item::from_tagged_box(KU%d.clone()), Item::U%d);' % (n, n, u, n, n, n, u, n, n, u, n, n, u))
        elif kind == "table":
            us = i[1]
            top.append("static KT%d: [TaggedBox<Item>; %d] = [%s]; const KTC%d: [D; %d] = [%s];" % (n, len(us), ", ".join("TaggedBox::dangling::<Item>(%d)" % u for u in us), n, len(us), ", ".join("KT%d[%d].discriminant()" % (n, k) for k in range(len(us)))))
            body.append('is(%d, "tags of a static table", &KTC%d[..], &[%s][..]); is(%d, "its values", KT%d.iter().map(|b| Item::from_tagged_box(b.clone())).collect::<Vec<_>>(), vec![%s]);' % (n, n, ", ".join(map(str, us)), n, n, ", ".join("Item::U%d" % u for u in us)))
        else:
            w, g = i[1], i[2]
            body.append('is(%d, "in an associated constant", Holds::<%d, %d>::APART, (%d, %d)); is(%d, "packed in one", Holds::<%d, %d>::PACKED, %d);' % (n, w, g, w & low, w >> width, n, w, g, (g >> 16 << 4) | (g & 1) << width))
    return HEAD.replace("VARIANTS", " ".join(VARIANTS[:1 << min(3, 64 - width)])) + "\n".join(top) + "\nfn main() {\n" + "\n".join("{ %s }" % b for b in body) + '\nis(999, "a container of one variant", OneC::from(One::Only).into_inner(), One::Only);\n}\n'


# A tag which doesn't fit has no dangling pointer in a constant either
REFUSED = "#![allow(warnings)]\nuse tagged_box::*; enum E {}\nconst X: %s;\nfn main() { std::hint::black_box(&X); }\n"


def build(c, text, width, profile):
    tb = vlib.tagged_box(width, profile)
    src, out = c.scratch(".rs"), c.scratch(".bin")
    with open(src, "w") as f:
        f.write(text)
    code, _, err = vlib.rustc(["--edition", "2021", "--crate-name", "constants", src, "-o", out, "--extern", "tagged_box=" + tb["rlib"], "-L", "dependency=" + tb["deps"]] + vlib.OPTS[profile])
    os.remove(src)
    if code is None:
        raise Inconclusive("rustc took too long")
    return code == 0, err, out


def run(c, items, width, profile):
    """What's wrong, or None"""
    ok, err, out = build(c, render(int(width[:2]), items), width, profile)
    try:
        if not ok:
            first = [x for x in err.split("\n") if x.startswith("error[E0015]") or x.startswith("error[E0080]") or x.startswith("error[E0277]")][:1]
            if not first:
                raise BuildError("the program of constants doesn't compile:\n" + err[-3000:])
            return "a constant is refused: " + first[0]
        code, o, _ = vlib.sh([out], timeout=120)
        if code is None:
            raise Inconclusive("a program of constants took too long")
        if code != 0:
            return "a constant differs: %s" % (o.strip() or "the program ended with %s" % code)
        return None
    finally:
        if os.path.exists(out):
            os.remove(out)


def refused(c, what, tag, width, profile):
    """What's wrong with a constant that shouldn't be, or None"""
    x = "TaggedPointer = TaggedPointer::dangling::<u64>(%d)" % tag if what == "pointer" else "TaggedBox<E> = TaggedBox::dangling::<u64>(%d)" % tag
    ok, err, out = build(c, REFUSED % x, width, profile)
    if os.path.exists(out):
        os.remove(out)
    if ok:
        return "the tag %d passes in a constant dangling %s" % (tag, what)
    if "E0080" not in err:
        raise BuildError("a constant is refused in another way: " + err[-1500:])
    return None


def shrink(c, items, width, profile):
    message = None
    n = max(1, len(items) // 2)
    while True:
        for k in range(0, len(items), n):
            rest = items[:k] + items[k + n:]
            got = run(c, rest, width, profile) if rest else None
            if got:
                items, message = rest, got
                break
        else:
            if n == 1:
                return items, message
            n = max(1, n // 2)


def c27(c):
    r = random.Random("c27/%s" % c.seed)
    per, rounds = (48, 1) if c.quick else (96, 12)
    jobs = []
    for _ in range(rounds):
        for w in WIDTHS:
            for p in (DEV, REL):
                jobs.append(("run", [item(r, int(w[:2])) for _ in range(per)], w, p))
    for w in WIDTHS:
        most = (1 << (64 - int(w[:2]))) - 1
        if most not in (0xFF, 0xFFFF):
            limit = 0xFF if most < 0xFF else 0xFFFF
            for what in ("pointer", "box"):
                for t in {most + 1, limit} if c.quick else {most + 1, limit, r.randint(most + 1, limit)}:
                    jobs.append((what, t, w, REL if r.random() < 0.5 else DEV))

    def one(j):
        if c.failures:
            return
        what, x, w, p = j
        bad = run(c, x, w, p) if what == "run" else refused(c, what, x, w, p)
        with c.lock:
            c.evaluations += len(x) if what == "run" else 1
            c.distinct += len({json.dumps(i) for i in x if any(i[1:])}) if what == "run" else 1
            c.kits.add("%s-%s" % (w, p))
            for i in x if what == "run" else [["refused"]]:
                c.labels[i[0]] = c.labels.get(i[0], 0) + 1
            if len(c.samples) < 6:
                c.samples.append("%s-%s: %s" % (w, p, json.dumps(x[:3] if what == "run" else [what, x])))
        if bad:
            if what == "run":
                x, again = shrink(c, x, w, p)
                bad = again or bad
            c.fail(kind="constants", what=what, items=x, width=w, profile=p, suite="c27", message=bad, trace=[json.dumps(i) for i in x] if what == "run" else [])
    vlib.parallel(one, jobs)


def replay(c, f):
    bad = run(c, f["items"], f["width"], f["profile"]) if f["what"] == "run" else refused(c, f["what"], f["items"], f["width"], f["profile"])
    return bool(bad), bad or ""
