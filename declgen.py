"""Declarations for tagged_box!: a seeded generator, a systematic zoo, and their Rust rendering.

A declaration is plain JSON:
  {"name", "cls", "cont", "enum", "vis", "evis", "doc", "variants": [
     {"name", "kind": "unit" | "tuple" | "struct", "fields": [[field name, type], ..], "comma": trailing comma}]}
Types are strings of Rust; what they can do is looked up by `traits`.
"""
import random
import re

ALL = frozenset("copy clone debug cmp ord send sync".split())
REC = ("Self#", "Cont#")  # the enum and the container themselves, within a Box or Vec

BASE = {}
for t in "u8 i8 u16 i16 u32 i32 u64 i64 usize isize u128 i128 bool char ()".split():
    BASE[t] = ALL
for t in ("f32", "f64"):
    BASE[t] = ALL - {"ord"}
for t in ("&'static str", "std::num::NonZeroU16", "std::num::NonZeroU64", "A16", "A64", "A512", "A4096", "Z16", "Z128"):
    BASE[t] = ALL
BASE["*const u8"] = ALL - {"send", "sync"}
BASE["fn(u32) -> u32"] = ALL
BASE["String"] = ALL - {"copy"}
BASE["Tracked"] = ALL - {"copy"} | {"tracked"}
BASE["TrackedZst"] = ALL - {"copy"} | {"tracked"}
BASE["Self#"] = ALL - {"copy"} | {"rec"}
BASE["Cont#"] = ALL - {"copy"} | {"rec", "cont"}

CLASSES = {
    # derives on both, what the enum's fields need
    "Copy": ("Debug, Clone, Copy, PartialEq, PartialOrd", {"copy", "clone", "debug", "cmp"}),
    "Ord": ("Debug, Clone, PartialEq, Eq, PartialOrd, Ord", {"clone", "debug", "cmp", "ord"}),
    "Partial": ("Debug, Clone, PartialEq, PartialOrd", {"clone", "debug", "cmp"}),
    "Custom": ("Debug, Clone", {"clone", "debug"}),
    "CustomOrd": ("Clone", {"clone", "debug"}),
    "Bare": ("", set()),
}

_cache = {}


def parts(t):
    """The type's head and arguments, at the top level"""
    t = t.strip()
    if t in BASE:
        return t, []
    m = re.match(r"^(Vec|Box|std::rc::Rc|std::sync::Arc|Option|std::cell::Cell|std::marker::PhantomData|Result)<(.*)>$", t)
    if m:
        return m.group(1), split(m.group(2))
    if t.startswith("["):
        i = t.rindex(";")
        return "[" + t[i:], [t[1:i]]
    if t.startswith("("):
        return "(", [a for a in split(t[1:-1]) if a]
    raise ValueError("unknown type " + t)


def split(s):
    out, depth, cur = [], 0, ""
    i = 0
    while i < len(s):
        c = s[i]
        if s.startswith("->", i):
            cur += "->"
            i += 2
            continue
        if c in "<([":
            depth += 1
        elif c in ">)]":
            depth -= 1
        if c == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
        i += 1
    if cur.strip():
        out.append(cur.strip())
    return out


def traits(t):
    if t in _cache:
        return _cache[t]
    head, args = parts(t)
    if not args:
        r = BASE[head]
    else:
        sub = [traits(a) for a in args]
        r = frozenset.intersection(*sub)
        extra = frozenset().union(*[s & {"tracked", "rec", "cont"} for s in sub])
        if head in ("Vec", "Box"):
            r -= {"copy"}
        elif head == "std::rc::Rc":
            r = r - {"copy", "send", "sync"} | {"clone"}
        elif head == "std::sync::Arc":
            r = r - {"copy"} | {"clone"}
            if not {"send", "sync"} <= r:
                r -= {"send", "sync"}
        elif head == "std::cell::Cell":
            r = r - {"sync", "copy"}
        elif head == "std::marker::PhantomData":
            r = ALL - (frozenset() if "send" in r else {"send"}) - (frozenset() if "sync" in r else {"sync"})
            extra = frozenset()
        r |= extra
    _cache[t] = r
    return r


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)

    def ty(self, need, depth=2, rec=True, tracked=True, cont=False):
        """A type which can do all of `need`"""
        r = self.r
        for _ in range(200):
            t = self._ty(need, depth, rec, tracked, cont)
            if t and need <= traits(t):
                tr = traits(t)
                if "tracked" in tr and not tracked or "cont" in tr and not cont:
                    continue
                if "rec" in tr and (not rec or not self.boxed_rec(t)):
                    continue
                return t
        return "u32"

    def boxed_rec(self, t):
        """Recursion only behind a pointer"""
        head, args = parts(t)
        if head == "Self#":
            return False
        if head == "Cont#":
            return True
        if head in ("Vec", "Box"):
            return True
        return all("rec" not in traits(a) or self.boxed_rec(a) for a in args)

    def _ty(self, need, depth, rec, tracked, cont):
        r = self.r
        k = r.random()
        if depth == 0 or k < 0.55:
            pool = ["u8", "u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "u128", "i128", "bool", "char", "()",
                    "&'static str", "std::num::NonZeroU16", "std::num::NonZeroU64", "A16", "A64", "Z16", "f32", "f64", "String"]
            pool += ["A512", "A4096", "Z128", "*const u8", "fn(u32) -> u32"] if r.random() < 0.3 else []
            if tracked:
                pool += ["Tracked"] * 6 + ["TrackedZst"] * 2
            return r.choice(pool)
        if k < 0.60 and rec:
            inner = "Cont#" if cont and r.random() < 0.5 else "Self#"
            return r.choice(["Box<%s>", "Vec<%s>", "Option<Box<%s>>"]) % inner
        sub = lambda **kw: self.ty(need & frozenset(kw.get("need", need)), depth - 1, False, kw.get("tracked", tracked), False)
        k = r.randrange(12)
        if k == 0:
            return "Vec<%s>" % sub(need=need - {"copy"})
        if k == 1:
            return "Box<%s>" % sub(need=need - {"copy"})
        if k == 2:
            return "std::rc::Rc<%s>" % sub(need=need - {"copy"}, tracked=False)
        if k == 3:
            return "std::sync::Arc<%s>" % sub(need=need - {"copy"}, tracked=False)
        if k in (4, 5):
            return "Option<%s>" % sub()
        if k == 6:
            return "Result<%s, %s>" % (sub(), sub())
        if k in (7, 8):
            return "[%s; %d]" % (sub(), r.choice([0, 1, 2, 3, 5]))
        if k == 9:
            return "(%s, %s)" % (sub(), sub())
        if k == 10:
            return r.choice(["(%s,)" % sub(), "(%s, %s, %s)" % (sub(), sub(), sub())])
        return r.choice(["std::cell::Cell<u32>", "std::cell::Cell<u64>", "std::marker::PhantomData<%s>" % sub()])

    NAMES = "Alpha Beta Gamma Delta Eps Zeta Eta Theta Iota Kappa Lambda Mu Nu Xi Omicron Pi Rho Sigma Tau Upsilon".split()
    FIELDS = "a b c x y value tagged callback variant discrim tuple self_ f output raw ptr boxed val inner other this".split()

    def decl(self, name, cls=None, tracked=None, nvar=None, sendable=False):
        r = self.r
        cls = cls or r.choice(["Copy", "Ord", "Partial", "Partial", "Custom", "CustomOrd", "Bare"])
        need = frozenset(CLASSES[cls][1]) | (frozenset({"send"}) if sendable else frozenset())
        if cls == "Copy":
            tracked = False
        tracked = r.random() < 0.6 if tracked is None else tracked
        cont = not tracked and cls != "Copy" and r.random() < 0.4
        rec = cls != "Copy" and r.random() < 0.35
        n = nvar or r.choice([1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 15, 16])
        names = [x + (str(i // len(self.NAMES)) if i >= len(self.NAMES) else "") for i, x in enumerate(self.NAMES * (n // len(self.NAMES) + 1))]
        r.shuffle(names)
        taken, variants = set(), []
        # Sometimes few types only: runs of one type, enums of a few bytes or none
        palette = None
        if r.random() < 0.3:
            tiny = [t for t in ("u8", "bool", "u16", "()", "i8", "Z16", "TrackedZst", "Option<u8>", "[u8; 3]", "u32") if need <= traits(t) and (tracked or t != "TrackedZst")]
            palette = r.sample(tiny, r.choice([1, 2, 3])) if r.random() < 0.5 else [self.ty(need, 1, False, tracked, False) for _ in range(r.choice([1, 1, 2, 3]))]
        for i in range(n):
            kind = r.choice(["unit", "single", "single", "single", "multi", "multi", "multi", "struct", "struct", "empty"])
            fields = []
            allow_rec = rec and i > 0
            mk = lambda: r.choice(palette) if palette else self.ty(need, 2, allow_rec, tracked, cont)
            if kind == "single":
                fields = [["0", mk()]]
            elif kind == "multi":
                k = r.choice([2, 2, 3, 3, 4, 5, 6, 7, 8, 10, 13, 17, 24, 31, 32])
                fields = [[str(j), mk()] for j in range(k)]
            elif kind == "struct":
                k = r.choice([0, 1, 1, 2, 2, 3, 4, 6, 9])
                fs = r.sample(self.FIELDS, k)
                fields = [[f, mk()] for f in fs]
            v = {"name": names[i], "kind": "struct" if kind == "struct" else "unit" if kind == "unit" else "tuple",
                 "fields": fields, "comma": r.random() < 0.5}
            key = from_key(v)
            if key in taken or key in ("Cont#", "Self#"):
                v["kind"] = "unit"
                v["fields"] = []
                key = None
            if key:
                taken.add(key)
            variants.append(v)
        return {"name": name, "cls": cls, "cont": r.choice(["Container", "Handle", "Outer"]), "enum": r.choice(["Item", "Value", "Node"]),
                "vis": "pub ", "evis": "", "doc": r.random() < 0.2, "variants": variants}


def from_key(v):
    """What the variant's From conversion is from"""
    if v["kind"] != "tuple":
        return None
    f = [t for _, t in v["fields"]]
    if len(f) == 1:
        # One-element tuple variants convert from the element itself
        return f[0]
    return "()" if not f else "(" + ", ".join(f) + ")"


def tup(name, *types):
    return {"name": name, "kind": "tuple", "fields": [[str(i), t] for i, t in enumerate(types)], "comma": False}


def struct(name, comma, **fields):
    return {"name": name, "kind": "struct", "fields": [[k, t] for k, t in fields.items()], "comma": comma}


def unit(name):
    return {"name": name, "kind": "unit", "fields": [], "comma": False}


def dec(name, cls, *variants):
    return {"name": name, "cls": cls, "cont": "Container", "enum": "Item", "vis": "pub ", "evis": "", "doc": False, "variants": list(variants)}


def zoo():
    """What no seed may leave out: every arity, every kind, odd sizes, many variants"""
    mix = ["u8", "u64", "Tracked", "u16", "u128", "bool", "u32", "String", "i8", "A16", "u64", "char", "Tracked", "f32", "()", "u16"]
    cmix = ["u8", "u64", "u16", "f32", "u128", "bool", "i32", "char", "u8", "f64", "Option<u8>", "i16"]
    out = []
    arity = lambda n, m, off=0: tup("T%d" % n, *[m[(i * 5 + n + off) % len(m)] for i in range(n)])
    out.append(dec("ZooSmall", "Partial", *[arity(n, mix) for n in (0, 1, 2, 3, 4)], unit("U"), struct("S0", False), struct("S1", False, a="Tracked"),
                   struct("S2", True, a="u8", b="Tracked"), struct("S3", False, x="u8", y="u64", z="u8"), tup("Odd", "(u8, u64)", "u8"), tup("Text", "String")))
    out.append(dec("ZooMid", "Partial", *[arity(n, mix) for n in (5, 6, 7, 8, 9, 10, 11, 12)]))
    out.append(dec("ZooMore", "Partial", *[arity(n, mix, 1) for n in (13, 14, 15, 16, 17, 18, 19, 20)]))
    out.append(dec("ZooMost", "Partial", *[arity(n, mix, 2) for n in (21, 22, 23, 24, 25, 26)]))
    out.append(dec("ZooAll", "Partial", *[arity(n, mix, 3) for n in (27, 28, 29, 30, 31, 32)]))
    out.append(dec("ZooCopyA", "Copy", unit("U"), *[arity(n, cmix) for n in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10)], struct("S", True, a="u8", b="u64", c="u16"),
                   struct("S0", True), tup("Arr", "[u8; 3]"), tup("Str", "&'static str")))
    out.append(dec("ZooCopyB", "Copy", *[arity(n, cmix, 1) for n in (11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21)]))
    out.append(dec("ZooCopyC", "Copy", *[arity(n, cmix, 2) for n in (22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32)]))
    wide = []
    for i in range(40):
        wide.append([unit("W%d" % i), tup("W%d" % i, "[u8; %d]" % i), tup("W%d" % i, "u8", "[u16; %d]" % i), struct("W%d" % i, i % 2 == 0, a="[u8; %d]" % i, b="u64")][i % 4])
    out.append(dec("ZooWide", "Ord", *wide))
    out.append(dec("ZooOrd", "Ord", tup("A", "u32"), tup("B", "Tracked"), tup("C", "u8", "String", "Tracked"), unit("D"), struct("E", True, x="u8", y="Option<Tracked>"),
                   tup("F"), tup("G", "Vec<Tracked>"), tup("H", "u64"), tup("I", "u8", "u16")))
    out.append(dec("ZooAlign", "Partial", tup("A", "A16"), tup("B", "A64"), tup("C", "A512"), tup("D", "A4096"), tup("E", "u8", "A64", "u8"),
                   struct("F", False, a="u8", b="A512", c="u16"), tup("G", "Z128", "u8"), tup("H", "Z16"), tup("I", "u8", "Z128"), struct("J", True, z="Z128"),
                   tup("K", "A4096", "Tracked")))
    out.append(dec("ZooZst", "Partial", tup("A", "()"), tup("B", "TrackedZst"), tup("C", "[TrackedZst; 3]"), tup("D", "TrackedZst", "TrackedZst"),
                   tup("E", "TrackedZst", "u8"), struct("F", True, a="TrackedZst"), struct("G", False, a="()", b="TrackedZst", c="Z16"), struct("H", False),
                   tup("I", "Option<TrackedZst>"), tup("J", "[u64; 0]"), tup("K", "()", "()"), unit("L"), tup("M", "Vec<TrackedZst>"), tup("N", "TrackedZst", "Tracked")))
    out.append(dec("ZooRec", "Partial", tup("Leaf", "u32"), tup("Node", "Box<Self#>", "Box<Self#>"), tup("Many", "Vec<Self#>"), struct("Named", True, next="Option<Box<Self#>>", t="Tracked"),
                   tup("One", "Box<Self#>"), unit("Nil")))
    out.append(dec("ZooNest", "Partial", tup("Leaf", "u64"), tup("Node", "Cont#", "u8"), tup("One", "Box<Cont#>"), struct("Named", False, c="Cont#", d="Vec<Cont#>"), unit("Nil")))
    out.append(dec("ZooBare", "Bare", tup("A", "fn(u32) -> u32"), tup("B", "std::cell::Cell<u32>"), tup("C", "*const u8", "u8"), struct("D", False, c="std::cell::Cell<u64>", t="Tracked"),
                   tup("E", "std::marker::PhantomData<Tracked>", "Tracked"), unit("F"), tup("G"), tup("H", "std::rc::Rc<u8>")))
    out.append(dec("ZooCustom", "Custom", tup("A", "u8"), tup("B", "Tracked", "u16"), unit("C"), struct("D", True, a="f64"), tup("E", "String"), tup("F", "u64")))
    out.append(dec("ZooCustomOrd", "CustomOrd", tup("A", "u8"), tup("B", "u16", "Tracked"), unit("C"), struct("D", True, a="f64"), tup("E", "Vec<u8>"), tup("F", "u64")))
    out.append(dec("ZooNiche", "Ord", tup("A", "Option<Box<Tracked>>"), tup("B", "std::num::NonZeroU64"), tup("C", "bool"), tup("D", "char"), tup("E", "Option<bool>"),
                   tup("F", "Option<std::num::NonZeroU16>", "bool", "char"), struct("G", False, a="Option<char>", b="Result<bool, char>"), tup("H", "Box<Tracked>"), tup("I", "&'static str", "Option<&'static str>")))
    out.append(dec("ZooOneUnit", "Copy", unit("Only")))
    out.append(dec("ZooOneTuple", "Partial", tup("Only", "Tracked", "u8")))
    out.append(dec("ZooOneStruct", "Ord", struct("Only", True, value="Tracked")))
    # Runs of one type at every arity: only the places tell the elements apart
    for name, cls, ty, ns in (("ZooRunA", "Copy", "u32", range(0, 13)), ("ZooRunB", "Copy", "u64", range(13, 23)), ("ZooRunC", "Copy", "u16", range(23, 33)),
                              ("ZooRunD", "Partial", "Tracked", range(1, 12)), ("ZooRunE", "Partial", "Tracked", range(12, 23)), ("ZooRunF", "Partial", "Tracked", range(23, 33))):
        out.append(dec(name, cls, *[tup("T%d" % n, *[ty] * n) for n in ns], *([struct("S%d" % c, c, **{f: ty for f in "lkjihgfedcba"}) for c in (False, True)])))
    # Enums of a few bytes
    out.append(dec("ZooTiny", "Partial", struct("A", False, d="TrackedZst", n="u16"), struct("B", True, n="u8", d="TrackedZst"), tup("C", "TrackedZst", "u16"), tup("D", "TrackedZst"),
                   unit("E"), tup("F", "u8"), struct("G", False, d="TrackedZst"), struct("H", True, d="TrackedZst"), tup("I", "u8", "u8"), tup("J", "TrackedZst", "TrackedZst", "TrackedZst")))
    out.append(dec("ZooByte", "Copy", struct("A", False, n="bool"), tup("B", "bool"), struct("C", True, n="u8"), unit("D"), tup("E", "u8", "bool"), tup("F", "u8")))
    out.append(dec("ZooNothing", "Partial", struct("A", False, d="TrackedZst"), struct("B", True, d="TrackedZst"), tup("C", "TrackedZst"), tup("D", "TrackedZst", "TrackedZst")))
    # Types in another order than memory would like, the same types in another order, runs of one type
    out.append(dec("ZooOrder", "Partial", tup("A", "u8", "u64", "u8"), tup("B", "u64", "u8", "u8"), tup("C", "u8", "u8", "u64"), struct("D", True, a="u8", b="u64", c="u8"),
                   struct("E", False, a="u64", b="u8", c="u8"), tup("F", "u32", "u32", "u32", "u32"), struct("G", True, d="u32", c="u32", b="u32", a="u32"), tup("H", "Tracked", "Tracked", "Tracked"),
                   struct("I", True, z="Tracked", y="Tracked", x="Tracked")))
    return out


def huge(n=300, cls="Partial"):
    """More variants than a byte can number, every kind at high tags"""
    free = cls == "Copy"
    t = "u64" if free else "Tracked"
    v = [[unit("H%d" % i), struct("H%d" % i, True, a="u32", b="u8"), struct("H%d" % i, False, t=t), tup("H%d" % i, "[u8; %d]" % i), tup("H%d" % i, t, "[u8; %d]" % i)][i % 5] for i in range(n)]
    return dict(dec("ZooHuge" + cls, cls, *v), head="#![allow(warnings)]\n#![recursion_limit = \"2048\"]\n")


# ---------------------------------------------------------------------------------------------
# Rendering

ANY = "c05 c06 c08 c09 c10 c11 c12 c16 c18 c21 c24".split()


def suits(d, suite):
    cls = d["cls"]
    if suite in ANY:
        return True
    if suite == "c07":
        return cls == "Copy"
    if suite == "c13":
        return cls != "Bare"
    if suite == "c14":
        return cls != "Bare"
    if suite == "c14_container":
        return cls in ("Copy", "Ord", "Partial")
    if suite == "c14_ord":
        return cls in ("Ord", "CustomOrd")
    if suite == "c15":
        return cls != "Bare"
    if suite == "c15_container":
        return cls in ("Copy", "Ord", "Partial", "Custom")
    if suite == "c19":
        return all("send" in traits(t) for t in types(d))
    if suite in ("c19_auto", "c19_apart"):
        return True
    if suite == "c19_shared":
        return all("sync" in traits(t) for t in types(d))
    if suite == "c21_clone":
        return cls != "Bare"
    if suite == "c22_ord":
        return cls in ("Ord", "CustomOrd")
    if suite == "c19_use":
        return cls != "Bare" and all("sync" in traits(t) for t in types(d))
    if suite == "c22":
        return cls in ("Ord", "Partial")
    raise ValueError(suite)


def types(d):
    return [t for v in d["variants"] for _, t in v["fields"]]


def tracked(d):
    return any("tracked" in traits(t) for t in types(d))


def rs(t, d):
    return t.replace("Self#", d["enum"]).replace("Cont#", d["cont"])


def invocation(d, indent="    "):
    """The tagged_box! invocation as a user writes it"""
    o = []
    derives = CLASSES[d["cls"]][0] if "derives" not in d else d["derives"]
    if d.get("doc"):
        o.append("/// Made by a generator")
        o.append("#[allow(dead_code)]")
    if derives:
        o.append("#[derive(%s)]" % derives)
    o += d.get("metas", [])
    o.append("%sstruct %s, %senum %s {" % (d["vis"], d["cont"], d.get("evis") or d["vis"], d["enum"]))
    for v in d["variants"]:
        if v["kind"] == "unit":
            o.append("    %s," % v["name"])
        elif v["kind"] == "tuple":
            o.append("    %s(%s)," % (v["name"], ", ".join(rs(t, d) for _, t in v["fields"])))
        else:
            fs = ", ".join("%s: %s" % (f, rs(t, d)) for f, t in v["fields"])
            o.append("    %s { %s%s }," % (v["name"], fs, "," if v["comma"] and v["fields"] else ""))
    o.append("}")
    return "\n".join(indent + "    " + x for x in o)


def module(d):
    """A module with the declaration and its Subject implementation"""
    E, C = d["enum"], d["cont"]
    n = len(d["variants"])
    T = lambda t: rs(t, d)
    V = d["variants"]

    def pat(v, binder):
        fs = v["fields"]
        if v["kind"] == "unit":
            return "%s::%s" % (E, v["name"])
        if v["kind"] == "tuple":
            return "%s::%s(%s)" % (E, v["name"], ", ".join(binder(i) for i in range(len(fs))))
        return "%s::%s { %s }" % (E, v["name"], ", ".join("%s: %s" % (f, binder(i)) for i, (f, _) in enumerate(fs)))

    def anypat(v):
        return "%s::%s%s" % (E, v["name"], {"unit": "", "tuple": "(..)", "struct": " { .. }"}[v["kind"]])

    leaves = [i for i, v in enumerate(V) if not any("rec" in traits(t) for _, t in v["fields"])]
    rec = len(leaves) < n
    if rec and not leaves:
        raise ValueError("no leaf")
    o = []
    w = o.append
    w("pub mod %s {" % modname(d))
    w("    use tbx::enums::*; use tbx::types::*; use tbx::tbx_engine::run::*; use tbx::tbx_engine::track; use tbx::tagged_box::{self, TaggedBox, TaggableContainer, TaggableInner};")
    w("    tagged_box::tagged_box! {")
    w(invocation(d))
    w("    }")
    w("    impl Field for %s {" % E)
    w("        fn make(p: &mut Pay) -> Self {")
    if rec:
        w("            const LEAVES: &[usize] = &%s;" % leaves)
        w("            p.depth += 1;")
        w("            let v = if p.depth > 3 { LEAVES[p.below(LEAVES.len() as u64) as usize] } else { p.below(%d) as usize };" % n)
        w("            let e = <Subj as Subject>::build(v % usable::<Subj>(), p); p.depth -= 1; e")
    else:
        w("            let v = p.below(%d) as usize; <Subj as Subject>::build(v, p)" % n)
    w("        }")
    w("        fn sig(&self, s: &mut Sig) { match self {")
    for i, v in enumerate(V):
        w("            %s => { s.words.push(%d); %s}" % (pat(v, lambda k: "a%d" % k), i, "".join("Field::sig(a%d, s); " % k for k in range(len(v["fields"])))))
    w("        } }")
    w("    }")
    if any("cont" in traits(t) for t in types(d)):
        w("    impl Field for %s {" % C)
        w("        fn make(p: &mut Pay) -> Self { %s::from(<%s as Field>::make(p)) }" % (C, E))
        w("        fn sig(&self, s: &mut Sig) { unsafe { %s::ref_from_tagged_box(&self.value, |e| Field::sig(e, s)) } }" % E)
        w("    }")
    w("    pub struct Subj;")
    w("    impl Subject for Subj {")
    w("        type E = %s; type C = %s;" % (E, C))
    w("        const NAME: &'static str = %s; const NVAR: usize = %d; const COPY: bool = %s;" % (q(d["name"]), n, "true" if d["cls"] == "Copy" else "false"))
    w("        fn kind(v: usize) -> Kind { match v {")
    for i, v in enumerate(V):
        k = len(v["fields"])
        kind = {"unit": "Kind::Unit", "struct": "Kind::Struct(%d)" % k, "tuple": ["Kind::Empty", "Kind::Single"][k] if k < 2 else "Kind::Multi(%d)" % k}[v["kind"]]
        w("            %d => %s," % (i, kind))
    w("            _ => unreachable!() } }")
    w("        fn foot(v: usize) -> Foot { match v {")
    for i, v in enumerate(V):
        ts = [T(t) for _, t in v["fields"]]
        if not ts:
            w("            %d => Foot { least: 0, most: 0, align: 1 }," % i)
        elif v["kind"] == "tuple" and len(ts) == 1:
            w("            %d => Foot { least: std::mem::size_of::<%s>(), most: std::mem::size_of::<%s>(), align: std::mem::align_of::<%s>() }," % (i, ts[0], ts[0], ts[0]))
        else:
            w("            %d => { #[repr(C)] struct Laid%d(%s); Foot { least: 0 %s, most: std::mem::size_of::<Laid%d>(), align: std::mem::align_of::<Laid%d>() } }" % (
                i, i, ", ".join(ts), "".join("+ std::mem::size_of::<%s>()" % t for t in ts), i, i))
    w("            _ => unreachable!() } }")
    w("        fn build(v: usize, p: &mut Pay) -> %s { match v {" % E)
    for i, v in enumerate(V):
        w("            %d => %s," % (i, pat(v, lambda k: "<%s as Field>::make(p)" % T(v["fields"][k][1]))))
    w("            _ => unreachable!() } }")
    w("        fn variant(e: &%s) -> usize { match e {" % E)
    for i, v in enumerate(V):
        w("            %s => %d," % (anypat(v), i))
    w("        } }")
    w("        fn wrap(b: TaggedBox<%s>) -> %s { %s { value: b } }" % (E, C, C))
    w("        fn unwrap(c: %s) -> TaggedBox<%s> { c.value }" % (C, E))
    w("        fn peek(c: &%s) -> &TaggedBox<%s> { &c.value }" % (C, E))
    w("        fn peek_mut(c: &mut %s) -> &mut TaggedBox<%s> { &mut c.value }" % (C, E))
    w("        fn from_payload(v: usize, p: &mut Pay) -> Option<(%s, Sig)> { match v {" % C)
    for i, v in enumerate(V):
        if v["kind"] != "tuple":
            continue
        ts = [T(t) for _, t in v["fields"]]
        if len(ts) == 1:
            w("            %d => { let x = <%s as Field>::make(p); let mut s = Sig::default(); s.words.push(%d); x.sig(&mut s); Some((<%s as From<%s>>::from(x), s)) }" % (i, ts[0], i, C, ts[0]))
        else:
            ty = "(%s)" % ", ".join(ts)
            w("            %d => { let x: %s = (%s); let mut s = Sig::default(); s.words.push(%d); %sSome((<%s as From<%s>>::from(x), s)) }" % (
                i, ty, ", ".join("<%s as Field>::make(p)" % t for t in ts), i, "".join("x.%d.sig(&mut s); " % k for k in range(len(ts))), C, ty))
    w("            _ => None } }")
    w("        fn replace(b: &mut TaggedBox<%s>, v: usize, p: &mut Pay) -> Option<(%s, Sig)> { match v {" % (E, E))
    for i, v in enumerate(V):
        if v["kind"] == "tuple" and len(v["fields"]) == 1:
            t = T(v["fields"][0][1])
            w("            %d => { let x = <%s as Field>::make(p); let mut s = Sig::default(); s.words.push(%d); x.sig(&mut s); let old = unsafe { std::mem::replace(b.as_mut_ref::<%s>(), x) }; Some((%s::%s(old), s)) }" % (i, t, i, t, E, v["name"]))
    w("            _ => None } }")
    w("        fn unbox(b: TaggedBox<%s>, v: usize) -> Result<Unboxed<%s>, TaggedBox<%s>> { match v {" % (E, E, E))
    for i, v in enumerate(V):
        if v["kind"] == "tuple" and len(v["fields"]) == 1:
            t = T(v["fields"][0][1])
            w("            %d => { let x: Box<%s> = unsafe { TaggedBox::into_box(b) }; Ok(Unboxed { addr: &*x as *const %s as usize, open: Box::new(move || %s::%s(*x)) }) }" % (i, t, t, E, v["name"]))
    w("            _ => Err(b) } }")
    w("    }")
    if d["cls"] != "Bare":
        w("    impl std::fmt::Display for %s { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { tbx::types::display(self, f) } }" % E)
    if d["cls"] == "CustomOrd":
        w("    impl std::fmt::Debug for %s { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { tbx::types::display(self, f) } }" % E)
    if d["cls"] in ("Custom", "CustomOrd"):
        w("    impl PartialEq for %s { fn eq(&self, o: &Self) -> bool { key(self) == key(o) } }" % E)
        if d["cls"] == "Custom":
            w("    impl PartialOrd for %s { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { odd_order(self, o) } }" % E)
        else:
            w("    impl Eq for %s {}" % E)
            w("    impl PartialOrd for %s { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }" % E)
            w("    impl Ord for %s { fn cmp(&self, o: &Self) -> std::cmp::Ordering { key(o).cmp(&key(self)) } }" % E)
    if suits(d, "c15_container"):
        w("    pub mod mirror { #[derive(Debug)] pub struct %s { value: super::%s } pub fn of(value: super::%s) -> %s { %s { value } } }" % (C, E, E, C, C))
    # Where no conversion is to be
    have = {from_key(v) for v in V}
    absent = []
    for v in V:
        ts = [T(t) for _, t in v["fields"]]
        if v["kind"] == "struct" and ts:
            cand = [("(%s)" % ", ".join(x for x in ts)) if len(ts) > 1 else ts[0]]
        elif v["kind"] == "unit":
            cand = ["()"]
        elif len(ts) > 1:
            cand = [ts[0]]
        else:
            cand = []
        for c in cand:
            raw = c
            if raw not in {rs(h, d) for h in have if h} and raw not in (E, C) and raw not in [a for a in absent]:
                absent.append(raw)
    # Nor from anything else: halves and relatives of what there is, and what the crate itself uses
    flat = [T(t) for v in V for _, t in v["fields"]]
    more = ["()", "[(); 0]", "((),)", "u64", "usize", "bool", "*mut u8", "&'static str", "tbx::tagged_box::TaggedBox<%s>" % E, "tbx::tagged_box::TaggedPointer", "Option<%s>" % E, "(%s,)" % E, "&'static %s" % E, "Box<%s>" % E]
    for t in flat[:6]:
        more += ["(%s,)" % t, "[%s; 1]" % t, "(%s, %s)" % (t, t), "&'static %s" % t, "Option<%s>" % t, "Box<%s>" % t]
    for v in V[:6]:
        ts = [T(t) for _, t in v["fields"]]
        if len(ts) > 1:
            more += ["(%s,)" % ", ".join(reversed(ts)), "(%s,)" % ", ".join(ts[:-1]), "(%s,)" % ", ".join(ts[1:])]
            if len(set(ts)) == 1:
                more.append("[%s; %d]" % (ts[0], len(ts)))
    canon = lambda t: re.sub(r",\)", ")", re.sub(r"\s", "", t)) if t.count(",") > 1 else re.sub(r"\s", "", t)
    taken = {canon(rs(h, d)) for h in have if h} | {canon(E), canon(C)}
    seen = set(absent)
    for t in more:
        if canon(t) not in taken and t not in seen and "rec" not in t:
            seen.add(t)
            absent.append(t)
    w("    pub const ABSENT: &[(&str, bool)] = &[%s];" % ", ".join("(%s, { use tbx::types::NoFrom; tbx::types::HasFrom::<%s, %s>::HAS })" % (q(a), C, a) for a in absent[:60]))
    w("}")
    return "\n".join(o)


def q(s):
    return '"%s"' % s.replace("\\", "\\\\").replace('"', '\\"')


def modname(d):
    return "m_" + d["name"].lower()


def registry(d, suites):
    m = modname(d)
    out = []
    for s in suites:
        if not suits(d, s):
            continue
        if s == "c15_container":
            f = "|c, cx| tbx::enums::c15_container::<%s::Subj, %s::mirror::%s>(c, cx, %s::mirror::of)" % (m, m, d["cont"], m)
        elif s == "c12":
            f = "|c, cx| { tbx::enums::absent(%s::ABSENT)?; tbx::enums::c12::<%s::Subj>(c, cx) }" % (m, m)
        elif s == "c19_auto":
            f = "|_, cx| { use tbx::types::{SendNo, SyncNo, Auto}; tbx::enums::c19_auto(cx, [Auto::<%s::%s>::SEND, Auto::<%s::%s>::SYNC], [Auto::<%s::%s>::SEND, Auto::<%s::%s>::SYNC], [Auto::<tbx::tagged_box::TaggedBox<%s::%s>>::SEND, Auto::<tbx::tagged_box::TaggedBox<%s::%s>>::SYNC]) }" % (
                m, d["enum"], m, d["enum"], m, d["cont"], m, d["cont"], m, d["enum"], m, d["enum"])
        else:
            f = "tbx::enums::%s::<%s::Subj>" % (s, m)
        out.append("        (%s, %s, %s)," % (q(d["name"]), q(s), f))
    return out


def program(decls, suites, head="#![allow(warnings)]\n"):
    regs = [r for d in decls for r in registry(d, suites)]
    return head + "\n".join(module(d) for d in decls) + "\nfn main() {\n    tbx::worker::main(vec![\n" + "\n".join(regs) + "\n    ], &[])\n}\n"


def smaller(d):
    """Declarations one step smaller, for shrinking"""
    V = d["variants"]
    n = len(V)
    step = n // 2
    while step >= 1:
        for i in range(0, n, step):
            if n - len(V[i:i + step]) >= 1:
                yield dict(d, variants=V[:i] + V[i + step:])
        step //= 2
    for i, v in enumerate(V):
        F = v["fields"]
        for j in range(len(F)):
            if v["kind"] == "tuple" and len(F) == 2:
                pass
            f = F[:j] + F[j + 1:]
            if v["kind"] == "tuple":
                f = [[str(k), t] for k, (_, t) in enumerate(f)]
            yield dict(d, variants=V[:i] + [dict(v, fields=f)] + V[i + 1:])
    for i, v in enumerate(V):
        for j, (f, t) in enumerate(v["fields"]):
            if t not in ("u8", "u32", "Tracked"):
                for t2 in ("u8", "Tracked"):
                    if CLASSES[d["cls"]][1] <= traits(t2):
                        F = list(v["fields"])
                        F[j] = [f, t2]
                        yield dict(d, variants=V[:i] + [dict(v, fields=F)] + V[i + 1:])


def valid(d):
    keys = [k for k in (from_key(v) for v in d["variants"]) if k]
    if len(keys) != len(set(keys)) or "Cont#" in keys:
        return False
    return any(not any("rec" in traits(t) for _, t in v["fields"]) for v in d["variants"])
