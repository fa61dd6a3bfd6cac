"""The checks which work on builds and programs rather than in a worker: C03, C11 (huge), C20, C23, C25; interface probes."""
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time

import declgen
import vlib
from vlib import DEV, REL, BuildError, Inconclusive, Kit

WIDTHS = ["%dbits" % w for w in range(48, 64)]
EDITIONS = ["2018", "2021", "2024"]


def metadata(c, text, width, edition="2021", profile=DEV, crate="tagged_box"):
    """Does it compile against tagged-box alone? (ok, what rustc said)"""
    tb = vlib.tagged_box(width, profile)
    src = c.scratch(".rs")
    with open(src, "w") as f:
        f.write(text)
    try:
        code, _, err = vlib.rustc(["--edition", edition, "--crate-type", "lib", "--crate-name", "declared", "--emit=metadata", "-o", src + ".rmeta", src,
                                   "--extern", "%s=%s" % (crate, tb["rlib"]), "-L", "dependency=" + tb["deps"]], timeout=300)
        if code is None:
            raise Inconclusive("rustc took too long")
        return code == 0, err
    finally:
        for p in (src, src + ".rmeta"):
            if os.path.exists(p):
                os.remove(p)


# What a generated type may need besides std
TYPES = """
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)] #[repr(align(16))] pub struct A16(u8);
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)] #[repr(align(64))] pub struct A64(u8);
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)] #[repr(align(512))] pub struct A512(u8);
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)] #[repr(align(4096))] pub struct A4096(u8);
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)] #[repr(align(16))] pub struct Z16;
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)] #[repr(align(128))] pub struct Z128;
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)] pub struct Tracked(u64);
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)] pub struct TrackedZst;
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)] pub struct Plain;
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)] pub struct Plain2(u8);
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)] pub struct Plain3 { x: u16 }
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)] pub struct r#type {}
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)] pub struct Holds<T>(T);
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)] pub struct Konst<const N: usize>;
pub trait Ext { type Out; }
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)] pub struct OfU8(u64);
impl Ext for u8 { type Out = OfU8; }
pub mod deep { pub mod er { #[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)] pub struct Buried; } }
pub type Alias = (Konst<77>, u8);
pub const SOME: usize = 13;
"""

# Types as users write them, which only have to compile: what they can do, and the type
EXOTIC = {
    "copy": ["[u8; 3 + 4]", "[u8; { 4 + 5 }]", "[i16; crate::SOME]", "<u8 as crate::Ext>::Out", "crate::Plain", "(crate::Plain2)", "self::Plain3", "crate::r#type", "crate::Konst<5>",
             "crate::Konst<{ 2 + 2 }>", "crate::deep::er::Buried", "crate::Alias", "&'static [u8]", "&'static crate::Plain", "extern \"C\" fn(u8)", "unsafe fn() -> u8",
             "::core::num::NonZeroU8", "core::num::Wrapping<u8>", "std::cmp::Ordering", "std::time::Duration", "std::marker::PhantomData<fn() -> u8>", "[[u8; 2]; 9]", "(((i16,),),)", "Option<Option<u16>>",
             "std::vec::Vec<u8,>", "fn(&'static str, u8,) -> (u8, u16)", "core::option::Option<(u8, [u8; 2])>", "*const crate::Plain", "*mut u8", "[();1]", "core::mem::MaybeUninit<u8>"],
    "own": ["Vec<Vec<u8>>", "std::collections::BTreeMap<u8, Vec<u8>>", "std::borrow::Cow<'static, str>", "Box<[u8]>", "Box<str>", "std::collections::VecDeque<u16>", "crate::Holds<Vec<u8>>",
            "crate::Holds<crate::Holds<[Vec<u8>; 1 << 2]>>", "Option<Box<[Vec<u8>]>>", "std::rc::Rc<str>", "std::collections::BTreeSet<<u8 as crate::Ext>::Out>"],
    "bare": ["Box<dyn Fn(u8) -> u8 + Send>", "Box<dyn FnMut(&str) -> String + Send + Sync + 'static>", "Box<dyn std::any::Any>", "Box<dyn for<'a> Fn(&'a u8) -> &'a u8>", "std::cell::RefCell<Vec<u8>>",
             "std::sync::Mutex<u8>", "std::pin::Pin<Box<dyn std::future::Future<Output = u8>>>", "&'static dyn std::fmt::Debug", "&'static mut u8", "*mut (dyn Send + 'static)", "std::sync::atomic::AtomicU64",
             "for<'a> fn(&'a u8) -> &'a u8", "&'static (dyn Fn(u8) + Sync)", "core::mem::ManuallyDrop<crate::Tracked>", "Box<dyn Iterator<Item = Vec<u8>>>", "std::sync::mpsc::Sender<u8>"],
}
EXOTIC["copy"] = [t for t in EXOTIC["copy"] if t != "std::vec::Vec<u8,>"]
EXOTIC["own"].append("std::vec::Vec<i128,>")
NO_ORD = ("*const crate::Plain", "*mut u8", "core::mem::MaybeUninit<u8>")
METAS = ["#[allow(dead_code, unused)]", "#[must_use]", "#[doc = \"Documented\"]", "#[doc(hidden)]", "#[cfg_attr(all(), allow(non_camel_case_types))]", "#[cfg(all())]", "#[non_exhaustive]",
         "#[allow(clippy::all)]", "#[cfg_attr(any(), derive(Nonsense))]", "/** Block */", "#[deprecated(note = \"for a change\")]"]


def exotic(d, r):
    """Some fields get types as users write them, each at most once in a declaration"""
    pool = list(EXOTIC["copy"])
    if d["cls"] != "Bare":
        pool = [t for t in pool if t not in NO_ORD]
    if d["cls"] != "Copy":
        pool += EXOTIC["own"] * 2
    if d["cls"] == "Bare":
        pool += EXOTIC["bare"] * 3
    pool = sorted(set(pool))
    r.shuffle(pool)
    V = []
    for v in d["variants"]:
        fs = []
        for f, t in v["fields"]:
            if pool and r.random() < 0.25 and "rec" not in declgen.traits(t):
                x = pool.pop()
                t = r.choice(["%s", "%s", "%s", "Option<%s>", "[%s; 1]", "(%s, u8)"]) % x if not x.startswith(("&", "for", "*", "fn", "extern", "unsafe", "(")) else x
                declgen._cache[t] = declgen.ALL if x in EXOTIC["copy"] and x not in NO_ORD else declgen.ALL - {"copy"} if x in EXOTIC["own"] else frozenset()
            fs.append([f, t])
        V.append(dict(v, fields=fs))
    return dict(d, variants=V, metas=r.sample(METAS, r.choice([0, 0, 1, 2, 4])))


def extras(d):
    """What a declaration's enum needs so that its container's derives hold"""
    o = ""
    E = d["enum"]
    cls = d["cls"]
    if cls != "Bare":
        o += "impl std::fmt::Display for %s { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(\"x\") } }\n" % E
    return o


CONTEXTS = ["module", "root", "function", "block", "imported", "macro_use", "renamed macro", "renamed crate", "own macro", "impl block fn", "const block", "no prelude", "own names", "own methods", "typed macro", "generic fn", "closure"]
# In edition 2015 paths in nested modules differ for the user too: only this one
OLD = "edition 2015"


def placed(d, context):
    """(source, name of the crate) of a declaration in a context"""
    crate = "tagged_box"
    inv = declgen.invocation(d, "")
    user = TYPES
    if context == "module":
        text = user + "pub mod outer { pub mod inner { use crate::*; tagged_box::tagged_box! {\n%s\n}\n%s } }" % (inv, extras(d))
    elif context == "root":
        text = user + "tagged_box::tagged_box! {\n%s\n}\n%s" % (inv, extras(d))
    elif context == "function":
        text = user + "pub fn f() { tagged_box::tagged_box! {\n%s\n}\n%s let _ = std::mem::size_of::<%s>(); }" % (inv, extras(d), d["cont"])
    elif context == "block":
        text = user + "pub fn f(n: u8) -> usize { if n > 3 { for _ in 0..n { tagged_box::tagged_box! {\n%s\n}\n%s return std::mem::size_of::<%s>(); } } 0 }" % (inv, extras(d), d["cont"])
    elif context == "imported":
        text = user + "use tagged_box::tagged_box;\ntagged_box! {\n%s\n}\n%s" % (inv, extras(d))
    elif context == "macro_use":
        text = "#[macro_use] extern crate tagged_box;\n" + user + "pub mod m { use crate::*; tagged_box! {\n%s\n}\n%s }" % (inv, extras(d))
    elif context == "renamed macro":
        text = user + "use tagged_box::tagged_box as declare;\ndeclare! {\n%s\n}\n%s" % (inv, extras(d))
    elif context == "renamed crate":
        crate = "another"
        text = user + "another::tagged_box! {\n%s\n}\n%s" % (inv, extras(d))
    elif context == "own macro":
        text = user + "macro_rules! mine { ($($t:tt)*) => { tagged_box::tagged_box! { $($t)* } } }\nmine! {\n%s\n}\n%s" % (inv, extras(d))
    elif context == "impl block fn":
        text = user + "pub struct Host; impl Host { pub fn f(&self) { tagged_box::tagged_box! {\n%s\n}\n%s } }" % (inv, extras(d))
    elif context == "const block":
        text = user + "const _: () = { tagged_box::tagged_box! {\n%s\n}\n%s };" % (inv, extras(d))
    elif context == "typed macro":
        # Names and types as fragments of a macro of the user's
        types, args = [], []

        def hole(t):
            types.append(t)
            return "$t%d" % (len(types) - 1)
        holes = dict(d, variants=[dict(v, fields=[[f, hole(declgen.rs(t, d))] for f, t in v["fields"]]) for v in d["variants"]], vis="$v ", evis="$w ", cont="$c", enum="$e")
        params = ["$v:vis", "$w:vis", "$c:ident", "$e:ident"] + ["$t%d:ty" % i for i in range(len(types))]
        args = [d["vis"].strip(), (d.get("evis") or d["vis"]).strip(), d["cont"], d["enum"]] + types
        text = user + "macro_rules! typed { (%s) => { tagged_box::tagged_box! {\n%s\n} } }\npub mod m { use crate::*; typed!(%s);\n%s }" % (", ".join(params), declgen.invocation(holes, ""), ", ".join(args), extras(d))
    elif context == "generic fn":
        text = user + "pub struct Host<A>(A); impl<A: Clone> Host<A> { pub fn f<T, const N: usize>(&self, x: [T; N]) -> [T; N] { tagged_box::tagged_box! {\n%s\n}\n%s x } }" % (inv, extras(d))
    elif context == "closure":
        text = user + "pub fn f(n: usize) -> usize { let g = move |k: usize| { tagged_box::tagged_box! {\n%s\n}\n%s k + n + std::mem::size_of::<%s>() }; g(3) }" % (inv, extras(d), d["cont"])
    elif context == OLD:
        text = "#[macro_use] extern crate tagged_box;\n" + user + "tagged_box! {\n%s\n}\n%s" % (inv, extras(d))
    elif context == "no prelude":
        words = set(re.findall(r"\w+", inv))
        text = user + "#[no_implicit_prelude] pub mod quiet { use crate::*; use ::{core, std, alloc}; use ::std::prelude::v1::{%s};\n::tagged_box::tagged_box! {\n%s\n}\n%s }" % (", ".join(
            w for w in ["derive", "Clone", "Copy", "Debug", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Vec", "String", "Option", "Box", "Some", "None", "Fn", "FnMut", "Send", "Sync", "Iterator", "Result", "Default"]
            if w in words and w not in (v["name"] for v in d["variants"]) or w == "derive"), inv, extras(d))
        if "alloc::" not in inv:
            text = text.replace("use ::{core, std, alloc}", "use ::{core, std}")
    elif context == "own names":
        words = set(re.findall(r"\w+", inv)) | {d["cont"], d["enum"]}
        own = ["pub trait %s {}" % n for n in ("From", "Into", "FnOnce", "Fn", "Drop", "Sized", "Deref") if n not in words]
        own += ["pub struct %s {}" % n for n in ("TaggedBox", "TaggedPointer", "TaggableInner", "TaggableContainer", "Discriminant", "ManuallyDrop", "Box", "Self_", "Result") if n not in words]
        own += ["pub mod %s {}" % n for n in ("core", "alloc", "mem", "ptr", "tagged_pointer", "discriminant") if n not in words]
        own += ["pub fn %s() {}" % n for n in ("drop", "read", "new", "forget") if n not in words]
        own += ["macro_rules! %s { () => { compile_error!(\"the user's\"); } }" % n for n in ("panic", "stringify", "unreachable", "assert", "matches", "concat", "debug_assert", "format_args") if n not in words]
        text = user + "pub mod mine { %s\ntagged_box::tagged_box! {\n%s\n}\n%s }" % ("\n".join(own + ["use crate::*;"]), inv, extras(d))
    elif context == "own methods":
        blanket = ["pub trait Mine%d { fn %s(self) -> u8 where Self: Sized { 0 } } impl<T> Mine%d for T {}" % (i, n, i) for i, n in enumerate(("into_tagged_box", "from_tagged_box", "ref_from_tagged_box", "discriminant", "into_inner", "read", "from", "into"))]
        inherent = ["impl %s { fn %s(self) -> u8 where Self: Sized { 0 } }" % (d["enum"], n) for n in ("into_tagged_box", "ref_from_tagged_box", "discriminant", "from")]
        text = user + "pub mod mine { use crate::*;\n%s\ntagged_box::tagged_box! {\n%s\n}\n%s }" % ("\n".join(blanket + inherent), inv, extras(d))
    else:
        raise ValueError(context)
    if context in ("function", "block", "impl block fn", "const block", "root", "imported", "renamed macro", "renamed crate", "own macro", "generic fn", "closure", OLD):
        text = text.replace("pub(super) struct", "pub(crate) struct").replace("pub(super) enum", "pub(crate) enum")
    shape = d.get("delims")
    if shape:
        # tagged_box!(..); and tagged_box![..]; instead of braces
        text = re.sub(r"((?:tagged_box|declare|mine)!) \{\n(.*?)\n\}\n", lambda m: m.group(1) + shape[0] + "\n" + m.group(2) + "\n" + shape[1] + ";\n", text, count=1, flags=re.S) if context not in ("own macro",) else text
    return "#![allow(warnings)]\n" + text, crate


def custom(d):
    """Classes whose enums need implementations of their own get derives instead"""
    if d["cls"] == "CustomOrd":
        return dict(d, derives="Clone")
    return d


def bare(c, d, width):
    src, crate = placed(custom(d), "module")
    return metadata(c, src, width, crate=crate)[0]


RAW = ["type", "match", "fn", "loop", "async", "dyn", "struct", "enum", "impl", "let", "move", "ref", "static", "try", "where", "yield", "abstract", "final"]
NAMES = ["Some", "None", "Ok", "Err", "Box", "Vec", "String", "Option", "Result", "From", "Into", "Clone", "Copy", "Debug", "Default", "Drop", "Fn", "TaggedBox",
         "TaggedPointer", "TaggableInner", "TaggableContainer", "Discriminant", "ManuallyDrop", "Inner", "F", "T", "U", "A", "value", "lower", "SCREAMING_CASE", "With_Under", "_Leading", "Ünïcode"]


def dress(d, r):
    """Names and visibilities the generator doesn't use otherwise"""
    V = [dict(v) for v in d["variants"]]
    used = set(v["name"] for v in V) | {d["cont"], d["enum"]}
    mentioned = set(re.findall(r"\w+", " ".join(declgen.types(d))))
    for v in V:
        k = r.random()
        name = None
        if k < 0.15:
            name = "r#" + r.choice(RAW)
        elif k < 0.5:
            name = r.choice(NAMES)
        # A variant named like something its own fields mention is the known name-shadow
        if name and name not in used and name not in mentioned:
            used.add(name)
            v["name"] = name
        if v["kind"] == "struct":
            have = {f for f, _ in v["fields"]}
            fs = []
            for f, t in v["fields"]:
                g = "r#" + r.choice(RAW) if r.random() < 0.25 else r.choice(["Upper", "_x", "__y", "tagged_box", "discriminant", "counter", "data"]) if r.random() < 0.2 else f
                if g in have:
                    g = f
                have.add(g)
                fs.append([g, t])
            v["fields"] = fs
    vis = r.choice([("", ""), ("pub ", "pub "), ("pub(crate) ", "pub(crate) "), ("", "pub "), ("pub(crate) ", "pub "), ("pub(super) ", "pub(super) "), ("pub(in crate) ", "pub ")])
    d = dict(d, variants=V, vis=vis[0], evis=vis[1], doc=r.random() < 0.4)
    if not vis[1]:
        d["evis"] = None
    if r.random() < 0.15:
        d["cont"] = r.choice(["r#struct", "_C", "lower_case", "Boxed"])
    return d


def c20_case(c, d, width, edition, context, profile=DEV):
    src, crate = placed(custom(d), context)
    ok, err = metadata(c, src, width, edition, profile, crate)
    return ok, err, src


def c20(c):
    r = random.Random("c20/%s" % c.seed)
    q = c.quick
    vlib.parallel(lambda w: vlib.tagged_box(w, DEV), WIDTHS)
    cases = []
    # Every arity by itself, every width, every edition
    for n in range(0, 33):
        d = declgen.dec("Arity%d" % n, "Partial", declgen.tup("Of", *["u8", "String", "u64", "(u8, u16)"] * 8)) if False else declgen.dec(
            "Arity%d" % n, "Partial", declgen.tup("Of", *(["u8", "String", "u64", "(u8, u16)"] * 8)[:n]), declgen.unit("End"))
        cases.append((d, WIDTHS[n % 16], EDITIONS[n % 3], CONTEXTS[n % len(CONTEXTS)]))
        cases.append((declgen.dec("Named%d" % n, "Partial", declgen.struct("Of", n % 2 == 0, **{"f%d" % i: "u8" for i in range(n)}), declgen.unit("End")), WIDTHS[(n + 5) % 16], EDITIONS[(n + 1) % 3], CONTEXTS[(n + 3) % len(CONTEXTS)]))
    for i, w in enumerate(WIDTHS):
        for d in declgen.zoo()[:4] if q else declgen.zoo():
            cases.append((d, w, EDITIONS[i % 3], CONTEXTS[i % len(CONTEXTS)]))
    for i, d in enumerate(declgen.zoo()):
        for e in EDITIONS:
            cases.append((d, r.choice(WIDTHS), e, r.choice(CONTEXTS)))
    for ctx in CONTEXTS:
        for e in EDITIONS:
            for d in declgen.zoo()[:4] if q else declgen.zoo()[:30]:
                cases.append((d, "60bits", e, ctx))
    for d in declgen.zoo():
        cases.append((d, r.choice(WIDTHS), "2015", OLD))
    # The documented names: variants called like the one type they hold
    # Many variants need no raised recursion limit (far from the exact limit, which a helper macro may lower)
    for w in ("48bits", "52bits", "56bits"):
        many_at = lambda i: declgen.struct("V%d" % i, i % 2 == 0, a="u8", b="u16") if i % 20 == 7 else declgen.tup("V%d" % i, "[u16; %d]" % i) if i % 20 == 13 else declgen.unit("V%d" % i)
        many = [many_at(i) for i in range(100)]
        cases.append((declgen.dec("Hundred", "Partial", *many), w, r.choice(EDITIONS), "module"))
        cases.append((declgen.dec("ManyTuples", "Partial", *[declgen.tup("V%d" % i, "u8", "[u16; %d]" % i) for i in range(36)]), w, r.choice(EDITIONS), "module"))
    named = declgen.dec("SameName", "Partial", declgen.tup("String", "String"), declgen.tup("Vec", "Vec<u8>"), declgen.tup("Option", "Option<u8>"), declgen.tup("A16", "A16"), declgen.unit("Container"))
    for e in EDITIONS:
        cases.append((named, r.choice(WIDTHS), e, "module"))
    n = 260 if q else 6000
    g = declgen.Gen("c20/%s" % c.seed)
    made = 0
    while made < n:
        d = g.decl("Drawn%d" % made, cls=r.choice(["Copy", "Ord", "Partial", "Custom", "CustomOrd", "Bare"]))
        if not declgen.valid(d):
            continue
        d = dress(exotic(d, r), r)
        d["delims"] = r.choice([None, None, "()", "[]"])
        ctx = r.choice(CONTEXTS + [OLD])
        cases.append((d, r.choice(WIDTHS), "2015" if ctx == OLD else r.choice(EDITIONS), ctx))
        made += 1
    distinct = set()

    def one(k):
        if c.failures or time.time() > c.deadline:
            return
        d, w, e, ctx = k
        try:
            ok, err, src = c20_case(c, d, w, e, ctx)
        except Inconclusive as x:
            with c.lock:
                c.inconclusive.append(str(x))
            return
        with c.lock:
            c.evaluations += 1
            c.labels["context: " + ctx] = c.labels.get("context: " + ctx, 0) + 1
            c.labels["edition " + e] = c.labels.get("edition " + e, 0) + 1
            distinct.add((src, w, e))
            c.kits.add(w)
            c.decls.add(json.dumps(d))
            if len(c.samples) < 4 and d["name"].startswith("Drawn"):
                c.samples.append("%s, edition %s, %s: %s" % (w, e, ctx, re.sub(r"\s+", " ", declgen.invocation(d, ""))))
        if not ok:
            # Is it the declaration, or would rustc refuse the enum in plain Rust too?
            if not plain(c, d, w, e):
                with c.lock:
                    c.labels["not Rust"] = c.labels.get("not Rust", 0) + 1
                return
            c.fail(kind="declaration", width=w, edition=e, context=ctx, decl=d, suite="c20", message="a documented declaration doesn't compile (%s, edition %s, %s): %s" % (w, e, ctx, first_error(err)), trace=[], source=src)

    vlib.parallel(one, cases)
    c.distinct = len(distinct)
    if c.failures:
        c.failures[0] = shrink_declaration(c, c.failures[0])
        return
    if c.labels.get("not Rust", 0) * 5 > len(cases):
        raise BuildError("most drawn declarations aren't Rust")
    # More than 32 elements are refused, by name
    for n in (33, 34, 40, 64):
        for e in EDITIONS:
            d = declgen.dec("Over", "Partial", declgen.tup("Of", *["u8"] * n), declgen.unit("End"))
            ok, err, src = c20_case(c, d, r.choice(WIDTHS), e, "module")
            c.evaluations += 1
            c.distinct += 1
            c.labels["too many elements"] = c.labels.get("too many elements", 0) + 1
            if ok or "Only enum tuple variants of up to 32 elements are supported" not in err:
                return c.fail(kind="refusal", width="60bits", edition=e, context="module", decl=d, suite="c20", trace=[], source=src,
                              message="a tuple variant of %d elements %s" % (n, "was accepted" if ok else "was refused with another message: " + first_error(err)))
    # The recorded finding
    shadow = [declgen.dec("Shadow", "Partial", declgen.tup("String", "String", "u8")), declgen.dec("Shadow", "Partial", declgen.struct("Vec", True, a="Vec<u8>")),
              declgen.dec("Shadow", "Partial", declgen.tup("Item", "u8", "u8"))]
    for d in shadow:
        ok, err, src = c20_case(c, d, "60bits", "2021", "module")
        c.evaluations += 1
        if not ok:
            if "name-shadow" in c.known_keys:
                c.known["name-shadow"] = first_error(err)
            else:
                return c.fail(kind="declaration", width="60bits", edition="2021", context="module", decl=d, suite="c20", trace=[], source=src, message=first_error(err))
    # And the other one: a field named like a unit struct or a constant in scope
    for f in ("Plain", "SOME"):
        d = declgen.dec("Field", "Partial", declgen.struct("Of", True, **{f: "u8"}))
        ok, err, src = c20_case(c, d, "60bits", "2021", "module")
        c.evaluations += 1
        if not ok:
            if "field-shadow" in c.known_keys:
                c.known["field-shadow"] = first_error(err)
            else:
                return c.fail(kind="declaration", width="60bits", edition="2021", context="module", decl=d, suite="c20", trace=[], source=src, message=first_error(err))


def plain(c, d, w, e):
    """The same enum and a struct of the same name, without the macro"""
    d = custom(d)
    inv = declgen.invocation(d, "")
    derives = declgen.CLASSES[d["cls"]][0] if "derives" not in d else d["derives"]
    line = [x for x in inv.split("\n") if "struct %s, " % d["cont"] in x][0]
    vis = line[:line.index("struct")].strip()
    head = inv[:inv.index(line)]
    text = "#![allow(warnings)]\n%s\npub mod m { use crate::*; %s %s struct %s { value: Box<u8> } \n %s %s }" % (
        TYPES, re.sub(r"Copy,?", "", head), vis, d["cont"], head, inv[inv.index(line):].replace(line, line[line.index(", ") + 2:]))
    return metadata(c, text, w, e)[0]


def first_error(err):
    lines = [x for x in err.split("\n") if x.startswith("error")]
    return (lines[0] if lines else err[:300]) + " " + " ".join(x.strip() for x in err.split("\n")[1:3])


def shrink_declaration(c, f, budget=40):
    end = time.time() + budget
    progress = True
    while progress and time.time() < end:
        progress = False
        todo = [d for d in declgen.smaller(f["decl"]) if declgen.valid(d)]
        for i in range(0, len(todo), vlib.CORES):
            def attempt(d):
                if time.time() > end:
                    return None
                ok, err, src = c20_case(c, d, f["width"], f["edition"], f["context"])
                return None if ok or not plain(c, d, f["width"], f["edition"]) else (d, err, src)
            hit = [x for x in vlib.parallel(attempt, todo[i:i + vlib.CORES]) if x]
            if hit:
                d, err, src = hit[0]
                f = dict(f, decl=d, source=src, message=re.sub(r"\): .*", "): " + first_error(err), f["message"], flags=re.S))
                progress = True
                break
    return f


# ------------------------------------------------------------------------------------------------
# C03: which constants a build has

CONSTS = """
fn main() {
    use tagged_box::discriminant::*;
    println!("{} {} {} {} {} {}", POINTER_WIDTH as u64, DISCRIMINANT_BITS as u64, MAX_DISCRIMINANT as u64, MAX_POINTER_VALUE as u64, DISCRIMINANT_MASK as u64, std::mem::size_of::<tagged_box::Discriminant>());
}
"""


def constants(c, tb):
    src, out = c.scratch(".rs"), c.scratch(".bin")
    with open(src, "w") as f:
        f.write(CONSTS)
    code, _, err = vlib.rustc(["--edition", "2021", "--crate-name", "consts", src, "-o", out, "--extern", "tagged_box=" + tb["rlib"], "-L", "dependency=" + tb["deps"]])
    if code != 0:
        raise BuildError("the constants can't be read: " + err[-2000:])
    code, o, _ = vlib.sh([out])
    os.remove(out)
    os.remove(src)
    return [int(x) for x in o.split()]


def expected(width):
    mx = (1 << (64 - width)) - 1
    return [width, 64 - width, mx, (1 << width) - 1, (1 << width) - 1, 1 if mx < 256 else 2]


def wanted(value):
    return int(value[:2]) if value in WIDTHS else 60


# Neither cargo nor std::env::var has such a value: it counts as none, with or without a warning
NOT_UNICODE = "48bits\udcff"


def draw_value(r):
    k = r.randrange(10)
    if k < 6:
        return r.choice(WIDTHS)
    if k == 6:
        return None
    return r.choice(["", "60", "64bits", "47bits", "60Bits", "0bits", "bits", "60bits ", " 60bits", "59 bits", "wide", "48bit", "-1bits", "600bits", "٦٠bits", "0x3cbits", "5bits", "056bits", NOT_UNICODE])


def history(c, h, target):
    """Build once per value in one target directory: what's wrong, or None"""
    before = "?"
    for i, (value, profile) in enumerate(h):
        tb = vlib.tagged_box(value, profile, target=target)
        got, want = constants(c, tb), expected(wanted(value))
        c.evaluations += 1
        if value != before:
            c.distinct += 1
        lab = "documented value" if value in WIDTHS else "unset" if value is None else "malformed value"
        c.labels[lab] = c.labels.get(lab, 0) + 1
        before = value
        if got != want:
            return "build %d of %s has the constants %s, not %s" % (i + 1, [v for v, _ in h[:i + 1]], got, want)
        if value not in (None, NOT_UNICODE) and value not in WIDTHS and "warning: tagged-box" not in tb["stderr"]:
            return "the value %r passed without a warning" % value
        if (value is None or value in WIDTHS) and re.search(r"warning: tagged-box@", tb["stderr"]):
            return "the value %r was warned about: %s" % (value, tb["stderr"][-400:])
    return None


def c03(c):
    r = random.Random("c03/%s" % c.seed)
    # Every documented width, both profiles, from nothing
    def fresh(k):
        w, p = k
        got, want = constants(c, vlib.tagged_box(w, p)), expected(wanted(w))
        with c.lock:
            c.evaluations += 1
            c.distinct += 1
            if got != want:
                c.failures.append(dict(kind="history", history=[[w, p]], suite="c03", trace=[], message="a %s build for %s has the constants %s, not %s" % (p, w, got, want)))
    vlib.parallel(fresh, [(w, p) for w in WIDTHS + [None] for p in (DEV, REL)])
    if c.failures:
        return
    # Histories
    n = (8, 10) if c.quick else (40, 30)
    hs = []
    for i in range(n[0]):
        h = [(draw_value(r), DEV if r.random() < 0.8 else REL) for _ in range(n[1])]
        hs.append(h)
    # And those most likely to go stale: there and back, unset after set, malformed after set
    hs.append([("60bits", DEV), ("52bits", DEV), ("60bits", DEV), (None, DEV), ("48bits", DEV), (None, DEV), ("63bits", DEV), ("", DEV), ("63bits", DEV), ("64bits", DEV), ("63bits", DEV), (NOT_UNICODE, DEV)])

    def run(h):
        if c.failures:
            return
        t = c.scratch(".target")
        try:
            bad = history(c, h, t)
        finally:
            shutil.rmtree(t, ignore_errors=True)
        if bad:
            h2 = shrink_history(c, h)
            t = c.scratch(".target")
            again = history(c, h2, t)
            shutil.rmtree(t, ignore_errors=True)
            c.fail(kind="history", history=h2, suite="c03", trace=[], message=again or bad)

    vlib.parallel(run, hs)
    c.samples += ["builds in one target directory under %s" % [("unset" if v is None else v) for v, _ in h] for h in hs[:3]]


def shrink_history(c, h, budget=60):
    end = time.time() + budget
    i = 0
    while i < len(h) and len(h) > 1 and time.time() < end:
        h2 = h[:i] + h[i + 1:]
        t = c.scratch(".target")
        try:
            bad = history(c, h2, t)
        except BuildError:
            bad = None
        finally:
            shutil.rmtree(t, ignore_errors=True)
        if bad:
            h = h2
        else:
            i += 1
    return h


# ------------------------------------------------------------------------------------------------
# C11: more variants than a byte can number, at further widths (the plan has them for every suite)

def c11(c):
    if not c.quick:
        for width in ("50bits", "52bits", "54bits", "55bits"):
            c.decl_job(width, DEV, declgen.huge(300), ["c11"], 600)


def c19(c):
    pass


# ------------------------------------------------------------------------------------------------
# C23: generated histories under Miri

HEAD = "#![allow(warnings)]\n"
MIRI_SUITES = "c05 c07 c08 c09 c10 c11 c12 c13 c14 c15 c16 c18 c19 c19_apart c19_shared c19_use c22 c22_ord c24".split()
MIRI_CORE = {"boxes": ["c05", "c19", "c24", "c28left"], "pointer": ["c01", "c02", "c10", "c16", "c17", "c18"]}
MIRIFLAGS = "-Zmiri-permissive-provenance -Zmiri-ignore-leaks -Zmiri-disable-stacked-borrows -Zmiri-disable-isolation"


def miri_env(target, width="60bits", triple=None):
    e = vlib.env(RUSTUP_TOOLCHAIN="nightly", MIRIFLAGS=MIRIFLAGS, CARGO_TARGET_DIR=target, TAGGED_BOX_RESERVED_WIDTH=width)
    if triple:
        e["XDG_CACHE_HOME"] = os.path.join(vlib.BUILD, "miri-" + triple)
    return e


def miri_cmd(triple, binary, cases):
    return (["cargo", "miri", "run", "--offline"] + (["--target", triple] if triple else [])
            + ["--bin", binary, "--", "--cases-file", cases, "--known", "drop-leak,into_inner-leak,interior-mutability"])


def miri_sysroot(c, triple):
    """The standard library for another target, from its sources"""
    with vlib.lock("miri-" + triple):
        code, out, err = vlib.sh(["cargo", "miri", "setup", "--target", triple], cwd=c.work, e=miri_env(os.path.join(c.work, "sysroot-target"), triple=triple), timeout=600)
    if code != 0:
        raise BuildError("Miri can't build a standard library for %s: %s" % (triple, err[-3000:]))


def miri_build(c, crate, target, bins, width, triple=None):
    """The command lines which run the crate's binaries under Miri"""
    code, out, err = vlib.sh(miri_cmd(triple, bins[0], "/dev/null"), cwd=crate, e=miri_env(target, width, triple), timeout=600)
    if code != 0:
        if triple and "could not compile `tagged-box`" in err:
            return "tagged-box doesn't build for %s: %s" % (triple, first_error(err))
        raise BuildError("Miri can't build the programs: " + err[-3000:])


def miri_run(c, crate, target, binary, lines, width, timeout=500, triple=None, wrong=False):
    """(completed cases, undefined behaviour as (line, message) or None); `wrong`: a wrong answer counts too"""
    f = c.scratch(".cases")
    with open(f, "w") as fh:
        fh.write("\n".join(lines) + "\n")
    code, out, err = vlib.sh(miri_cmd(triple, binary, f), cwd=crate, e=miri_env(target, width, triple), timeout=timeout)
    os.remove(f)
    said = out.split("\n")
    ran = [x[4:] for x in said if x.startswith("RUN ")]
    ok = [x for x in said if x.startswith("OK")]
    useful = sum(x == "OK 1" for x in ok)
    if "Undefined Behavior" in err:
        m = re.search(r"error: Undefined Behavior: (.*)", err)
        where = re.findall(r"(?:-->|at) (/repo/\S+)", err)
        return len(ok), useful, (ran[-1] if ran else "?", "undefined behaviour: " + (m.group(1) if m else "?") + (" (%s)" % where[0] if where else "")), err
    if wrong:
        for i, x in enumerate(said):
            if x.startswith("FAIL ") and i and said[i - 1].startswith("RUN "):
                return len(ok), useful, (said[i - 1][4:], x[5:]), err
    if code is None:
        raise Inconclusive("Miri took too long")
    if code not in (0, 1):
        raise BuildError("Miri ended with %s: %s" % (code, err[-2500:]))
    return len(ok), useful, None, err


def c23(c):
    q = c.quick
    miri_sweep(c, [None], 10 if q else 60, 3 if q else 30, (1 if q else 20), MIRI_CORE,
               ("ZooSmall", "ZooZst", "ZooRec", "ZooNest", "ZooBare", "ZooCustomOrd", "ZooNiche", "ZooOrd", "ZooOneUnit", "ZooAlign", "ZooOrder") if q else None, False)


# C26: the same on targets with pointers of 32 bits and on big-endian ones, where wrong answers count too
FOREIGN = ["i686-unknown-linux-gnu", "s390x-unknown-linux-gnu", "powerpc-unknown-linux-gnu", "armv7-unknown-linux-gnueabihf", "aarch64-unknown-linux-gnu"]
FOREIGN_CORE = {"boxes": ["c04", "c05", "c24", "c28left"], "pointer": ["c01", "c02", "c03", "c10", "c16", "c17", "c18"]}


def c26(c):
    q = c.quick
    triples = FOREIGN[:2] if q else FOREIGN
    vlib.parallel(lambda t: miri_sysroot(c, t), triples)
    miri_sweep(c, triples, 6 if q else 60, 3 if q else 20, 1 if q else 10, FOREIGN_CORE, ("ZooSmall", "ZooNest", "ZooNiche", "ZooAlign", "ZooZst") if q else None, True)
    c.kits |= set(triples)


def miri_sweep(c, triples, ndrawn, per, times, core, zoo_names, wrong):
    q = c.quick
    r = random.Random("%s/%s" % (c.pid.lower(), c.seed))
    g = declgen.Gen("%s/%s" % (c.pid.lower(), c.seed))
    zoo = declgen.zoo()
    drawn = []
    while len(drawn) < ndrawn:
        d = g.decl("Drawn%d" % len(drawn), nvar=g.r.choice([2, 3, 4, 5, 6]))
        if declgen.valid(d):
            drawn.append(d)
    decls = [declgen.huge(140)] + [d for d in zoo if zoo_names is None or d["name"] in zoo_names] + drawn
    groups = [[d] for d in decls] if q else [decls[i:i + 2] for i in range(0, len(decls), 2)]
    width = ["60bits", "48bits", "56bits", "52bits", "63bits"]
    # Cases are drawn natively
    emit = {}
    kit = Kit("60bits", DEV)

    def core_cases(k):
        which, s = k
        code, out, err = vlib.sh([kit.core(which), "--suite", s, "--seed", str(c.seed), "--cases", "0", "--emit", str((16 if which == "boxes" else 24) * times), "--ops", "10", "--no-systematic"])
        if code != 0:
            raise BuildError("no cases for %s: %s" % (s, err[-500:]))
        emit[k] = [x for x in out.split("\n") if x]
    vlib.parallel(core_cases, [(w, s) for w in core for s in core[w]])
    some = emit[("boxes", "c05")] + emit[("boxes", "c24")]

    jobs = []
    for t in triples:
        for which in core:
            for s in core[which]:
                ls = emit[(which, s)]
                for i in range(0, len(ls), 12):
                    jobs.append((t, "core", which, ls[i:i + 12]))
        for i, ds in enumerate(groups):
            lines = []
            for d in ds:
                big = sum(len(v["fields"]) for v in d["variants"]) > 40
                for s in MIRI_SUITES:
                    if s in ("c14", "c15") and not declgen.suits(d, s) or not declgen.suits(d, s):
                        continue
                    for _ in range(1 if big and q else per):
                        case = r.choice(some).split(" ", 2)[2]
                        lines.append("%s %s %s" % (d["name"], s, shorter(case, 4 if big else 7)))
            jobs.append((t, "decl", ds, lines))
    # One crate per width, a binary for each group of declarations
    placed_jobs, programs = [], {}
    for n, k in enumerate(jobs):
        if k[1] == "core":
            w, binary = "60bits", k[2]
            if wrong and n % 3 == 1 and not k[3][0].startswith("cells "):
                w = width[n // 3 % len(width)]
        else:
            w, binary = width[n % len(width)], "g%d" % n
            if any(len(d["variants"]) > (1 << (64 - int(w[:2]))) for d in k[2]):
                w = "52bits"
        of = programs.setdefault((k[0], w), {})
        if k[1] == "decl":
            of[binary] = declgen.program(k[2], MIRI_SUITES, head=max((d.get("head") or HEAD for d in k[2]), key=len))
        placed_jobs.append((k, w, binary))
    crates = {p: miri_crate(c, "%s-%s" % (p[0] or "host", p[1]), programs[p]) for p in programs}
    built = vlib.parallel(lambda p: miri_build(c, crates[p], crates[p] + "-target", ["boxes"], p[1], p[0]), list(crates))
    for p, message in zip(crates, built):
        if message:
            return c.fail(kind="miri-build", width=p[1], triple=p[0], suite=c.pid.lower(), message=message, trace=[])

    def job(j):
        if c.failures:
            return
        k, w, binary = j
        t, what, of, lines = k
        crate, target = crates[(t, w)], crates[(t, w)] + "-target"
        done, useful, bad, err = miri_run(c, crate, target, binary, lines, w, timeout=600 if q else 7200, triple=t, wrong=wrong)
        with c.lock:
            c.evaluations += done
            c.distinct += useful
            c.kits.add("miri " + w)
            label = "miri " + what + (" " + t if t else "")
            c.labels[label] = c.labels.get(label, 0) + done
            if what == "decl":
                c.decls |= {json.dumps(d) for d in of}
            if len(c.samples) < 6 and lines:
                c.samples.append("Miri, %s%s: %s" % (t + ", " if t else "", w, lines[0]))
        if bad:
            entry, suite, case = bad[0].split(" ", 2)
            f = dict(kind="miri", width=w, triple=t, wrong=wrong, entry=entry, suite=suite, case=json.loads(case), message=(t + ": " if t else "") + bad[1],
                     trace=[x for x in err.split("\n") if "/repo/" in x][:12],
                     core=of if what == "core" else None, decl=next((d for d in of if d["name"] == entry), None) if what == "decl" else None)
            c.fail(**miri_shrink(c, f, crate, target, binary))

    errors = []

    def guarded(k):
        try:
            job(k)
        except BuildError as e:
            errors.append(e)
        except Inconclusive as e:
            with c.lock:
                c.inconclusive.append(str(e))
    # The longest first
    vlib.parallel(guarded, sorted(placed_jobs, key=lambda j: (j[0][1] == "core", -max([len(d["variants"]) for d in j[0][2]], default=0) if j[0][1] == "decl" else 0)))
    if errors and not c.failures:
        raise errors[0]


def shorter(case, n):
    return json.dumps(json.loads(case)[:n]).replace(" ", "")


def miri_crate(c, name, programs):
    """A crate with generated programs and the core workers"""
    d = os.path.join(c.work, "miri-" + name)
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    bins = "".join('[[bin]]\nname = "%s"\npath = "%s/harness/src/core/%s_main.rs"\n' % (b, vlib.VERIF, b) for b in ("boxes", "pointer"))
    for b, text in programs.items():
        with open(os.path.join(d, "src", b + ".rs"), "w") as f:
            f.write(text)
        bins += '[[bin]]\nname = "%s"\npath = "src/%s.rs"\n' % (b, b)
    with open(os.path.join(d, "Cargo.toml"), "w") as f:
        f.write('[package]\nname = "miricrate"\nversion = "0.0.0"\nedition = "2021"\nautobins = false\n[workspace]\n[dependencies]\n'
                'tbx = { path = "%s/harness", default-features = false }\ntagged-box = { path = "/repo" }\ntbx-engine = { path = "%s/engine", default-features = false }\n%s[profile.dev]\ndebug = 1\n' % (vlib.VERIF, vlib.VERIF, bins))
    return d


def miri_shrink(c, f, crate, target, binary, budget=60):
    """Fewer operations, smaller words, as long as it is undefined behaviour"""
    end = time.time() + budget
    case = f["case"]

    def bad(x):
        line = "%s %s %s" % (f["entry"], f["suite"], json.dumps(x).replace(" ", ""))
        try:
            return miri_run(c, crate, target, binary, [line], f["width"], timeout=60, triple=f["triple"], wrong=f["wrong"])[2]
        except (BuildError, Inconclusive):
            return None
    progress = True
    while progress and time.time() < end:
        progress = False
        cands = [case[:i] + case[i + 1:] for i in range(len(case))] if len(case) > 1 else []
        for i in range(0, len(cands), 8):
            got = vlib.parallel(bad, cands[i:i + 8])
            hit = [(x, b) for x, b in zip(cands[i:i + 8], got) if b]
            if hit:
                case, b = hit[0]
                f = dict(f, case=case, message=(f["triple"] + ": " if f["triple"] else "") + b[1])
                progress = True
                break
    return f


# ------------------------------------------------------------------------------------------------
# C25: without the standard library

def c25(c):
    r = random.Random("c25/%s" % c.seed)
    g = declgen.Gen("c25/%s" % c.seed)
    n = 22 if c.quick else 220
    jobs = []
    for i in range(n):
        w = WIDTHS[(i * 5) % 16] if i else "60bits"
        jobs.append((i, nostd_decl(g.r, i), w, REL if i % 3 == 2 else DEV, g.r.getrandbits(32)))

    def one(k):
        if c.failures:
            return
        i, d, w, p, seed = k
        ok, msg, src = nostd_run(c, d, w, p, seed)
        with c.lock:
            c.evaluations += 1
            c.distinct += 1
            c.kits.add("%s-%s" % (w, p))
            c.decls.add(json.dumps(d))
            if len(c.samples) < 3:
                c.samples.append("%s-%s: %s" % (w, p, re.sub(r"\s+", " ", declgen.invocation(d, ""))))
        if not ok:
            c.fail(kind="nostd", width=w, profile=p, decl=d, payload=seed, suite="c25", message=msg, trace=[], source=src)

    vlib.parallel(one, jobs)
    c.extra["rule_detail"] = "each case is a declaration compiled into a freestanding program (no_std, no_main, its own allocator and panic handler) and run"


NOSTD_TYPES = ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "bool", "char", "(u8, u64)", "[u16; 3]", "Option<u32>", "()", "alloc::string::String",
               "alloc::vec::Vec<u64>", "alloc::boxed::Box<u32>"]
NOSTD_MAKE = {
    "bool": "(n() & 1 == 1)", "char": "(b'a' + (n() % 26) as u8) as char", "(u8, u64)": "(n() as u8, n())", "[u16; 3]": "[n() as u16, n() as u16, n() as u16]", "Option<u32>": "Some(n() as u32)", "()": "()",
    "alloc::string::String": "alloc::string::String::from(if n() & 1 == 1 { \"one\" } else { \"another\" })", "alloc::vec::Vec<u64>": "alloc::vec![n(), n()]", "alloc::boxed::Box<u32>": "alloc::boxed::Box::new(n() as u32)",
}


def nostd_decl(r, i):
    # Every arity from 0 to 32 within eleven declarations
    shapes = [("tuple", (i // 2 * 3 + k) % 33) for k in range(3)] if i % 2 else []
    for k in range(r.choice([1, 2, 3, 4, 5, 6]) - len(shapes) // 2):
        kind = r.choice(["unit", "tuple", "tuple", "struct"])
        shapes.append((kind, {"unit": 0, "tuple": r.choice([0, 1, 1, 2, 3, 5, 8]), "struct": r.choice([0, 1, 2, 4, 33])}[kind]))
    r.shuffle(shapes)
    variants, taken = [], set()
    for k, (kind, n) in enumerate(shapes):
        v = {"name": "V%d" % k, "kind": kind, "fields": [["f%d" % j if kind == "struct" else str(j), r.choice(NOSTD_TYPES)] for j in range(n)], "comma": r.random() < 0.5}
        key = declgen_key(v)
        if key in taken:
            v["kind"], v["fields"] = "unit", []
        elif key:
            taken.add(key)
        variants.append(v)
    return {"name": "Bare%d" % i, "cls": "Partial", "cont": "Container", "enum": "Item", "vis": "pub ", "evis": "pub ", "doc": False, "variants": variants}


def declgen_key(v):
    return declgen.from_key(v)


NOSTD = """#![no_std]
#![no_main]
#![allow(warnings)]
extern crate alloc;
use core::alloc::{GlobalAlloc, Layout};
extern "C" { fn malloc(n: usize) -> *mut u8; fn aligned_alloc(a: usize, n: usize) -> *mut u8; fn free(p: *mut u8); fn _exit(c: i32) -> !; fn write(fd: i32, p: *const u8, n: usize) -> isize; }
struct Heap;
unsafe impl GlobalAlloc for Heap {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { let a = if l.align() < 16 { 16 } else { l.align() }; aligned_alloc(a, (l.size() + a - 1) / a * a) }
    unsafe fn dealloc(&self, p: *mut u8, _: Layout) { free(p) }
}
#[global_allocator] static HEAP: Heap = Heap;
#[panic_handler] fn panicked(_: &core::panic::PanicInfo) -> ! { unsafe { _exit(101) } }
#[no_mangle] pub extern "C" fn rust_eh_personality() {}
#[no_mangle] pub extern "C" fn _Unwind_Resume() -> ! { unsafe { _exit(102) } }
static mut STATE: u64 = %(seed)d;
fn n() -> u64 { unsafe { STATE = STATE.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); STATE >> 17 } }
struct Out; impl core::fmt::Write for Out { fn write_str(&mut self, s: &str) -> core::fmt::Result { unsafe { write(1, s.as_ptr(), s.len()); } Ok(()) } }
tagged_box::tagged_box! {
%(inv)s
}
impl core::fmt::Display for Item { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { core::fmt::Debug::fmt(self, f) } }
fn make(v: u64) -> Item { match v { %(arms)s _ => unreachable!() } }
fn contents(v: u64) -> Option<Container> { Some(match v { %(froms)s _ => return None }) }
#[no_mangle]
pub extern "C" fn main(_: i32, _: *const *const u8) -> i32 {
    use tagged_box::{TaggableContainer, TaggableInner, TaggedBox};
    use core::fmt::Write;
    let count = %(count)d;
    for v in 0..count {
        if v > tagged_box::discriminant::MAX_DISCRIMINANT as u64 { break }
        for _ in 0..4 {
            let e = make(v);
            let keep = e.clone();
            let c = Container::from(e);
            if core::mem::size_of_val(&c) != 8 { return 3 }
            if c.value.discriminant() as u64 != v { return 4 }
            let d = c.clone();
            if !(c == d) { return 5 }
            let mut seen = false;
            unsafe { Item::ref_from_tagged_box(&c.value, |r| seen = *r == keep) };
            if !seen { return 6 }
            if c.into_inner() != keep { return 7 }
            let b = keep.clone().into_tagged_box();
            if Item::from_tagged_box(b) != keep { return 8 }
            let _ = write!(Out, "{:?}", d);
            if d.into_inner() != keep { return 9 }
            // From the contents alone
            let was = unsafe { STATE };
            let e = make(v);
            unsafe { STATE = was };
            if let Some(c) = contents(v) {
                if c.value.discriminant() as u64 != v { return 11 }
                let _ = write!(Out, "{:x} {:?}", c.value, c.value);
                if c.into_inner() != e { return 12 }
            }
            // In order
            let (b, d) = (e.clone().into_tagged_box(), make(v).into_tagged_box());
            if (b.partial_cmp(&d), b == d) != (Item::from_tagged_box(b.clone()).partial_cmp(&Item::from_tagged_box(d.clone())), Item::from_tagged_box(b) == Item::from_tagged_box(d)) { return 13 }
        }
    }
    let b = TaggedBox::<Item>::new(n(), 1); 
    if b.discriminant() != 1 { return 10 }
    0
}
"""


def nostd_program(d, seed):
    arms, froms = [], []
    for i, v in enumerate(d["variants"]):
        if v["kind"] == "tuple":
            made = ", ".join(NOSTD_MAKE.get(t, "n() as %s" % t) for _, t in v["fields"])
            froms.append("%d => Container::from(%s)," % (i, made if len(v["fields"]) == 1 else "(%s)" % made))
        mk = lambda t: NOSTD_MAKE.get(t, "n() as %s" % t)
        if v["kind"] == "unit":
            arms.append("%d => Item::%s," % (i, v["name"]))
        elif v["kind"] == "tuple":
            arms.append("%d => Item::%s(%s)," % (i, v["name"], ", ".join(mk(t) for _, t in v["fields"])))
        else:
            arms.append("%d => Item::%s { %s }," % (i, v["name"], ", ".join("%s: %s" % (f, mk(t)) for f, t in v["fields"])))
    return NOSTD % {"inv": declgen.invocation(d, ""), "arms": " ".join(arms), "froms": " ".join(froms), "count": len(d["variants"]), "seed": seed}


def nostd_run(c, d, width, profile, seed):
    tb = vlib.tagged_box(width, profile)
    src, out = c.scratch(".rs"), c.scratch(".bin")
    text = nostd_program(d, seed)
    with open(src, "w") as f:
        f.write(text)
    code, _, err = vlib.rustc(["--edition", "2021", "--crate-name", "freestanding", src, "-o", out, "--extern", "tagged_box=" + tb["rlib"], "-L", "dependency=" + tb["deps"],
                               "-C", "panic=abort", "-C", "link-arg=-lc"] + vlib.OPTS[profile])
    try:
        if code is None:
            raise Inconclusive("rustc took too long")
        if code != 0:
            # Is std in the way, or is the program itself at fault?
            plain_src = re.sub(r"tagged_box::tagged_box! \{.*?\n\}\n", "", text, flags=re.S)
            return False, "a no_std program doesn't build: " + first_error(err), text
        code, o, e = vlib.sh([out], timeout=60)
        if code is None:
            raise Inconclusive("a freestanding program took too long")
        if code != 0:
            return False, "a freestanding program ended with %s (%s)" % (code, {3: "a container isn't a word", 4: "a wrong tag", 5: "a clone differs", 6: "another value is seen by reference", 7: "into_inner gave another value", 8: "from_tagged_box gave another value", 9: "a clone gave another value", 10: "a wrong tag", 11: "contents became another variant", 12: "a value made from contents differs", 13: "boxes compare unlike their values", 101: "it panicked"}.get(code, "a crash")), text
        return True, "", text
    finally:
        for p in (src, out):
            if os.path.exists(p):
                os.remove(p)


# ------------------------------------------------------------------------------------------------
# Probes: the documented interface, for when the harness doesn't build

def probe(c):
    path = os.path.join(vlib.VERIF, "probes", c.pid + ".rs")
    if not os.path.exists(path):
        return
    with open(path) as f:
        text = f.read()
    try:
        ok, err = metadata(c, text, "60bits")
    except BuildError:
        return
    if not ok:
        c.fail(kind="probe", suite=c.pid, width="60bits", source=text, trace=[], message="the documented interface isn't there: " + first_error(err))


def replay(c, f):
    """(bad, message)"""
    k = f["kind"]
    if k == "history":
        t = c.scratch(".target")
        bad = history(c, f["history"], t)
        return bool(bad), bad or ""
    if k in ("declaration", "refusal"):
        ok, err, _ = c20_case(c, f["decl"], f["width"], f["edition"], f["context"])
        if k == "declaration":
            return not ok, err
        return ok or "Only enum tuple variants of up to 32 elements are supported" not in err, err
    if k == "borrows":
        import borrows
        return borrows.replay(c, f)
    if k == "scopes":
        import scopes
        return scopes.replay(c, f)
    if k == "nostd":
        ok, msg, _ = nostd_run(c, f["decl"], f["width"], f["profile"], f["payload"])
        return not ok, msg
    if k == "constants":
        import consts
        return consts.replay(c, f)
    if k == "probe":
        ok, err = metadata(c, f["source"], "60bits")
        return not ok, err
    if k == "compile":
        ok = c.compile_decl(Kit(f["width"], f["profile"]), f["decl"], [f["suite"]])[0]
        return not ok, f["message"]
    if k == "miri-build":
        miri_sysroot(c, f["triple"])
        message = miri_build(c, miri_crate(c, "replay", {}), os.path.join(c.work, "miri-target"), ["boxes"], f["width"], f["triple"])
        return bool(message), message or ""
    if k == "miri":
        crate = miri_crate(c, "replay", {} if f["core"] else {"g": declgen.program([f["decl"]], [f["suite"]], head=f["decl"].get("head") or HEAD)})
        binary = f["core"] or "g"
        line = "%s %s %s" % (f["entry"], f["suite"], json.dumps(f["case"]).replace(" ", ""))
        if f["triple"]:
            miri_sysroot(c, f["triple"])
        _, _, bad, err = miri_run(c, crate, os.path.join(c.work, "miri-target"), binary, [line], f["width"], triple=f["triple"], wrong=f["wrong"])
        return bool(bad), bad[1] + "\n" + err if bad else ""
    raise ValueError(k)
