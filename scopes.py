"""C30: what a declaration makes: the two documented types, seen from wherever a program may stand"""
import json, os, random
import borrows, vlib
from vlib import BuildError, DEV, Inconclusive

FIELDS = ["u8", "u64", "String", "Vec<u8>", "(u8, u16)", "&'static str", "Box<u8>", "[u16; 3]", "Option<char>", "bool", "std::rc::Rc<u8>", "std::cell::Cell<u8>"]
COPIES = ["u8", "u64", "(u8, u16)", "&'static str", "[u16; 3]", "bool", "char"]
VIS = ["", "pub ", "pub ", "pub ", "pub(crate) ", "pub(super) ", "pub(in crate::outer) ", "pub(self) "]
DERIVES = [[], [], ["Clone"], ["Debug", "Clone"], ["Clone", "Copy"], ["PartialEq"], ["Debug", "Clone", "PartialEq"], ["Clone", "PartialEq", "PartialOrd"], ["Clone", "Copy", "Debug", "PartialEq", "Eq"],
           ["PartialEq", "Eq", "PartialOrd", "Ord"], ["Debug", "Clone", "PartialEq", "Eq", "PartialOrd", "Ord"]]
TRAITS = ["Clone", "Copy", "std::fmt::Debug", "PartialEq", "Eq", "PartialOrd", "Ord", "std::hash::Hash", "Default", "Send", "Sync", "std::fmt::Display", "std::fmt::LowerHex", "Unpin", "'static",
          "tagged_box::TaggableContainer", "tagged_box::TaggableInner", "Into<u64>", "std::ops::Deref", "AsRef<u64>", "From<@E>", "Into<@E>", "tagged_box::TaggableContainer<Inner = @E>", "From<@C>", "Iterator", "std::borrow::Borrow<u64>"]
OWN = ["impl @C { pub fn %s(&self) -> u8 { 7 } } fn own(x: &@C) -> u8 { @C::%s(x) }" % (n, n) for n in ("value", "new", "get", "tag", "discriminant", "as_ref", "inner", "take", "boxed", "into_raw", "variants", "kind")]
OWN += [o.replace("@C", "@E") for o in OWN]
OWN += ["impl std::fmt::Display for @C { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) } }", "impl std::fmt::Display for @E { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) } }",
        "impl Default for @C { fn default() -> Self { loop {} } }", "impl Default for @E { fn default() -> Self { loop {} } }", "impl std::ops::Deref for @C { type Target = u8; fn deref(&self) -> &u8 { &1 } }",
        "impl From<@C> for @E { fn from(c: @C) -> @E { tagged_box::TaggableContainer::into_inner(c) } }", "impl From<&@E> for @C { fn from(e: &@E) -> @C { loop {} } }", "impl std::hash::Hash for @C { fn hash<H: std::hash::Hasher>(&self, h: &mut H) {} }",
        "impl Iterator for @C { type Item = u8; fn next(&mut self) -> Option<u8> { None } }", "impl Clone for @C { fn clone(&self) -> Self { loop {} } }", "impl PartialEq for @E { fn eq(&self, o: &Self) -> bool { true } }"]


def declaration(r):
    dv = r.choice(DERIVES)
    pool = COPIES if "Copy" in dv else [f for f in FIELDS if not ("Eq" in dv or "Ord" in dv) or "Cell" not in f]
    vs = []
    for n in range(r.choice([1, 2, 2, 3, 4, 6])):
        k = r.choice(["unit", "tuple", "tuple", "struct"])
        # No two variants convert from the same
        fs = [] if k == "unit" else [r.choice(pool) for _ in range(r.choice([0, 2, 3]) if k == "tuple" else r.randint(0, 3))]
        if k == "tuple":
            fs = ["[u8; %d]" % (n + 1)] + fs
        vs.append([k, "V%d" % n, fs, r.random() < 0.5])
    attrs = r.choice([[], [], [], ["must_use"], ["deprecated"], ["doc(hidden)"], ["non_exhaustive"], ["allow(dead_code)"], ["cfg(all())"], ["doc = \"What it is\"", "must_use = \"why\""]])
    ds = [["derive(%s)" % ", ".join(dv)]] if dv and r.random() < 0.7 else [["derive(%s)" % d] for d in dv]
    ms = [x[0] for x in ds] + attrs
    r.shuffle(ms)
    v = r.choice(VIS)
    # A container can't be more visible than its enum
    return {"attrs": ms, "svis": v, "evis": r.choice([v, "pub ", r.choice(VIS)]), "variants": vs}


def variant(v):
    k, name, fs, comma = v
    if k == "unit":
        return name + ","
    if k == "tuple":
        return "%s(%s)," % (name, ", ".join(fs))
    return "%s { %s%s }," % (name, ", ".join("f%d: %s" % x for x in enumerate(fs)), "," if fs and comma else "")


def written(d, real):
    at = " ".join("#[%s]" % a for a in d["attrs"])
    body = " ".join(map(variant, d["variants"]))
    if real:
        return "tagged_box::tagged_box! { %s %sstruct C, %senum E { %s } }" % (at, d["svis"], d["evis"], body)
    # What the documentation says it expands to
    froms = "".join("impl From<%s> for C { fn from(e: %s) -> Self { loop {} } }" % (t, t) for k, _, fs, _ in d["variants"] if k == "tuple" for t in ["(%s)" % ", ".join(fs)])
    return ("%s #[repr(transparent)] %sstruct C { value: tagged_box::TaggedBox<E> } %s %senum E { %s } impl From<E> for C { fn from(e: E) -> Self { loop {} } } %s"
            "impl tagged_box::TaggableContainer for C { type Inner = E; fn into_inner(self) -> E { loop {} } }"
            "impl tagged_box::TaggableInner for E { fn into_tagged_box(self) -> tagged_box::TaggedBox<Self> { loop {} } fn from_tagged_box(t: tagged_box::TaggedBox<Self>) -> Self { loop {} }"
            " unsafe fn ref_from_tagged_box<F>(t: &tagged_box::TaggedBox<Self>, f: F) where F: FnOnce(&Self) { loop {} } }" % (at, d["svis"], at, d["evis"], body, froms))


def pattern(v, r, n=0):
    """A pattern for a variant, with its fields as they are, or with one too many, too few or of another type"""
    k, name, fs, _ = v
    ns = ["x%d" % i for i in range(len(fs))]
    lets = " ".join("let _: %s = %s;" % (t, x) for t, x in zip(fs, ns))
    if n == 1 and fs:
        lets = "let _: i128 = x0;"
    if n == 2:
        ns = ns + ["more"] if r.random() < 0.5 or not ns else ns[1:]
        lets = ""
    if k == "unit":
        return "@E::%s%s" % (name, " { more }" if n == 2 else ""), ""
    if k == "tuple":
        return "@E::%s(%s)" % (name, ", ".join(ns)), lets
    return "@E::%s { %s }" % (name, ", ".join("f%d: %s" % x for x in enumerate(ns))), lets


def probe(d, r):
    vs = d["variants"]
    v = r.choice(vs)
    build = lambda v: "@E::%s%s" % (v[1], "" if v[0] == "unit" else ("(%s)" if v[0] == "tuple" else " { %s }") % ", ".join((("" if v[0] == "tuple" else "f%d: " % i) + "make::<%s>()" % t) for i, t in enumerate(v[2])))
    n = r.randrange(15)
    if n == 0:
        return "use it", "fn q(x: @%s) {}" % r.choice("CE")
    if n == 1:
        return "value", r.choice(["fn q(x: @C) { let y = x.value; }", "fn q(x: &@C) { let y = &x.value; }", "fn q() -> @C { @C { value: make() } }", "fn q(x: @C) { let @C { value } = x; }", "fn q(x: &mut @C) { x.value = make(); }", "fn q(x: @C) { let @C { .. } = x; }"])
    if n < 5:
        t, w = r.choice(TRAITS + [x for x in ("Clone", "Copy", "PartialEq", "Eq", "PartialOrd", "Ord") if any(x in a for a in d["attrs"])] * 6), r.choice("CE")
        return "traits", "fn q() { fn needs<T: %s>() {} needs::<@%s>() }" % (t, w)
    if n < 8:
        k = r.choice([0, 0, 0, 0, 1, 2])
        hit = r.randrange(len(vs))
        ps = [pattern(x, r, k if i == hit else 0) for i, x in enumerate(vs)]
        if len(ps) > 1 and r.random() < 0.25:
            ps.pop(hit)
        return "match", "fn q(e: @E) { match e { %s } }" % " ".join("%s => { %s }" % p for p in ps)
    if n == 8:
        return "build", "fn q() -> @C { @C::from(%s) }" % build(v)
    if n == 9:
        t = r.choice([v, [v[0], v[1], v[2] + ["u8"], 0], [v[0], v[1], v[2][1:], 0], [v[0], "V9", v[2], 0], ["tuple", v[1], v[2], 0], ["unit", v[1], [], 0]])
        return "build otherwise", "fn q() -> @E { %s }" % build(t)
    if n == 10:
        return "attribute", "#[deny(%s)] fn q() { %s; }" % (r.choice(["unused_must_use", "deprecated"]), r.choice(["make::<@C>()", "make::<@E>()", "let x: @C = make()", "let x: @E = make()"]))
    if n < 13:
        return "own code", r.choice(OWN)
    if n == 13:
        return "layout", r.choice(["const S: [(); 8] = [(); std::mem::size_of::<@C>()];", "const A: [(); 8] = [(); std::mem::align_of::<@C>()];", "fn q(x: @C) -> u64 { unsafe { std::mem::transmute(x) } }", "fn q(x: u64) -> @C { unsafe { std::mem::transmute(x) } }"])
    return "inside out", r.choice(["fn q(x: @C) -> @E { tagged_box::TaggableContainer::into_inner(x) }", "fn q(x: @C) -> <@C as tagged_box::TaggableContainer>::Inner { make::<@E>() }", "fn q(x: @E) -> tagged_box::TaggedBox<@E> { tagged_box::TaggableInner::into_tagged_box(x) }",
                                   "fn q(x: @E) -> tagged_box::TaggedBox<@C> { tagged_box::TaggableInner::into_tagged_box(x) }", "fn q(x: @E) -> @C { x.into() }", "fn q(x: @C) -> @C { @C::from(x) }"])


PLACES = ["here", "here", "here", "below", "beside", "above", "root", "abroad"]


def draw(r):
    d = declaration(r)
    what, p = probe(d, r)
    return [what, d, p, "here" if what == "own code" and r.random() < 0.8 else r.choice(PLACES)]


def texts(i, real):
    """The program, and the other crate's if there's one"""
    _, d, p, place = i
    at = {"here": "", "below": "super::", "beside": "super::inner::", "above": "inner::", "root": "outer::inner::", "abroad": "made::outer::inner::"}[place]
    p = "fn make<T>() -> T { loop {} } " + p.replace("@C", at + "C").replace("@E", at + "E")
    put = lambda x: p + "\n" if place == x else ""
    first = "#![allow(warnings)]\nextern crate tagged_box;\npub mod outer {\n%spub mod beside { %s }\npub mod inner {\n%s\n%smod below { %s }\n}\n}\n%s" % (put("above"), put("beside"), written(d, real), put("here"), put("below"), put("root"))
    return first, "#![allow(warnings)]\nextern crate tagged_box;\nextern crate made;\n" + p if place == "abroad" else None


def accepts(c, i, width, real):
    """(whether the compiler accepts it, what it says)"""
    tb = vlib.tagged_box(width, DEV) if real else borrows.model(c, width)
    one, two = texts(i, real)
    at = c.scratch(".d")
    os.makedirs(at)
    try:
        links = ["--extern", "tagged_box=" + tb["rlib"], "-L", "dependency=" + tb["deps"]]
        for name, text in (("made", one), ("user", two)):
            if text is None:
                break
            src, out = os.path.join(at, name + ".rs"), os.path.join(at, "lib%s.rmeta" % name)
            with open(src, "w") as f:
                f.write(text)
            code, _, err = vlib.rustc(["--edition", "2021", "--crate-type", "lib", "--crate-name", name, "--emit=metadata", src, "-o", out] + links)
            if code is None:
                raise Inconclusive("rustc took too long")
            if code != 0:
                return False, err
            links += ["--extern", "made=" + out]
        return True, ""
    finally:
        vlib.shutil.rmtree(at, ignore_errors=True)


def judge(c, i, width):
    """What's wrong, or None; and the model's verdict"""
    want, why = accepts(c, i, width, False)
    got, err = accepts(c, i, width, True)
    if want == got:
        return None, want
    if want:
        return "refused, though what the documentation says it expands to is accepted: " + err[:1500], want
    return "accepted, though what the documentation says it expands to is refused: " + why[:600], want


def smaller(i):
    what, d, p, place = i
    for k in range(len(d["attrs"])):
        yield [what, dict(d, attrs=d["attrs"][:k] + d["attrs"][k + 1:]), p, place]
    for k in range(len(d["variants"])):
        if len(d["variants"]) > 1 and d["variants"][k][1] not in p:
            yield [what, dict(d, variants=d["variants"][:k] + d["variants"][k + 1:]), p, place]
    for k in ("svis", "evis"):
        if d[k]:
            yield [what, dict(d, **{k: ""}), p, place]


def c30(c):
    r = random.Random("c30/%s" % c.seed)
    n = 700 if c.quick else 12000
    jobs = [(["60bits", "48bits", "63bits"][k % 7 % 3], draw(r)) for k in range(n)]
    jobs = [(w if len(i[1]["variants"]) < 3 or w != "63bits" else "60bits", i) for w, i in jobs]
    verdicts = [0, 0]
    seen = set()
    for w in ("60bits", "48bits", "63bits"):
        borrows.model(c, w)
        vlib.tagged_box(w, DEV)

    def one(j):
        if c.failures:
            return
        width, i = j
        bad, want = judge(c, i, width)
        with c.lock:
            c.evaluations += 1
            c.kits.add(width)
            verdicts[want] += 1
            k = "%s, %s" % (i[0], "accepted" if want else "refused")
            c.labels[k] = c.labels.get(k, 0) + 1
            c.labels["from " + i[3]] = c.labels.get("from " + i[3], 0) + 1
            if i[3] != "here" or i[0] not in ("use it", "build", "layout"):
                seen.add(json.dumps(i))
            if len(c.samples) < 6:
                c.samples.append("%s, from %s: %s // %s" % ("accepted" if want else "refused", i[3], i[2], written(i[1], True)))
        if bad:
            progress = True
            while progress:
                progress = False
                for s in smaller(i):
                    again, _ = judge(c, s, width)
                    if again:
                        i, bad, progress = s, again, True
                        break
            c.fail(kind="scopes", item=i, width=width, profile=DEV, suite="c30", message=bad, trace=["from " + i[3], i[2], written(i[1], True)])
    vlib.parallel(one, jobs)
    c.distinct = len(seen)
    if not c.failures and min(verdicts) * 8 < sum(verdicts):
        raise BuildError("nearly all programs have the same verdict: %s" % verdicts)


def replay(c, f):
    bad, _ = judge(c, f["item"], f["width"])
    return bool(bad), bad or ""
