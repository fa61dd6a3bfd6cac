#!/usr/bin/env python3
"""check.py <property> [--replay FILE] | --setup

Decides one property of tagged-box on /repo's current tree (VERIF_SEED, VERIF_TIER).
Exit 0: held on everything explored; 1: VIOLATION; 2: no verdict (something doesn't build, a timeout).
"""
import json
import os
import random
import shutil
import sys
import threading
import time
import traceback

import borrows
import consts
import declgen
import scopes
import special
import vlib
from vlib import DEV, REL, SHUFFLED, BuildError, Inconclusive, Kit

VERIF = vlib.VERIF
WIDTHS = ["%dbits" % w for w in range(48, 64)]
KNOWN_FILE = os.path.join(VERIF, "KNOWN_FINDINGS.txt")

# property -> core suites [(worker, entry, suite)], enum suites, heap-heavy or not
CORE = {
    "C01": [("pointer", "c01")], "C02": [("pointer", "c02")], "C03": [("pointer", "c03")],
    "C04": [("boxes", "c04")], "C05": [("boxes", "c05")], "C06": [("boxes", "c06")], "C10": [("pointer", "c10")],
    "C16": [("pointer", "c16")], "C17": [("pointer", "c17")], "C18": [("pointer", "c18")],
    "C19": [("boxes", "c19")], "C21": [("boxes", "c21")], "C24": [("boxes", "c24")], "C28": [("boxes", "c28")],
}
ENUM = {
    "C05": ["c05"], "C06": ["c06"], "C07": ["c07"], "C08": ["c08"], "C09": ["c09"], "C10": ["c10"], "C11": ["c11"], "C12": ["c12"], "C13": ["c13"],
    "C14": ["c14", "c14_container", "c14_ord"], "C15": ["c15", "c15_container"], "C16": ["c16"], "C18": ["c18"], "C19": ["c19_auto", "c19", "c19_apart", "c19_shared", "c19_use"],
    "C21": ["c21", "c21_clone"], "C22": ["c22", "c22_ord"], "C24": ["c24"],
}
SHUFFLE = ("C05", "C08", "C09", "C10")
LONG = {"C07": "ZooCopyA", "C14": "ZooOrd"}
SPECIAL = {"C03": special.c03, "C11": special.c11, "C19": special.c19, "C20": special.c20, "C23": special.c23, "C25": special.c25, "C26": special.c26, "C27": consts.c27, "C29": borrows.c29, "C30": scopes.c30}
PROPS = sorted(set(CORE) | set(ENUM) | set(SPECIAL))

RULES = {
    "C01": "Operations drawn by proptest (pack any fitting address and tag; take any 64-bit word apart and together; reach real memory; dangling for ten types), plus every tag with every single-bit and boundary address, over all 16 widths in dev and release. Non-trivial: a case with a non-zero tag and a non-zero address.",
    "C02": "Calls drawn by proptest through every constructor, with fitting and non-fitting tags and addresses. Non-trivial: a case with at least one input which must be refused.",
    "C03": "Histories of builds in one target directory under drawn values of the variable (documented, unset, malformed), each followed by reading the constants of what was built; plus every documented width in dev and release. Non-trivial: a build whose value differs from the one before it.",
    "C04": "Histories of boxes drawn by proptest over the table of stored types (sizes 0 to 4096+, alignments 1 to 4096, niches, unsized-owning, drop glue) against the values kept aside. Non-trivial: a history with a stored value read back under a non-zero tag.",
    "C28": "Histories drawn by proptest over boxes of an enum whose traits are written by hand, with drawn tags, layouts and ways to compare, clone and show, against the same functions of a model of the values. Non-trivial: a history with a clone, a text, a sort, a panic, or a comparison across tags or of equal values.",
    "C30": "A declaration (visibilities, attributes, derives, variants) and a piece of code which uses, matches, builds, extends or looks into what it makes, from a drawn place (same module, below, beside, above, the root, another crate), given to the compiler with the macro and with the documented expansion written out against the model: the verdicts must be the same. Non-trivial: any which doesn't merely use, build or measure the types in their own module.",
    "C29": "Functions drawn by a seeded generator (histories over boxes, containers, pointers, references taken from them and views; signatures that promise lifetimes), each given to the compiler with the crate and with a model which has the documented signatures only: the verdicts must be the same. Non-trivial: a function which the model refuses, a signature, or one which uses a reference taken from a box or pointer.",
    "C27": "Programs of constants drawn by a seeded generator (dangling pointers and boxes of 28 types under any tag, words taken apart and put together, static boxes and tables of variants, const generics), each constant compared with the same call at run time and with arithmetic done apart. Non-trivial: a constant with an argument that isn't zero, counted once per program.",
}
DEFAULT_RULE = ("Declarations drawn by a seeded generator (plus a systematic zoo of every variant kind and arity 0 to 32), each compiled, then operation histories drawn and shrunk by proptest "
                "run against a model that keeps every value's signature, its drop count and its heap blocks. Non-trivial: a history which the suite marks as having exercised its guarantee "
                "(a value was stored under some variant and came back through the operation in question), counted by distinct (declaration, suite, history).")


class Check:
    def __init__(self, pid, seed, tier):
        self.pid, self.seed, self.tier = pid, seed, tier
        self.t0 = time.time()
        self.deadline = self.t0 + (600 if tier == "quick" else 6 * 3600)
        self.evaluations = 0
        self.distinct = 0
        self.labels = {}
        self.samples = []
        self.known = {}
        self.failures = []      # dicts
        self.inconclusive = []
        self.kits = set()
        self.decls = set()
        self.uncompiled = []
        self.extra = {}
        self.lock = threading.Lock()
        self.known_keys = [k for k in known_keys(pid)]
        self.work = os.path.join(vlib.work_root(), "run-%s-%d" % (pid, os.getpid()))
        os.makedirs(self.work, exist_ok=True)
        self.n = 0

    @property
    def quick(self):
        return self.tier == "quick"

    def scratch(self, suffix=""):
        with self.lock:
            self.n += 1
            return os.path.join(self.work, "x%d%s" % (self.n, suffix))

    def merge(self, rep, where):
        with self.lock:
            self.evaluations += rep["evaluations"]
            self.distinct += rep["distinct"]
            for k, n in rep["labels"].items():
                self.labels[k] = self.labels.get(k, 0) + n
            for k, w in rep["known"].items():
                self.known.setdefault(k, w)
            if len(self.samples) < 12:
                self.samples += [where + ": " + s[:600] for s in rep["samples"]]

    def fail(self, **f):
        with self.lock:
            self.failures.append(f)

    def stopping(self):
        return len(self.failures) > 0

    # -- running a worker ---------------------------------------------------------------------
    def worker(self, binary, suite, cases, shard=0, ops=16, words=8, entry=None, systematic=True, fork=False, timeout=None):
        """(report or None, failure list)"""
        crash = self.scratch(".crash")
        args = [binary, "--suite", suite, "--seed", str(self.seed), "--shard", str(shard), "--cases", str(cases), "--ops", str(ops), "--words", str(words), "--crash-file", crash]
        if entry:
            args += ["--entry", entry]
        if not systematic:
            args += ["--no-systematic"]
        if self.known_keys:
            args += ["--known", ",".join(self.known_keys)]
        code, out, err = vlib.sh(args + (["--fork"] if fork else []), timeout=timeout or (300 if self.quick else 3600), e=vlib.env(TMPDIR=self.work))
        note = self.noted(crash)
        if code in (0, 1):
            try:
                return json.loads(out.strip().splitlines()[-1])
            except Exception:
                raise BuildError("the worker %s %s said: %s %s" % (binary, suite, out[-500:], err[-500:]))
        if code is None or code == -9:
            raise Inconclusive("the worker for %s ran out of time or memory" % suite)
        if code in (2, 3, 4, 101):
            raise BuildError("the worker for %s gave up (%s): %s" % (suite, code, err[-1500:]))
        if not fork:
            # The process ended by a signal: again, each case in a process of its own
            r = self.worker(binary, suite, cases, shard, ops, words, entry, systematic, True, timeout or 300)
            if r["failures"]:
                return r
            r["failures"] = [{"suite": suite, "entry": note[0], "case": note[1], "trace": [],
                              "message": "the process was ended by signal %d (only after the earlier cases of this run)" % -code}]
            return r
        raise BuildError("the forking worker for %s ended with %s" % (suite, code))

    @staticmethod
    def noted(path):
        try:
            with open(path) as f:
                body = f.read()
            os.remove(path)
            n = int(body[:8])
            what, case = body[8:8 + n].strip().split("\n")[:2]
            return what.split("/")[-1], json.loads(case)
        except Exception:
            return "?", []

    def core_job(self, width, profile, which, suite, cases, shard, systematic, ops=16, words=8):
        if self.stopping():
            return
        kit = Kit(width, profile)
        self.kits.add(kit.name)
        rep = self.worker(kit.core(which), suite, cases, shard, ops=ops, words=words, systematic=systematic)
        self.merge(rep, kit.name)
        for f in rep["failures"]:
            self.fail(kind="core", width=width, profile=profile, worker=which, run=dict(cases=cases, shard=shard, ops=ops, words=words, systematic=systematic), **{k: f[k] for k in ("suite", "entry", "case", "message", "trace")})

    # -- programs for a declaration -----------------------------------------------------------
    def compile_decl(self, kit, d, suites, head=None):
        src, out = self.scratch(".rs"), self.scratch(".bin")
        head = head or d.get("head") or "#![allow(warnings)]\n"
        with open(src, "w") as f:
            f.write(declgen.program([d], suites, head=head))
        ok, err = kit.program(src, out)
        os.remove(src)
        return out if ok else None, err

    def decl_job(self, width, profile, d, suites, cases, ops=14, words=8):
        if self.stopping() or time.time() > self.deadline:
            return
        suites = [s for s in suites if declgen.suits(d, s)]
        if not suites:
            return
        kit = Kit(width, profile)
        self.kits.add(kit.name)
        binary, err = self.compile_decl(kit, d, suites)
        if binary is None:
            with self.lock:
                self.uncompiled.append((kit.name, d, suites, err))
            return
        try:
            with self.lock:
                self.decls.add(json.dumps(d, sort_keys=True))
            for s in suites:
                n = 1 if s == "c19_auto" else cases // 4 if s in ("c19_apart", "c19_shared", "c19_use") else cases
                rep = self.worker(binary, s, n, ops=ops, words=words)
                self.merge(rep, "%s %s" % (kit.name, d["name"]))
                for f in rep["failures"]:
                    self.fail(kind="decl", width=width, profile=profile, decl=d, cases=cases, run=dict(cases=n, ops=ops, words=words), **{k: f[k] for k in ("suite", "entry", "case", "message", "trace")})
                    return
        finally:
            try:
                os.remove(binary)
            except FileNotFoundError:
                pass

    def shrink(self, f, budget=45):
        """A smaller declaration which fails in the same suite"""
        end = time.time() + budget
        kit = Kit(f["width"], f["profile"])

        def attempt(d):
            if time.time() > end or not declgen.valid(d) or not declgen.suits(d, f["suite"]):
                return None
            binary, _ = self.compile_decl(kit, d, [f["suite"]])
            if binary is None:
                return None
            try:
                rep = self.worker(binary, f["suite"], f["cases"], ops=14, timeout=30)
                return rep["failures"][0] if rep["failures"] else None
            except (BuildError, Inconclusive):
                return None
            finally:
                os.remove(binary)

        progress = True
        while progress and time.time() < end:
            progress = False
            todo = list(declgen.smaller(f["decl"]))
            for i in range(0, len(todo), vlib.CORES):
                chunk = todo[i:i + vlib.CORES]
                got = vlib.parallel(attempt, chunk)
                hit = [(d, g) for d, g in zip(chunk, got) if g]
                if hit:
                    d, g = hit[0]
                    f = dict(f, decl=d, **{k: g[k] for k in ("entry", "case", "message", "trace")})
                    progress = True
                    break
                if time.time() > end:
                    break
        return f

    # -- what doesn't compile -------------------------------------------------------------------
    def judge_uncompiled(self):
        """A declaration's program didn't compile: is it the declaration (C20's business) or the interface?"""
        if not self.uncompiled or self.failures:
            return
        self.extra["declarations_skipped"] = len(self.uncompiled)
        for name, d, suites, err in self.uncompiled[:3]:
            width, profile = name.rsplit("-", 1)
            if special.bare(self, d, width):
                # The declaration is fine by itself
                if self.pid == "C12" and self.compile_decl(Kit(width, profile), without_from(d), ["c08"])[0]:
                    return self.fail(kind="compile", width=width, profile=profile, decl=d, suite="c12", entry=d["name"], case=[], trace=[],
                                     message="the documented conversions aren't there: " + err[:1500])
                raise BuildError("the program for %s doesn't compile, its declaration does:\n%s" % (d["name"], err[:3000]))
        total = len(self.uncompiled) + len(self.decls)
        if len(self.uncompiled) * 2 > total:
            raise BuildError("most declarations don't compile:\n" + self.uncompiled[0][3][:3000])

    # -- the end ----------------------------------------------------------------------------------
    def finish(self):
        v = 0
        if self.failures:
            f = self.failures[0]
            if f["kind"] == "decl":
                try:
                    f = self.shrink(f)
                except Exception as e:  # the unshrunk failure stands
                    sys.stderr.write("shrinking stopped: %s\n" % e)
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            path = os.path.join(VERIF, "replays", "%s-%s.json" % (self.pid, vlib.hashlib.sha256(json.dumps(f, sort_keys=True).encode()).hexdigest()[:10]))
            with open(path, "w") as fh:
                json.dump(dict(f, property=self.pid, seed=self.seed), fh, indent=1)
            print("%s: %s" % (self.pid, f["message"]))
            if f.get("decl"):
                print(declgen.invocation(f["decl"], ""))
            for t in f.get("trace", [])[:40]:
                print("  " + t)
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            v = 1
        for line in known_lines(self.pid):
            if line[0] in self.known:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, line[1]))
        coverage = {
            "evaluations": self.evaluations, "distinct_nontrivial": self.distinct, "rule": RULES.get(self.pid, DEFAULT_RULE), "samples": self.samples[:12],
            "labels": dict(sorted(self.labels.items())), "kits": sorted(self.kits), "declarations": len(self.decls),
        }
        coverage.update(self.extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "exploration", "coverage": coverage,
              "assumptions": ["rustc and the platform's allocator are right", "x86_64 Linux, pointers of 64 bits" if self.pid != "C26" else "Miri interprets other targets rightly"],
              "wall_s": round(time.time() - self.t0, 2), "violations": v}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        if v:
            return 1
        if self.inconclusive:
            sys.stderr.write("no verdict: %s\n" % self.inconclusive[0])
            return 2
        print("%s held: %d cases, %d distinct and non-trivial, %d declarations, %.1f s" % (self.pid, self.evaluations, self.distinct, len(self.decls), time.time() - self.t0))
        return 0


def without_from(d):
    """The declaration with nothing which converts"""
    return dict(d, variants=[v if v["kind"] != "tuple" else dict(v, kind="unit", fields=[]) for v in d["variants"]])


def known_keys(pid):
    return [k for k, _ in known_lines(pid)]


def known_lines(pid):
    out = []
    with open(KNOWN_FILE) as f:
        for line in f:
            if line.startswith("known: property=%s key=" % pid):
                key, what = line.split("key=", 1)[1].strip().split(" ", 1)
                out.append((key, what))
    return out


# ------------------------------------------------------------------------------------------------
# The plan of a check: what runs where

CLASS_OF = {"c07": ["Copy"], "c13": ["Copy", "Ord", "Partial", "Custom", "CustomOrd"], "c22": ["Ord", "Partial"], "c15": ["Copy", "Ord", "Partial", "Custom", "CustomOrd"],
            "c14": ["Copy", "Ord", "Partial", "Custom", "CustomOrd"]}


def decls_for(suites, seed, n):
    """The zoo and `n` drawn declarations on which at least one of the suites applies"""
    zoo = [d for d in declgen.zoo() if any(declgen.suits(d, s) for s in suites)]
    g = declgen.Gen("%s/%s" % (suites[0], seed))
    drawn = []
    classes = CLASS_OF.get(suites[0])
    tries = 0
    while len(drawn) < n and tries < 50 * n:
        tries += 1
        cls = g.r.choice(classes) if classes else None
        d = g.decl("Drawn%d" % len(drawn), cls=cls, sendable="c19" in suites and g.r.random() < 0.6)
        if declgen.valid(d) and any(declgen.suits(d, s) for s in suites):
            drawn.append(d)
    return zoo, drawn


def plan(c):
    jobs = []
    pid = c.pid
    r = random.Random("plan/%s/%s" % (pid, c.seed))
    q = c.quick
    shard = 0
    for which, suite in CORE.get(pid, []):
        if which == "pointer":
            every = [(w, p) for w in WIDTHS for p in (DEV, REL)]
            if pid == "C10":
                every = [("60bits", DEV), ("48bits", DEV), ("60bits", REL)]
            n = {"C03": 1, "C10": 400}.get(pid, 1500) if q else {"C03": 1, "C10": 20000}.get(pid, 40000)
            for w, p in every:
                jobs.append((0, c.core_job, w, p, which, suite, n, shard, True))
                shard += 1
        else:
            kits = [("60bits", DEV), ("60bits", REL)] + ([(r.choice(WIDTHS), DEV)] if q else [(w, DEV) for w in WIDTHS])
            if pid == "C28" and q:
                kits = [("60bits", DEV), ("60bits", REL), ("48bits", REL), ("56bits", DEV), ("63bits", REL)]
            shards = 3 if q else 8
            n = {"C21": 150, "C19": 100, "C28": 1500}.get(pid, 300) if q else {"C21": 1500, "C19": 1500, "C28": 20000}.get(pid, 4000)
            for w, p in kits:
                for k in range(shards):
                    jobs.append((0, c.core_job, w, p, which, suite, n, shard, k == 0, 24 if k % 2 else 12))
                    shard += 1
            if pid in ("C04", "C05", "C06", "C24"):
                jobs.append((0, c.core_job, "60bits", REL, which, suite, 8000, shard, False, 24))
                shard += 1
    suites = ENUM.get(pid)
    if suites:
        nd = 72 if q else 600
        zoo, drawn = decls_for(suites, c.seed, nd)
        cases = 200 if q else 1500
        for d in zoo:
            jobs.append((1, c.decl_job, "60bits", DEV, d, suites, cases))
        for d in zoo:
            jobs.append((2, c.decl_job, "60bits", REL, d, suites, cases))
        # Nothing may rest on a layout which the language leaves open
        for d in zoo if pid in SHUFFLE else []:
            jobs.append((2, c.decl_job, "60bits", SHUFFLED, d, suites, cases))
        # A long life: more boxes in one process than 16 bits can count
        if pid != "C21":
            jobs.append((0, c.decl_job, "60bits", REL, dict(next(d for d in declgen.zoo() if d["name"] == LONG.get(pid, "ZooSmall")), name="ZooLong"), suites, 2000 if pid == "C19" else 12000 if pid in ("C05", "C06", "C08", "C24") else 25000))
        # Tags beyond seven and eight bits
        for w, n, cls, p in (("48bits", 300, "Ord", DEV), ("55bits", 300, "Partial", REL), ("56bits", 200, "Copy", DEV), ("56bits", 256, "Ord", DEV)):
            jobs.append((1, c.decl_job, w, p, declgen.huge(n, cls), suites, cases))
        others = [w for w in WIDTHS if w != "60bits"]
        # Always the two ends and one with wide discriminants
        chosen = ["48bits", "56bits", "63bits"] + r.sample(others, 2) if q else WIDTHS
        for i, d in enumerate(drawn):
            room = 1 << (64 - 60)
            w = "60bits" if i % 3 == 0 else chosen[i % len(chosen)]
            if len(d["variants"]) > (1 << (64 - int(w[:2]))) and pid not in ("C11",) and i % 4:
                w = "52bits"
            jobs.append((2, c.decl_job, w, REL if i % 5 == 4 else DEV, d, suites, cases))
        if not q:
            for w in WIDTHS:
                for d in zoo:
                    jobs.append((3, c.decl_job, w, DEV, d, suites, 300))
    return jobs


def run_jobs(c, jobs):
    def one(job):
        try:
            job[1](*job[2:])
        except Inconclusive as e:
            with c.lock:
                c.inconclusive.append(str(e))
        except BuildError:
            raise
        except Exception:
            raise BuildError(traceback.format_exc())

    errors = []

    def guarded(job):
        try:
            one(job)
        except BuildError as e:
            with c.lock:
                errors.append(str(e))

    vlib.parallel(guarded, sorted(jobs, key=lambda j: j[0]))
    return errors


def check(pid, seed, tier):
    vlib.prune()
    c = Check(pid, seed, tier)
    try:
        errors = []
        try:
            vlib.tagged_box("60bits", DEV)
            for f in ([SPECIAL[pid]] if pid in SPECIAL else []):
                f(c)
            if not c.failures:
                errors = run_jobs(c, plan(c))
                if not c.failures:
                    c.judge_uncompiled()
        except BuildError as e:
            errors.append(str(e))
        except Inconclusive as e:
            c.inconclusive.append(str(e))
        if errors and not c.failures:
            # The crate by itself builds, what uses it doesn't: is the documented interface still there?
            special.probe(c)
            if not c.failures:
                c.inconclusive.insert(0, errors[0])
        return c.finish()
    finally:
        shutil.rmtree(c.work, ignore_errors=True)


def replay(pid, path):
    with open(path) as fh:
        f = json.load(fh)
    c = Check(pid, f["seed"], "quick")
    try:
        if f["kind"] in ("core", "decl"):
            kit = Kit(f["width"], f["profile"])
            if f["kind"] == "core":
                binary = kit.core(f["worker"])
            else:
                binary, err = c.compile_decl(kit, f["decl"], [f["suite"]])
                if binary is None:
                    sys.stderr.write(err)
                    return 2
            if f["entry"] == "systematic":
                rep = c.worker(binary, f["suite"], 1)
                bad, out = rep["failures"][:1], rep["failures"][0]["message"] if rep["failures"] else ""
            else:
                args = [binary, "--replay", f["entry"], f["suite"], json.dumps(f["case"]).replace(" ", ""), "--fork"]
                if c.known_keys:
                    args += ["--known", ",".join(c.known_keys)]
                code, out, err = vlib.sh(args)
                sys.stderr.write(err)
                bad = code == 1
                if not bad and f.get("run"):
                    # Only after the earlier cases of its run
                    rep = c.worker(binary, f["suite"], **f["run"])
                    bad, out = bool(rep["failures"]), rep["failures"][0]["message"] if rep["failures"] else out
        else:
            bad, out = special.replay(c, f)
        print(out.strip())
        if bad:
            print("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        print("not reproduced")
        return 0
    finally:
        shutil.rmtree(c.work, ignore_errors=True)


def main():
    if sys.argv[1:2] == ["--setup"]:
        vlib.engine()
        vlib.parallel(lambda p: Kit("60bits", p), [DEV, REL])
        return 0
    pid = sys.argv[1]
    if "--replay" in sys.argv:
        return replay(pid, sys.argv[sys.argv.index("--replay") + 1])
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    try:
        return check(pid, seed, tier if tier in ("quick", "thorough") else "quick")
    except BuildError as e:
        sys.stderr.write("no verdict: %s\n" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
