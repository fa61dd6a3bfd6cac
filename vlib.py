"""Building the crate under test, the harness and generated programs; running workers."""
import concurrent.futures as cf
import hashlib
import json
import os
import shutil
import signal
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
CORES = min(8, os.cpu_count() or 8)
DEV, REL = "dev", "release"


class BuildError(Exception):
    """Something of the checks' own, or the crate by itself, doesn't build: no verdict"""


class Inconclusive(Exception):
    pass


def env(**more):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUSTFLAGS", "RUSTC", "TAGGED_BOX", "MIRI"))}
    e["PATH"] = "/usr/local/bin:/usr/bin:/bin:/usr/local/sbin:/usr/sbin:/sbin:" + e.get("PATH", "") + ":/root/.cargo/bin"
    e.update(RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0", RUST_BACKTRACE="0",
             RUSTFLAGS="-A warnings -A semicolon_in_expressions_from_macros", RUSTC_WRAPPER="")
    e.update(more)
    return {k: v for k, v in e.items() if v is not None}


def sh(cmd, timeout=600, cwd=None, e=None, stdin=None):
    """(exit code or -signal, stdout, stderr); a timeout is None"""
    p = subprocess.Popen(cmd, cwd=cwd, env=e or env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out.decode(errors="replace"), err.decode(errors="replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.communicate()
        return None, "", "timed out"


def tree_hash(*paths):
    h = hashlib.sha256()
    for path in paths:
        files = []
        if os.path.isdir(path):
            for d, ds, fs in os.walk(path):
                ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
                files += [os.path.join(d, f) for f in sorted(fs)]
        elif os.path.exists(path):
            files = [path]
        for f in files:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
            h.update(b"\1")
    return h.hexdigest()[:16]


def repo_hash():
    return tree_hash(*[os.path.join(REPO, x) for x in ("src", "build.rs", "Cargo.toml")])


_locks = {}
_guard = threading.Lock()


def lock(key):
    with _guard:
        return _locks.setdefault(key, threading.Lock())


def engine():
    """The engine's rlib and where its dependencies are"""
    target = os.path.join(BUILD, "engine")
    with lock("engine"):
        code, out, err = sh(["cargo", "build", "--offline", "--target-dir", target, "--message-format=json"], cwd=os.path.join(VERIF, "engine"))
    if code != 0:
        raise BuildError("the engine doesn't build:\n" + err[-3000:])
    for line in out.splitlines():
        m = json.loads(line) if line.startswith("{") else {}
        if m.get("reason") == "compiler-artifact" and m["target"]["name"].replace("-", "_") == "tbx_engine":
            return {"rlib": [f for f in m["filenames"] if f.endswith(".rlib")][0], "deps": os.path.join(target, "debug", "deps")}
    raise BuildError("the engine's artifact is missing")


def work_root():
    return os.path.join(BUILD, "w", repo_hash())


def prune():
    """Only the outputs for the current tree are kept"""
    root, now = os.path.join(BUILD, "w"), repo_hash()
    if os.path.isdir(root):
        for d in os.listdir(root):
            p = os.path.join(root, d)
            if d != now and time.time() - os.path.getmtime(p) > 3600:
                shutil.rmtree(p, ignore_errors=True)


def tagged_box(width, profile, toolchain="stable", target=None, extra_env=None):
    """The crate under test, built for a width ("60bits", or None for the variable not set)"""
    t = target or os.path.join(work_root(), "tb", "%s-%s-%s" % (width or "unset", profile, toolchain))
    with lock(t):
        cmd = ["cargo", "build", "--offline", "--target-dir", t, "--message-format=json"] + (["--release"] if profile == REL else [])
        code, out, err = sh(cmd, cwd=os.path.join(VERIF, "tbdep"), e=env(TAGGED_BOX_RESERVED_WIDTH=width, RUSTUP_TOOLCHAIN=toolchain, **(extra_env or {})))
    if code != 0:
        msgs = []
        for line in out.splitlines():
            m = json.loads(line) if line.startswith("{") else {}
            if m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
                msgs.append(m["message"]["rendered"])
        raise BuildError("tagged-box (%s, %s) doesn't build:\n%s" % (width, profile, ("\n".join(msgs) or err)[-3000:]))
    for line in out.splitlines():
        m = json.loads(line) if line.startswith("{") else {}
        if m.get("reason") == "compiler-artifact" and m["target"]["name"].replace("-", "_") == "tagged_box" and "lib" in m["target"]["kind"]:
            rlib = [f for f in m["filenames"] if f.endswith(".rlib")][0]
            return {"rlib": rlib, "deps": os.path.dirname(rlib), "stderr": err}
    raise BuildError("tagged-box's artifact is missing")


OPTS = {
    DEV: ["-C", "opt-level=0", "-C", "debug-assertions=on", "-C", "overflow-checks=on", "-C", "debuginfo=0"],
    REL: ["-C", "opt-level=2", "-C", "debuginfo=0"],
}
# Layouts which the language leaves open drawn anew (for the generated program only: std and the engine are as ever)
SHUFFLED = "shuffled"
OPTS[SHUFFLED] = OPTS[DEV] + ["-Z", "randomize-layout", "-Z", "layout-seed=11"]


def rustc(args, timeout=600, toolchain="stable"):
    return sh(["rustc", "--cap-lints", "allow"] + args, timeout=timeout, e=env(RUSTUP_TOOLCHAIN=toolchain, RUSTC_BOOTSTRAP="1" if "-Z" in args else None))


class Kit:
    """What a generated program or the core worker needs, for one width and profile"""

    def __init__(self, width="60bits", profile=DEV):
        self.width, self.profile = width, profile
        self.name = "%s-%s" % (width, profile)
        self.eng = engine()
        self.tb = tagged_box(width, profile)
        d = os.path.join(work_root(), "kit", self.name + "-" + tree_hash(os.path.join(VERIF, "harness", "src"), os.path.join(VERIF, "engine", "src"))[:8])
        os.makedirs(d, exist_ok=True)
        self.rlib = os.path.join(d, "libtbx.rlib")
        self.links = ["-L", "dependency=" + self.eng["deps"], "-L", "dependency=" + self.tb["deps"], "-L", "dependency=" + d]
        with lock(self.rlib):
            if not os.path.exists(self.rlib):
                tmp = self.rlib + ".tmp%d" % os.getpid()
                code, _, err = rustc(["--edition", "2021", "--crate-type", "rlib", "--crate-name", "tbx", os.path.join(VERIF, "harness", "src", "lib.rs"),
                                      "--cfg", 'feature="gen"', "--extern", "tagged_box=" + self.tb["rlib"], "--extern", "tbx_engine=" + self.eng["rlib"],
                                      "-o", tmp] + self.links + OPTS[profile])
                if code != 0:
                    raise BuildError("the harness doesn't build (%s):\n%s" % (self.name, err[-4000:]))
                os.rename(tmp, self.rlib)

    def program(self, src, out, edition="2021", timeout=600):
        """Compile a program against the harness: (ok, what rustc said)"""
        code, _, err = rustc(["--edition", edition, "--crate-type", "bin", "--crate-name", "generated", src, "--extern", "tbx=" + self.rlib,
                              "-C", "codegen-units=8", "-o", out] + self.links + OPTS[self.profile], timeout=timeout)
        if code is None:
            raise Inconclusive("rustc took too long")
        return code == 0, err

    def core(self, which):
        """The worker of the suites which need no generated declarations"""
        src = os.path.join(VERIF, "harness", "src", "core", which + "_main.rs")
        out = os.path.join(os.path.dirname(self.rlib), which)
        with lock(out):
            if not os.path.exists(out):
                ok, err = self.program(src, out + ".tmp%d" % os.getpid())
                if not ok:
                    raise BuildError("the %s worker doesn't build (%s):\n%s" % (which, self.name, err[-4000:]))
                os.rename(out + ".tmp%d" % os.getpid(), out)
        return out


def parallel(f, items, n=CORES):
    with cf.ThreadPoolExecutor(n) as ex:
        return list(ex.map(f, items))
