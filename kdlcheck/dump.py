"""Obtain the type-checked program of /repo's current tree (MIR, types, signatures).

The rustc driver in /verif/driver is injected with RUSTC_WORKSPACE_WRAPPER under
`cargo +nightly check`; its JSON output is cached under /verif/build keyed by a hash
of every input (repo sources, manifests, driver source)."""
import fcntl, hashlib, json, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("KDL_REPO", "/repo")
BUILD = os.environ.get("KDL_BUILD", os.path.join(VERIF, "build"))

CONFIGS = {
    "all": ["--workspace", "--all-features"],
    "default": [],
    "none": ["--no-default-features"],
    "span": ["--no-default-features", "--features", "span"],
    "serde": ["--no-default-features", "--features", "serde"],
    "v1": ["--no-default-features", "--features", "v1"],
    "v1span": ["--no-default-features", "--features", "v1,span"],
    "fallback": ["--no-default-features", "--features", "v1-fallback"],
    "fallspan": ["--no-default-features", "--features", "v1-fallback,span"],
    "v1serde": ["--no-default-features", "--features", "v1,serde"],
    "spanserdev1": ["--no-default-features", "--features", "v1,serde,span"],
    "fallserde": ["--no-default-features", "--features", "v1-fallback,serde"],
}


class BuildError(Exception):
    pass


def _hash_files(h, root, files):
    for f in sorted(files):
        h.update(os.path.relpath(f, root).encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
        h.update(b"\1")


def repo_inputs():
    out = []
    for top in ("src", "tools"):
        for dp, dn, fn in os.walk(os.path.join(REPO, top)):
            dn[:] = [d for d in dn if d not in ("target", ".git", "node_modules")]
            out += [os.path.join(dp, f) for f in fn]
    for f in ("Cargo.toml", "Cargo.lock", "README.md", "build.rs", "rust-toolchain.toml", "rust-toolchain"):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            out.append(p)
    return [p for p in out if os.path.isfile(p)]


def repo_hash():
    h = hashlib.sha256()
    _hash_files(h, REPO, repo_inputs())
    d = os.path.join(VERIF, "driver")
    _hash_files(h, d, [os.path.join(d, "Cargo.toml"), os.path.join(d, "src", "main.rs")])
    return h.hexdigest()[:20]


def _env():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e.setdefault("CARGO_HOME", "/root/.cargo")
    e.setdefault("RUSTUP_HOME", "/root/.rustup")
    e["PATH"] = "/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:" + e.get("PATH", "")
    for k in ("RUSTUP_TOOLCHAIN", "RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "RUSTC", "CARGO_BUILD_TARGET_DIR",
              "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WORKSPACE_WRAPPER"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_INCREMENTAL"] = "0"
    e["CARGO_TERM_COLOR"] = "never"
    return e


def _run(cmd, env, cwd, what):
    r = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError("%s failed (%d):\n%s" % (what, r.returncode, r.stdout[-4000:]))
    return r.stdout


def sysroot_lib(env):
    s = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], env=env, capture_output=True, text=True)
    return os.path.join(s.stdout.strip(), "lib")


def driver():
    env = _env()
    tgt = os.path.join(BUILD, "driver")
    exe = os.path.join(tgt, "release", "mirdump")
    stamp = os.path.join(tgt, "stamp")
    d = os.path.join(VERIF, "driver")
    h = hashlib.sha256()
    _hash_files(h, d, [os.path.join(d, "Cargo.toml"), os.path.join(d, "src", "main.rs")])
    hx = h.hexdigest()
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == hx:
        return exe
    env["CARGO_TARGET_DIR"] = tgt
    # a stale mtime must not leave an old driver in use
    shutil.rmtree(os.path.join(tgt, "release", ".fingerprint"), ignore_errors=True)
    shutil.rmtree(os.path.join(tgt, "release", "build", "mirdump"), ignore_errors=True)
    _run(["cargo", "+nightly", "build", "--release", "--offline"], env, d, "building the mirdump driver")
    with open(stamp, "w") as f:
        f.write(hx)
    return exe


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def ensure(config="all"):
    """Directory holding the dump of /repo's current tree for `config`."""
    with Lock():
        key = repo_hash()
        out = os.path.join(BUILD, "dump", key, config)
        if os.path.exists(os.path.join(out, "ok")):
            return out
        exe = driver()
        base = os.path.join(BUILD, "dump")
        os.makedirs(base, exist_ok=True)
        olds = sorted((os.path.getmtime(os.path.join(base, d)), d) for d in os.listdir(base) if d != key)
        for _, d in olds[:-6]:
            shutil.rmtree(os.path.join(base, d), ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        env = _env()
        env["LD_LIBRARY_PATH"] = sysroot_lib(env) + ":" + env.get("LD_LIBRARY_PATH", "")
        env["RUSTC_WORKSPACE_WRAPPER"] = exe
        env["MIRDUMP_OUT"] = out
        env["MIRDUMP_TAG"] = config
        tgt = os.path.join(BUILD, "target")
        # never trust cargo's freshness for the analysed crates
        for prof in ("debug",):
            for sub in ("build", ".fingerprint"):
                b = os.path.join(tgt, prof, sub)
                if os.path.isdir(b):
                    for d in os.listdir(b):
                        if d == "kdl" or d.startswith("kdl-"):
                            shutil.rmtree(os.path.join(b, d), ignore_errors=True)
        lock = os.path.join(REPO, "Cargo.lock")
        had = open(lock, "rb").read() if os.path.exists(lock) else None
        _run(["cargo", "+nightly", "check", "--offline", "--lib", "--bins", "--target-dir", tgt] + CONFIGS[config], env, REPO,
             "type-checking /repo (%s)" % config)
        now = open(lock, "rb").read() if os.path.exists(lock) else None
        if now != had:
            if had is None:
                os.remove(lock)
            else:
                open(lock, "wb").write(had)
        want = ["kdl-lib.json"] + (["kdl_lsp-bin.json"] if config == "all" else [])
        for w in want:
            if not os.path.exists(os.path.join(out, w)):
                raise BuildError("no dump produced for %s (%s)" % (w, config))
        open(os.path.join(out, "ok"), "w").write(key)
        return out


def load(config="all", crate="kdl-lib"):
    d = ensure(config)
    with open(os.path.join(d, crate + ".json")) as f:
        return Program(json.load(f), config, crate)


class Program:
    def __init__(self, j, config, crate):
        self.j = j
        self.config = config
        self.crate = crate
        self.bodies = j["bodies"]
        self.types = j["types"]
        self.adts = j["adts"]
        self.fns = j["fns"]
        self.impls = j["impls"]
        self.statics = j["statics"]
        self.fn_by_path = {}
        for f in self.fns:
            self.fn_by_path.setdefault(f["path"], f)

    def ty(self, i):
        return self.types[i] if i is not None else None

    def tys(self, i):
        return self.types[i]["s"] if i is not None else "?"

    def peel(self, i):
        """strip references"""
        t = self.types[i]
        while t["k"] in ("ref", "ptr"):
            i = t["t"]
            t = self.types[i]
        return i

    def local_bodies(self):
        return {k: b for k, b in self.bodies.items() if b["local"]}


if __name__ == "__main__":
    for c in (sys.argv[1:] or ["all"]):
        print(c, ensure(c))
