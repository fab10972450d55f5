"""Builds the MIR exporter if needed and runs it over /repo's current working tree."""
import os, subprocess, sys, json, shutil, glob, time, fcntl, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
DRIVER_DIR = os.path.join(VERIF, "driver")
DRIVER = os.path.join(CACHE, "driver-target", "debug", "mirdump")

# std functions whose own MIR is interpreted (everything else in std is modelled or treated as opaque)
STD_ALLOW = ",".join([
    "std::option::Option", "std::result::Result", "std::ops::", "core::bool::", "std::bool::", "std::cmp::", "core::cmp::",
    "std::convert::", "std::iter::Peekable",
])


def base_env():
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTDOCFLAGS", "RUST_LOG", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER",
              "CARGO_ENCODED_RUSTFLAGS", "RUSTC", "CARGO_BUILD_TARGET"):
        env.pop(k, None)
    env.setdefault("HOME", "/root")
    env["PATH"] = env.get("HOME", "/root") + "/.cargo/bin:" + env.get("PATH", "/usr/bin:/bin")
    if os.path.isdir("/root/.cargo/bin"):
        env["PATH"] = "/root/.cargo/bin:" + env["PATH"]
        env["CARGO_HOME"] = "/root/.cargo"
        env["RUSTUP_HOME"] = "/root/.rustup"
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    env["CARGO_INCREMENTAL"] = "0"
    return env


class ToolError(Exception):
    pass


def nightly_sysroot():
    return subprocess.run(["rustc", "+nightly", "--print", "sysroot"], env=base_env(), capture_output=True, text=True, check=True).stdout.strip()


def build_driver():
    env = base_env()
    env["CARGO_TARGET_DIR"] = os.path.join(CACHE, "driver-target")
    r = subprocess.run(["cargo", "+nightly", "build", "--offline"], cwd=DRIVER_DIR, env=env, capture_output=True, text=True)
    if r.returncode != 0:
        raise ToolError("driver build failed:\n" + r.stderr[-4000:])


def ensure_lock(repo=None):
    lock = os.path.join(repo or REPO, "Cargo.lock")
    if not os.path.exists(lock) and os.path.exists("/opt/vp/Cargo.lock"):
        shutil.copy("/opt/vp/Cargo.lock", lock)


def run_dump(features=None, profile="dev", fresh=False, tag="default", repo=None):
    """features: None = default features; [] = no default features; returns parsed JSON."""
    os.makedirs(CACHE, exist_ok=True)
    lockf = open(os.path.join(CACHE, "lock." + tag), "w")
    fcntl.flock(lockf, fcntl.LOCK_EX)
    try:
        build_driver()
        repo = repo or REPO
        ensure_lock(repo)
        env = base_env()
        tdir = os.path.join(CACHE, "target-" + tag)
        env["CARGO_TARGET_DIR"] = tdir
        # never trust cargo's freshness for the crate under verification
        for pat in ((".fingerprint", "sgmlish-*"), ("build", "sgmlish"), ("build", "sgmlish-*"), ("deps", "*sgmlish*")):
            for f in glob.glob(os.path.join(tdir, "*", *pat)):
                if os.path.isdir(f):
                    shutil.rmtree(f, ignore_errors=True)
                else:
                    os.unlink(f)
        out = os.path.join(CACHE, "mir-%s.%d.json" % (tag, os.getpid()))
        if os.path.exists(out):
            os.unlink(out)
        env["RUSTC_WORKSPACE_WRAPPER"] = DRIVER
        env["RUSTFLAGS"] = "-Zalways-encode-mir -Zmir-opt-level=0 -Awarnings"
        sr = nightly_sysroot()
        env["LD_LIBRARY_PATH"] = os.path.join(sr, "lib")
        env["MIRDUMP_CRATE"] = "sgmlish"
        env["MIRDUMP_OUT"] = out
        env["MIRDUMP_STD"] = STD_ALLOW
        cmd = ["cargo", "+nightly", "check", "--offline", "--lib", "--manifest-path", os.path.join(repo, "Cargo.toml")]
        if profile == "release":
            cmd.append("--release")
        if features is not None:
            cmd.append("--no-default-features")
            if features:
                cmd += ["--features", ",".join(features)]
        r = subprocess.run(cmd, env=env, capture_output=True, text=True)
        if r.returncode != 0 or not os.path.exists(out):
            raise ToolError("cargo check with the MIR exporter failed:\n" + r.stderr[-6000:])
        with open(out) as f:
            d = json.load(f)
        os.unlink(out)
        return d
    finally:
        lockf.close()


def spec_dump():
    """The reference model's MIR, cached by the content of its sources and of the exporter."""
    spec = os.path.join(VERIF, "spec")
    h = hashlib.sha256()
    for root, ds, fs in sorted(os.walk(spec)):
        ds[:] = sorted(x for x in ds if x != "target")
        for f in sorted(fs):
            if f.endswith((".rs", ".toml")):
                h.update(f.encode() + open(os.path.join(root, f), "rb").read())
    for f in (os.path.join(DRIVER_DIR, "src", "main.rs"), os.path.abspath(__file__)):
        h.update(open(f, "rb").read())
    key = h.hexdigest()[:20]
    path = os.path.join(CACHE, "spec-%s.json" % key)
    if not os.path.exists(path):
        d = run_dump(tag="spec", repo=spec)
        tmp = path + ".%d" % os.getpid()
        json.dump(d, open(tmp, "w"))
        os.rename(tmp, path)
    with open(path) as f:
        return json.load(f)


if __name__ == "__main__":
    t = time.time()
    d = spec_dump() if "spec" in sys.argv else run_dump()
    print(len(d["bodies"]), "bodies", len(d["types"]), "types", time.time() - t)
    if len(sys.argv) > 1:
        json.dump(d, open(sys.argv[1], "w"))
