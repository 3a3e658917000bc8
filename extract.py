#!/usr/bin/env python3
"""Extracts type-checked MIR of /repo's current working tree (several feature configurations) to JSON.

Nothing of /repo is executed: a mirror of the cargo workspace (symlinks into /repo's sources, manifests
without dev-dependencies) is type-checked with `cargo +nightly check`, with /verif's rustc driver as
workspace wrapper. Results are cached by the content hash of /repo's sources and of this extractor."""
import os, sys, re, json, hashlib, subprocess, shutil, fcntl, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
MEMBERS = ["omnipaxos", "omnipaxos_storage", "omnipaxos_macros"]

CONFIGS = {
    # name -> cargo check invocations (list of argument lists)
    "main": [["-p", "omnipaxos_storage", "--features", "persistent_storage"],
             ["-p", "omnipaxos", "--features", "serde,toml_config"]],
    "uni": [["-p", "vwitness"]],
    "log": [["-p", "omnipaxos", "--features", "serde,logging,toml_config"]],
}
# which crates each configuration must produce
EXPECT = {"main": ["omnipaxos", "omnipaxos_storage"], "uni": ["omnipaxos", "vwitness"], "log": ["omnipaxos"]}


def sh_env():
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("CARGO_PROFILE") or k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "RUSTC", "RUSTDOCFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_BUILD_RUSTFLAGS"):
            env.pop(k)
    env["RUSTUP_TOOLCHAIN"] = "nightly"
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    env["CARGO_INCREMENTAL"] = "0"
    env.setdefault("HOME", "/root")
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "/usr/bin:/bin")
    return env


def file_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()


def repo_files():
    out = []
    for m in MEMBERS:
        for root, dirs, files in os.walk(os.path.join(REPO, m)):
            dirs[:] = [d for d in dirs if d not in ("target", "tests", "examples", "benches", ".git")]
            for f in files:
                if f.endswith((".rs", ".toml", ".md")):
                    out.append(os.path.join(root, f))
    for f in ("Cargo.toml", "rust-toolchain", "rust-toolchain.toml"):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            out.append(p)
    return out


def own_files():
    out = [os.path.join(VERIF, "extract.py"), os.path.join(VERIF, "driver/main.rs"), os.path.join(VERIF, "Cargo.lock")]
    out += [p for p in (os.path.join(VERIF, "engine", "base_%s.txt" % c) for c in CONFIGS) if os.path.exists(p)]
    for d in ("witness", "stub"):
        for root, _, files in os.walk(os.path.join(VERIF, d)):
            out += [os.path.join(root, f) for f in files]
    return out


def build_driver(env):
    exe = os.path.join(BUILD, "mirdump")
    stamp = exe + ".stamp"
    key = file_hash([os.path.join(VERIF, "driver/main.rs")])
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == key:
        return exe
    r = subprocess.run(["rustc", "--edition", "2021", "-O", "-Awarnings", os.path.join(VERIF, "driver/main.rs"), "-o", exe],
                       env=env, capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError("driver build failed:\n" + r.stderr[-3000:])
    open(stamp, "w").write(key)
    return exe


def link(src, dst):
    if os.path.islink(dst) and os.readlink(dst) == src:
        return
    if os.path.islink(dst) or os.path.isfile(dst):
        os.remove(dst)
    elif os.path.isdir(dst):
        shutil.rmtree(dst)
    os.symlink(src, dst)


def write(p, s):
    if os.path.exists(p) and not os.path.islink(p) and open(p).read() == s:
        return
    if os.path.islink(p):
        os.remove(p)
    with open(p, "w") as f:
        f.write(s)


def strip_dev(text):
    """drop the [dev-dependencies] / [target.*.dev-dependencies] tables, and nested profiles"""
    out, skip = [], False
    for line in text.splitlines():
        m = re.match(r"\s*\[+\s*([^\]]+?)\s*\]+", line)
        if m:
            name = m.group(1)
            skip = "dev-dependencies" in name or name.startswith("profile")
        if not skip:
            out.append(line)
    return "\n".join(out) + "\n"


def mirror():
    ws = os.path.join(BUILD, "ws")
    os.makedirs(ws, exist_ok=True)
    for m in MEMBERS:
        d = os.path.join(ws, m)
        os.makedirs(d, exist_ok=True)
        names = set(os.listdir(os.path.join(REPO, m))) - {"target", "tests", "examples", "benches", "Cargo.toml"}
        for n in names:
            link(os.path.join(REPO, m, n), os.path.join(d, n))
        for n in set(os.listdir(d)) - names - {"Cargo.toml"}:
            p = os.path.join(d, n)
            os.remove(p) if os.path.islink(p) or os.path.isfile(p) else shutil.rmtree(p)
        write(os.path.join(d, "Cargo.toml"), strip_dev(open(os.path.join(REPO, m, "Cargo.toml")).read()))
    for f in ("README.md", "docs"):
        if os.path.exists(os.path.join(REPO, f)):
            link(os.path.join(REPO, f), os.path.join(ws, f))
    os.makedirs(os.path.join(ws, "vwitness"), exist_ok=True)
    link(os.path.join(VERIF, "witness/src"), os.path.join(ws, "vwitness/src"))
    write(os.path.join(ws, "vwitness/Cargo.toml"), open(os.path.join(VERIF, "witness/Cargo.toml")).read())
    write(os.path.join(ws, "Cargo.toml"), """[workspace]
resolver = "2"
members = ["omnipaxos", "omnipaxos_storage", "omnipaxos_macros", "vwitness"]

[profile.dev]
panic = "abort"
overflow-checks = false
debug-assertions = false
debug = 0

[patch.crates-io]
librocksdb-sys = { path = "%s" }
""" % os.path.join(VERIF, "stub/librocksdb-sys"))
    lock = os.path.join(VERIF, "Cargo.lock")
    if os.path.exists(lock):
        shutil.copy(lock, os.path.join(ws, "Cargo.lock"))
    return ws


class ExtractError(Exception):
    pass


def extract(configs=("main", "uni"), quiet=True):
    """-> {config: directory with <crate>.json}"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = file_hash(repo_files() + own_files())[:24]
        root = os.path.join(BUILD, "dump", key)
        env = sh_env()
        todo = [c for c in configs if not os.path.exists(os.path.join(root, c, "OK"))]
        if todo:
            drv = build_driver(env)
            # keep at most a few old dumps
            dd = os.path.join(BUILD, "dump")
            os.makedirs(dd, exist_ok=True)
            old = sorted((os.path.getmtime(os.path.join(dd, x)), x) for x in os.listdir(dd) if x != key)
            for _, x in old[:-6]:
                shutil.rmtree(os.path.join(dd, x), ignore_errors=True)
            ws = mirror()
            sysroot = subprocess.run(["rustc", "--print", "sysroot"], env=env, capture_output=True, text=True).stdout.strip()
            env["LD_LIBRARY_PATH"] = sysroot + "/lib" + (":" + env["LD_LIBRARY_PATH"] if env.get("LD_LIBRARY_PATH") else "")
            env["RUSTC_WORKSPACE_WRAPPER"] = drv
            env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "target")
            env["RUSTFLAGS"] = "-Zmir-opt-level=0 -Awarnings"
            for c in todo:
                out = os.path.join(root, c)
                shutil.rmtree(out, ignore_errors=True)
                os.makedirs(out)
                env["VDUMP_DIR"] = out
                env["VDUMP_BASE"] = os.path.join(VERIF, "engine", "base_%s.txt" % c)
                for args in CONFIGS[c]:
                    # cargo's freshness cache would skip the wrapper: drop the members' fingerprints
                    dbg = os.path.join(env["CARGO_TARGET_DIR"], "debug")
                    for sub in (".fingerprint", "build", "incremental"):
                        fp = os.path.join(dbg, sub)
                        for n in os.listdir(fp) if os.path.isdir(fp) else ():
                            if re.match(r"(omnipaxos|omnipaxos_storage|omnipaxos_macros|vwitness)(-|$)", n):
                                shutil.rmtree(os.path.join(fp, n), ignore_errors=True)
                    r = subprocess.run(["cargo", "check", "--offline", "--lib"] + args, cwd=ws, env=env, capture_output=True, text=True)
                    if r.returncode:
                        raise ExtractError("cargo check failed for config %s:\n%s" % (c, r.stderr[-6000:]))
                for cr in EXPECT[c]:
                    if not os.path.exists(os.path.join(out, cr + ".json")):
                        raise ExtractError("no MIR for crate %s in config %s" % (cr, c))
                open(os.path.join(out, "OK"), "w").write("ok")
        return {c: os.path.join(root, c) for c in configs}


if __name__ == "__main__":
    t = time.time()
    d = extract(sys.argv[1:] or list(CONFIGS), quiet=False)
    for c, p in d.items():
        print(c, p, {f: os.path.getsize(os.path.join(p, f)) for f in os.listdir(p)})
    print("%.1fs" % (time.time() - t))
