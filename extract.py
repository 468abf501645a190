"""Extracts the type-checked program of /repo's working tree into .build/ir/<digest>/.

The result is cached by the contents of the sources and of the extractor; a changed source file
always leads to a fresh compilation.
"""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, ".build"))
DRIVER = os.path.join(BUILD, "driver", "release", "mirdump")

FILES = ("mir.json", "mir_serde.json", "items.json", "items_serde.json")


class ExtractError(Exception):
    pass


def files_of(root, subdirs, names):
    out = []
    for s in subdirs:
        for d, ds, fs in os.walk(os.path.join(root, s)):
            ds.sort()
            for f in sorted(fs):
                out.append(os.path.join(d, f))
    for n in names:
        p = os.path.join(root, n)
        if os.path.exists(p):
            out.append(p)
    return out


def digest():
    h = hashlib.sha256()
    groups = [
        (REPO, ["src"], ["Cargo.toml", "build.rs"]),
        (os.path.join(HERE, "driver"), ["src"], ["Cargo.toml"]),
        (os.path.join(HERE, "roots"), ["src"], ["Cargo.toml", "Cargo.lock"]),
    ]
    for root, subs, names in groups:
        for f in files_of(root, subs, names):
            h.update(os.path.relpath(f, root).encode() + b"\0")
            with open(f, "rb") as fd:
                h.update(fd.read())
            h.update(b"\0")
    return h.hexdigest()[:20]


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise ExtractError(f"{' '.join(cmd)} failed:\n{r.stdout[-4000:]}")
    return r.stdout


def build_driver(env):
    e = dict(env)
    e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "driver")
    e.pop("RUSTFLAGS", None)
    run(["cargo", "build", "--release", "--offline", "--locked"], cwd=os.path.join(HERE, "driver"), env=e)


def copy_roots():
    """The roots crate in the build folder, so that cargo may update its lock file there."""
    src, dst = os.path.join(HERE, "roots"), os.path.join(BUILD, "roots")
    os.makedirs(os.path.join(dst, "src"), exist_ok=True)
    for f in ("Cargo.toml", "Cargo.lock", "src/lib.rs"):
        with open(os.path.join(src, f)) as fd:
            text = fd.read()
        if f == "Cargo.toml":
            text = text.replace('"/repo"', f'"{REPO}"')
        with open(os.path.join(dst, f), "w") as fd:
            fd.write(text)
    return dst


def extract(verbose=False):
    """Returns the directory holding the files listed above."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        d = digest()
        out = os.path.join(BUILD, "ir", d)
        if os.path.exists(os.path.join(out, "done")):
            os.utime(os.path.join(out, "done"))
            return out
        t0 = time.time()
        env = dict(os.environ)
        for k in ("RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_ENCODED_RUSTFLAGS", "RUSTC", "RUSTUP_TOOLCHAIN"):
            env.pop(k, None)
        build_driver(env)
        sysroot = run(["rustc", "+nightly", "--print", "sysroot"], env=env).strip()
        tmp = out + ".tmp"
        os.makedirs(tmp, exist_ok=True)
        env["LD_LIBRARY_PATH"] = os.path.join(sysroot, "lib")
        env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "target")
        env["CARGO_INCREMENTAL"] = "0"
        env["RUSTFLAGS"] = "-Zalways-encode-mir -Zmir-opt-level=0 -Coverflow-checks=on -Cdebug-assertions=on -Awarnings"
        env["RUSTC_WRAPPER"] = DRIVER
        env["MIRDUMP_OUT"] = tmp
        env["MIRDUMP_ALL"] = "1"
        roots = copy_roots()
        for feats, items in (([], "items.json"), (["--features", "serde"], "items_serde.json")):
            env["MIRDUMP_ITEMS"] = items
            if feats:
                env["MIRDUMP_MIR"] = "mir_serde.json"
                del env["MIRDUMP_ALL"]
            # cargo may consider the previous result fresh; compile these two anew in any case
            run(["cargo", "+nightly", "clean", "--offline", "-p", "gvas", "-p", "vroots"], cwd=roots, env=env)
            run(["cargo", "+nightly", "check", "--offline", *feats], cwd=roots, env=env)
        for f in FILES:
            if not os.path.exists(os.path.join(tmp, f)):
                raise ExtractError(f"the extractor did not produce {f}")
        if REPO != "/repo":
            for f in FILES:
                p = os.path.join(tmp, f)
                with open(p) as fd:
                    text = fd.read()
                with open(p, "w") as fd:
                    fd.write(text.replace(REPO + "/", "/repo/"))
        with open(os.path.join(tmp, "done"), "w") as f:
            f.write("ok\n")
        os.rename(tmp, out)
        prune(os.path.join(BUILD, "ir"), keep=4)
        if verbose:
            print(f"extracted {d} in {time.time() - t0:.1f}s")
        return out


def prune(ir, keep):
    ds = [os.path.join(ir, x) for x in os.listdir(ir) if not x.endswith(".tmp")]
    ds.sort(key=lambda p: os.path.getmtime(os.path.join(p, "done")))
    for p in ds[:-keep]:
        shutil.rmtree(p)


if __name__ == "__main__":
    try:
        print(extract(True))
    except ExtractError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
