"""Builds and loads the facts the analyses run on.

`ensure(profile)` makes sure the facts for /repo's current tree exist: it hashes every source file
and manifest of /repo, and, unless facts with this very hash are at hand, type checks the tree with
the nightly compiler under the driver in /verif/driver, which writes the MIR of every function.
"""
import fcntl
import hashlib
import json
import os
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.environ.get("VERIF_CACHE", os.path.join(VERIF, ".cache"))
DRIVER = os.path.join(VERIF, "driver")

PROFILES = {
    "native": ["--workspace", "--exclude", "oxvg_jsx_napi", "--exclude", "oxvg_napi", "--exclude", "oxvg_wasm"],
    "napi": ["-p", "oxvg_napi", "-p", "oxvg_jsx_napi"],
    "wasm": ["-p", "oxvg_wasm"],
}
EXPECT = {
    "native": ["oxvg.bin", "oxvg.lib", "oxvg_actions.lib", "oxvg_ast.lib", "oxvg_collections.lib", "oxvg_jsx.lib",
               "oxvg_lint.lib", "oxvg_optimiser.lib", "oxvg_parse.lib", "oxvg_path.lib", "oxvg_serialize.lib"],
    "napi": ["oxvg_actions.lib", "oxvg_ast.lib", "oxvg_collections.lib", "oxvg_jsx.lib", "oxvg_jsx_napi.lib",
             "oxvg_napi.lib", "oxvg_optimiser.lib", "oxvg_parse.lib", "oxvg_path.lib", "oxvg_serialize.lib"],
    "wasm": ["oxvg_actions.lib", "oxvg_ast.lib", "oxvg_collections.lib", "oxvg_optimiser.lib", "oxvg_parse.lib",
             "oxvg_path.lib", "oxvg_serialize.lib", "oxvg_wasm.lib"],
}


class ToolError(Exception):
    """The check could not come to an answer (never reported as a violation)."""


def env():
    e = dict(os.environ)
    e["HOME"] = e.get("HOME") or "/root"
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["RUSTUP_TOOLCHAIN"] = "nightly"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    # the program as released: debug assertions and overflow panics are not part of the behaviour
    e["CARGO_PROFILE_DEV_DEBUG_ASSERTIONS"] = "false"
    e["CARGO_PROFILE_DEV_OVERFLOW_CHECKS"] = "false"
    e.pop("RUSTC_WRAPPER", None)
    e.pop("RUSTFLAGS", None)
    sysroot = subprocess.run(["rustc", "--print", "sysroot"], env=e, capture_output=True, text=True, check=True).stdout.strip()
    e["LD_LIBRARY_PATH"] = sysroot + "/lib"
    return e


def source_files():
    out = []
    for base, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "target", "node_modules", "dist", "fixtures", "snapshots"))
        for f in sorted(files):
            if f.endswith(".rs") or f in ("Cargo.toml", "Cargo.lock", "config.toml"):
                out.append(os.path.join(base, f))
    return out


def tree_hash():
    h = hashlib.sha256()
    for f in source_files():
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    for f in ("src/main.rs", "Cargo.toml"):
        with open(os.path.join(DRIVER, f), "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    with open(os.path.abspath(__file__), "rb") as fh:
        h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:24]


def run(cmd, e, cwd, what):
    r = subprocess.run(cmd, env=e, cwd=cwd, capture_output=True, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-3000:] + r.stderr[-6000:])
        raise ToolError(f"{what} failed with exit code {r.returncode}")
    return r


def build_driver(e):
    out = os.path.join(CACHE, "driver")
    e2 = dict(e)
    e2["CARGO_TARGET_DIR"] = out
    run(["cargo", "build", "--release", "--offline"], e2, DRIVER, "building the fact extractor")
    return os.path.join(out, "release", "mirfacts")


def ensure(profile="native"):
    """Returns the directory with the facts of `profile` for the current tree."""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        h = tree_hash()
        d = os.path.join(CACHE, "facts", profile)
        stamp = os.path.join(d, "STAMP")
        if os.path.exists(stamp) and open(stamp).read() == h and all(
            os.path.exists(os.path.join(d, c + ".jsonl")) for c in EXPECT[profile]
        ):
            return d
        e = env()
        driver = build_driver(e)
        os.makedirs(d, exist_ok=True)
        for f in os.listdir(d):
            os.remove(os.path.join(d, f))
        e["CARGO_TARGET_DIR"] = os.path.join(CACHE, "target")
        e["RUSTC_WORKSPACE_WRAPPER"] = driver
        e["MIRFACTS_OUT"] = d
        # The compiler must run on every crate of the workspace, whatever cargo thinks is fresh.
        meta = run(["cargo", "metadata", "--no-deps", "--offline", "--locked", "--format-version", "1"], e, REPO, "cargo metadata")
        clean = []
        for p in json.loads(meta.stdout)["packages"]:
            clean += ["-p", p["name"]]
        run(["cargo", "clean", "--offline", "--locked"] + clean, e, REPO, "cargo clean")
        run(["cargo", "check", "--locked", "--offline"] + PROFILES[profile], e, REPO, "type checking /repo")
        for c in EXPECT[profile]:
            if not os.path.exists(os.path.join(d, c + ".jsonl")):
                raise ToolError(f"no facts were produced for {c}")
        if tree_hash() != h:
            raise ToolError("/repo changed while it was analysed")
        with open(stamp, "w") as f:
            f.write(h)
        return d


if __name__ == "__main__":
    t = time.time()
    for p in sys.argv[1:] or ["native"]:
        print(p, ensure(p), round(time.time() - t, 1))
