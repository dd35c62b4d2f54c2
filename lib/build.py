"""Rebuild the extension from /repo's working tree and stage an importable package.

Everything is written to git-ignored places only: /repo/target and /verif/.build.
"""
import fcntl, hashlib, os, pathlib, shutil, subprocess, sys

REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
VERIF = pathlib.Path(__file__).resolve().parent.parent
BUILD = VERIF / ".build"
PY = "/opt/vp/venv/bin/python"
WHEELS = "/opt/veriftools/wheels"


def log(*a):
    print("[build]", *a, file=sys.stderr, flush=True)


def cargo_env():
    e = dict(os.environ)
    for k in ("LD_LIBRARY_PATH", "RUSTFLAGS", "PYTHONPATH", "VIRTUAL_ENV"):
        e.pop(k, None)
    e.update(
        PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        RUSTUP_TOOLCHAIN="nightly-2025-01-05",
        CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
        CARGO_TARGET_DIR=str(REPO / "target"),
        CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_PROFILE_DEV_OPT_LEVEL="1",
        CARGO_PROFILE_DEV_OVERFLOW_CHECKS="false", CARGO_PROFILE_DEV_DEBUG_ASSERTIONS="false",
        PYO3_PYTHON=PY,
    )
    return e


def src_hash():
    h = hashlib.sha256()
    files = [REPO / "Cargo.toml", REPO / "Cargo.lock", REPO / "build.rs", REPO / "rust-toolchain.toml",
             REPO / "rust-toolchain", REPO / ".cargo" / "config.toml"]
    files += sorted(p for p in (REPO / "src").rglob("*") if p.is_file())
    for f in files:
        if f.is_file():
            h.update(str(f.relative_to(REPO)).encode() + b"\0")
            h.update(f.read_bytes() + b"\0")
    return h.hexdigest()


def build_rust():
    so = REPO / "target/debug/lib_polars_ds.so"
    stamp = REPO / "target/verif_stamp"
    want = src_hash()

    def tag():
        st = so.stat()
        return f"{want} {st.st_size} {st.st_mtime_ns}"

    if so.exists() and stamp.exists() and stamp.read_text() == tag():
        return so
    # cargo decides freshness from mtimes; we decide it from content.
    fp = REPO / "target/debug/.fingerprint"
    if fp.is_dir():
        for d in fp.glob("polars_ds-*"):
            shutil.rmtree(d, ignore_errors=True)
    log("cargo build")
    r = subprocess.run(["cargo", "build", "--locked", "--offline", "--lib"], cwd=REPO, env=cargo_env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-6000:])
        raise SystemExit(3)
    stamp.write_text(tag())
    return so


def ensure_hypothesis():
    tgt = BUILD / "pydeps"
    if (tgt / ".ok").exists():
        return tgt
    shutil.rmtree(tgt, ignore_errors=True)
    log("installing hypothesis from the local wheelhouse")
    subprocess.run([PY, "-m", "pip", "install", "-q", "--no-index", "--find-links", WHEELS, "--no-deps",
                    "--target", str(tgt), "hypothesis", "sortedcontainers"], check=True,
                   stdout=sys.stderr)
    (tgt / ".ok").write_text("ok")
    return tgt


def stage(so, name):
    """A private importable copy of the Python package beside the freshly built library."""
    d = BUILD / "stage" / name
    shutil.rmtree(d, ignore_errors=True)
    pkg = d / "polars_ds"
    shutil.copytree(REPO / "python/polars_ds", pkg,
                    ignore=shutil.ignore_patterns("__pycache__", "*.so", "*.pyc"))
    os.symlink(so, pkg / "_polars_ds.abi3.so")
    version = "0"
    for line in (REPO / "Cargo.toml").read_text().splitlines():
        if line.startswith("version"):
            version = line.split("=")[1].strip().strip('"')
            break
    di = d / f"polars_ds-{version}.dist-info"
    di.mkdir()
    (di / "METADATA").write_text(f"Metadata-Version: 2.1\nName: polars_ds\nVersion: {version}\n")
    return d


def prepare(name):
    BUILD.mkdir(exist_ok=True)
    with open(BUILD / "lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        deps = ensure_hypothesis()
        so = build_rust()
        return stage(so, name), deps


if __name__ == "__main__":
    d, deps = prepare("setup")
    e = dict(os.environ, PYTHONPATH=f"{d}:{deps}", PYTHONDONTWRITEBYTECODE="1")
    subprocess.run([PY, "-c", "import polars_ds, polars_ds.linear_models, polars_ds.spatial, hypothesis; print('setup ok', polars_ds.__version__)"],
                   check=True, env=e)
    shutil.rmtree(d, ignore_errors=True)
