"""Everything taken from /repo on a run: the MIR of the crate, the compiled extension (replay only),
and the real python package imported with a stand-in for the extension module."""
import fcntl, hashlib, os, shutil, subprocess, sys, tempfile, types

REPO = os.environ.get("SYMX_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(HERE, ".build")
VENV_SITE = "/opt/vp/venv/lib/python3.12/site-packages"

def cargo_env():
    e = dict(os.environ)
    for k in ("LD_LIBRARY_PATH", "RUSTFLAGS", "PYTHONPATH", "VIRTUAL_ENV", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e.update(PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
             RUSTUP_TOOLCHAIN="nightly-2025-01-05", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
             CARGO_TARGET_DIR=os.environ.get("SYMX_TARGET", REPO + "/target"), CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_PROFILE_DEV_OPT_LEVEL="1",
             CARGO_PROFILE_DEV_OVERFLOW_CHECKS="false", CARGO_PROFILE_DEV_DEBUG_ASSERTIONS="false",
             PYO3_PYTHON="/opt/vp/venv/bin/python", PYTHONUTF8="1", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    return e

def src_hash():
    h = hashlib.sha256()
    files = ["Cargo.toml", "Cargo.lock", "build.rs"]
    for d, ds, fs in os.walk(os.path.join(REPO, "src")):
        ds.sort()
        files += [os.path.relpath(os.path.join(d, f), REPO) for f in sorted(fs)]
    for f in files:
        p = os.path.join(REPO, f)
        if os.path.isfile(p):
            h.update(f.encode() + b"\0" + open(p, "rb").read() + b"\0")
    return h.hexdigest()[:24]

class _lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a):
        self.f.close()

def mir_text():
    """the MIR of the current working tree"""
    with _lock():
        p = os.path.join(BUILD, f"mir-{src_hash()}.txt")
        if not os.path.exists(p):
            for f in os.listdir(BUILD):
                if f.startswith("mir-"):
                    os.unlink(os.path.join(BUILD, f))
            tmp = p + ".tmp"
            for nonce in ("", f"vp_{os.getpid()}"):
                cmd = ["cargo", "rustc", "--locked", "--offline", "--lib", "--", "-Zunpretty=mir", "-Zmir-opt-level=1", "-Zinline-mir=no"]
                if nonce:
                    cmd += ["--cfg", nonce]
                with open(tmp, "w") as o, open(os.path.join(BUILD, "mir.err"), "w") as er:
                    r = subprocess.run(cmd, cwd=REPO, env=cargo_env(), stdout=o, stderr=er)
                if r.returncode:
                    raise RuntimeError("the crate does not compile: " + open(os.path.join(BUILD, "mir.err")).read()[-2000:])
                if os.path.getsize(tmp) > 100000:
                    break
            os.rename(tmp, p)
        return open(p).read()

def package(real):
    """a scratch copy of the python package of the working tree; real: with the compiled extension"""
    h = hashlib.sha256()
    for d, ds, fs in sorted(os.walk(os.path.join(REPO, "python/polars_ds"))):
        for f in sorted(fs):
            if f.endswith((".py", ".json", ".txt", ".csv")):
                h.update(f.encode() + open(os.path.join(d, f), "rb").read())
    with _lock():
        dst = os.path.join(BUILD, ("real-" if real else "stub-") + h.hexdigest()[:16] + ("-" + src_hash() if real else ""))
        if os.path.isdir(dst):
            return dst
        for f in os.listdir(BUILD):
            if f.startswith("real-" if real else "stub-"):
                shutil.rmtree(os.path.join(BUILD, f), ignore_errors=True)
        tmp = dst + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        shutil.copytree(os.path.join(REPO, "python/polars_ds"), os.path.join(tmp, "polars_ds"),
                        ignore=shutil.ignore_patterns("*.so", "__pycache__", "*.pyd"))
        so = os.path.join(tmp, "polars_ds", "_polars_ds.abi3.so")
        if real:
            with open(os.path.join(BUILD, "so.err"), "w") as er:
                r = subprocess.run(["cargo", "build", "--locked", "--offline", "--lib"], cwd=REPO, env=cargo_env(), stdout=er, stderr=er)
            if r.returncode:
                raise RuntimeError("cargo build failed: " + open(os.path.join(BUILD, "so.err")).read()[-2000:])
            shutil.copy(os.path.join(cargo_env()["CARGO_TARGET_DIR"], "debug", "lib_polars_ds.so"), so)
        else:
            open(so, "w").close()
        os.makedirs(os.path.join(tmp, "polars_ds-0.9.0.dist-info"))
        with open(os.path.join(tmp, "polars_ds-0.9.0.dist-info", "METADATA"), "w") as f:
            f.write("Metadata-Version: 2.1\nName: polars_ds\nVersion: 0.9.0\n")
        os.rename(tmp, dst)
        return dst

def add_site():
    """make the project's own polars importable from the tool interpreter"""
    if VENV_SITE not in sys.path:
        sys.path.append(VENV_SITE)
