"""Build the MIR extractor and dump /repo's current working tree."""
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))

CONFIGS = {
    "default": [],
    "none": ["--no-default-features"],
    "cbor": ["--no-default-features", "--features", "ciborium"],
    "json": ["--no-default-features", "--features", "serde_json"],
}


class NoAnswer(Exception):
    pass


def env():
    e = dict(os.environ)
    e["HOME"] = "/root"
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    for k in ("RUSTC_WRAPPER", "RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN", "RUSTC_WORKSPACE_WRAPPER"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    return e


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=kw.pop("env", env()), **kw)


def sources():
    """the analysed source files (and the manifest / lock)"""
    fs = sorted(glob.glob(REPO + "/src/**/*", recursive=True)) + [REPO + "/Cargo.toml", REPO + "/Cargo.lock", REPO + "/build.rs"]
    return [f for f in fs if os.path.isfile(f)]


def digest(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in files:
        h.update(f.encode())
        h.update(open(f, "rb").read())
    return h.hexdigest()[:20]


def driver():
    src = os.path.join(VERIF, "extract", "driver.rs")
    v = sh(["rustc", "+nightly", "-vV"])
    if v.returncode:
        raise NoAnswer("nightly rustc not usable: " + v.stdout)
    d = os.path.join(OUT, "driver-" + digest([src], v.stdout))
    if not os.path.exists(d):
        r = sh(["rustc", "+nightly", "--edition", "2021", "-O", src, "-o", d + ".tmp"])
        if r.returncode:
            raise NoAnswer("extractor does not build:\n" + r.stdout)
        os.rename(d + ".tmp", d)
    return d


def libdir():
    r = sh(["rustc", "+nightly", "--print", "sysroot"])
    return r.stdout.strip() + "/lib"


def lock_file():
    if not os.path.exists(REPO + "/Cargo.lock") and os.path.exists("/opt/vp/Cargo.lock"):
        shutil.copy("/opt/vp/Cargo.lock", REPO + "/Cargo.lock")


def dump(config="default"):
    """path of the MIR dump of the current tree in a feature configuration"""
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        lock_file()
        drv = driver()
        key = digest(sources() + [os.path.abspath(__file__)], config + os.path.basename(drv))
        out = os.path.join(OUT, "mir-%s-%s.json" % (config, key))
        if os.path.exists(out):
            return out
        for f in glob.glob(os.path.join(OUT, "mir-%s-*" % config)):
            os.unlink(f)
        tgt = os.path.join(OUT, "target-" + config)
        for f in glob.glob(tgt + "/debug/.fingerprint/cddl-cat-*"):
            shutil.rmtree(f)
        e = env()
        e.update(RUSTC_WORKSPACE_WRAPPER=drv, RUSTFLAGS="-Zalways-encode-mir", VERIF_DUMP=out + ".tmp", CARGO_TARGET_DIR=tgt, LD_LIBRARY_PATH=libdir())
        r = sh(["cargo", "+nightly", "check", "--offline", "--lib"] + CONFIGS[config], cwd=REPO, env=e)
        if r.returncode or not os.path.exists(out + ".tmp"):
            err = NoAnswer("cannot analyse the tree (configuration %s):\n%s" % (config, r.stdout[-6000:]))
            err.build_log = r.stdout
            raise err
        open(out[:-5] + ".log", "w").write(r.stdout)
        os.rename(out + ".tmp", out)
        return out


if __name__ == "__main__":
    for c in sys.argv[1:] or ["default"]:
        print(dump(c))
