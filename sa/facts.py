"""Builds the rustc driver and extracts facts (resolved MIR) of /repo's current source."""
import fcntl, hashlib, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.environ.get("HEMTT_SA_CACHE", os.path.join(HERE, ".cache"))
REPO = os.environ.get("HEMTT_SA_REPO", "/repo")
EXCLUDE = ["hemtt", "hemtt-sqf", "hemtt-language-server", "hemtt-book-gen"]
LIBS = ["hemtt_comm", "hemtt_common", "hemtt_config", "hemtt_lzo", "hemtt_p3d", "hemtt_paa", "hemtt_pbo", "hemtt_preprocessor", "hemtt_signing", "hemtt_stringtable", "hemtt_workspace"]


class BuildError(Exception):
    pass


def env_base():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC", "CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN", "CARGO_BUILD_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_INCREMENTAL"] = "0"
    return e


def sysroot():
    return subprocess.run(["rustc", "+nightly", "--print", "sysroot"], capture_output=True, text=True, check=True, env=env_base()).stdout.strip()


def driver():
    src = os.path.join(HERE, "driver", "src", "main.rs")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    out = os.path.join(CACHE, "driver-" + h, "hemtt-sa-driver")
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + f".{os.getpid()}"
        r = subprocess.run(["rustc", "+nightly", "--edition", "2024", "-O", "-o", tmp, src], capture_output=True, text=True, env=env_base(), cwd=os.path.dirname(out))
        if r.returncode != 0:
            raise BuildError("driver does not build:\n" + r.stderr[-3000:])
        os.rename(tmp, out)
    return out, h


def source_hash():
    h = hashlib.sha256()
    r = subprocess.run(["git", "-C", REPO, "ls-files", "-co", "--exclude-standard", "-z"], capture_output=True)
    if r.returncode == 0 and r.stdout:
        files = sorted(r.stdout.decode().split("\0"))
    else:
        files = []
        for d, ds, fs in os.walk(REPO):
            ds[:] = [x for x in ds if x not in ("target", ".git")]
            files += [os.path.relpath(os.path.join(d, f), REPO) for f in fs]
        files.sort()
    n = 0
    for f in files:
        if not f.endswith((".rs", ".toml", ".lock", ".json", ".yml", ".yaml", ".stringtable", ".ansi", ".md", ".txt", ".hpp", ".cpp", ".sqf")):
            continue
        if "/tests/" in f and not f.endswith(".rs"):
            continue
        p = os.path.join(REPO, f)
        if os.path.isfile(p):
            h.update(f.encode())
            h.update(b"\0")
            h.update(hashlib.sha256(open(p, "rb").read()).digest())
            n += 1
    return h.hexdigest()[:20], n


def extract(scope="libs"):
    """Returns the directory with one JSON per analysed crate for the current source."""
    os.makedirs(CACHE, exist_ok=True)
    drv, dh = driver()
    sh, n = source_hash()
    out = os.path.join(CACHE, f"facts-{scope}-{dh}-{sh}")
    stamp = os.path.join(out, ".complete")
    with open(os.path.join(CACHE, f"lock-{scope}"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(stamp):
            return out, n
        # keep the disk small: drop facts of other source states
        for d in os.listdir(CACHE):
            if d.startswith(f"facts-{scope}-"):
                shutil.rmtree(os.path.join(CACHE, d), ignore_errors=True)
        os.makedirs(out, exist_ok=True)
        tgt = os.path.join(CACHE, f"target-{scope}")
        b = os.path.join(tgt, "debug", "build")
        if os.path.isdir(b):
            for d in os.listdir(b):
                if d.startswith("hemtt"):
                    shutil.rmtree(os.path.join(b, d), ignore_errors=True)
        e = env_base()
        e["LD_LIBRARY_PATH"] = os.path.join(sysroot(), "lib")
        e["HEMTT_SA_OUT"] = out
        e["RUSTC_WORKSPACE_WRAPPER"] = drv
        e["CARGO_TARGET_DIR"] = tgt
        src = REPO
        cmd = ["cargo", "+nightly", "check", "--workspace", "--offline", "--locked", "--all-features"]
        for x in EXCLUDE:
            cmd += ["--exclude", x]
        r = subprocess.run(cmd, cwd=src, env=e, capture_output=True, text=True)
        if r.returncode != 0:
            shutil.rmtree(out, ignore_errors=True)
            raise BuildError("cargo check failed:\n" + r.stderr[-4000:])
        missing = [c for c in LIBS if not os.path.exists(os.path.join(out, c + ".json"))]
        if missing:
            # stale fingerprints: retry from an empty target directory
            shutil.rmtree(tgt, ignore_errors=True)
            r = subprocess.run(cmd, cwd=src, env=e, capture_output=True, text=True)
            missing = [c for c in LIBS if not os.path.exists(os.path.join(out, c + ".json"))]
            if r.returncode != 0 or missing:
                shutil.rmtree(out, ignore_errors=True)
                raise BuildError(f"no facts for {missing}:\n" + r.stderr[-2000:])
        open(stamp, "w").write("ok")
    return out, n
