"""Builds the MIR fact extractor, runs it over /repo's current working tree and
loads the facts.  Facts are cached under /verif/.build, keyed by the content of
every file of /repo (and of the extractor) that can influence the build."""
import fcntl, hashlib, json, os, pickle, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SNAPVERIF_REPO", "/repo")
BUILD = os.environ.get("SNAPVERIF_BUILD", os.path.join(VERIF, ".build"))
TOOLCHAIN = "+nightly"


class CheckError(Exception):
    pass


def _hash_files(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        try:
            with open(p, "rb") as f:
                h.update(hashlib.sha256(f.read()).digest())
        except OSError:
            h.update(b"?")
    return h.hexdigest()


def repo_files():
    out = []
    for d, ds, fs in os.walk(REPO):
        ds[:] = sorted(x for x in ds if x not in (".git", "target", "node_modules"))
        for f in fs:
            if f.endswith((".rs", ".toml", ".lock", ".sql")) or d.startswith(os.path.join(REPO, "src")) or f == "config":
                out.append(os.path.join(d, f))
    return out


def _run(cmd, env=None, cwd=None):
    r = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def _sysroot():
    rc, out = _run(["rustc", TOOLCHAIN, "--print", "sysroot"])
    if rc:
        raise CheckError("no nightly toolchain: " + out)
    return out.strip()


def driver_path():
    src = os.path.join(VERIF, "driver", "main.rs")
    h = _hash_files([src])[:16]
    out = os.path.join(BUILD, "driver-" + h)
    if not os.path.exists(out):
        tmp = out + ".tmp"
        rc, o = _run(["rustc", TOOLCHAIN, "-O", "--edition", "2021", src, "-o", tmp])
        if rc:
            raise CheckError("the fact extractor does not build:\n" + o)
        os.rename(tmp, out)
    return out


def extract(debug=False, fresh=False):
    """Returns the directory with the facts for the current tree: of the program
    without debug assertions and overflow checks, or (debug) with them."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drv = driver_path()
        key = _hash_files(repo_files() + [os.path.join(VERIF, "driver", "main.rs")])[:24] + ("-debug" if debug else "")
        fdir = os.path.join(BUILD, "facts")
        out = os.path.join(fdir, key)
        if not fresh and os.path.exists(os.path.join(out, "facts.pickle")):
            return out
        os.makedirs(fdir, exist_ok=True)
        olds = sorted((os.path.join(fdir, x) for x in os.listdir(fdir)), key=os.path.getmtime)
        for o in olds[:-6]:
            shutil.rmtree(o, ignore_errors=True)
        tmp = tempfile.mkdtemp(dir=fdir, prefix="tmp-")
        target = os.path.join(BUILD, "target-debug" if debug else "target")
        # cargo's freshness check would skip the wrapper on an unchanged crate;
        # both known layouts of the build directory
        for d in (os.path.join(target, "debug", ".fingerprint"), os.path.join(target, "debug", "build")):
            for x in os.listdir(d) if os.path.isdir(d) else ():
                if x == "snapcd" or x.startswith("snapcd-"):
                    shutil.rmtree(os.path.join(d, x), ignore_errors=True)
        env = dict(os.environ)
        for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC"):
            env.pop(k, None)
        env.update(
            SNAPFACTS_DIR=tmp,
            LD_LIBRARY_PATH=_sysroot() + "/lib",
            RUSTC_WORKSPACE_WRAPPER=drv,
            CARGO_TARGET_DIR=target,
            CARGO_NET_OFFLINE="true",
            # what must hold must hold without debug assertions too
            CARGO_PROFILE_DEV_DEBUG_ASSERTIONS="true" if debug else "false",
            CARGO_PROFILE_DEV_OVERFLOW_CHECKS="true" if debug else "false",
            CARGO_INCREMENTAL="0",
        )
        cmd = ["cargo", TOOLCHAIN, "check", "--offline", "--locked", "--lib", "--bins"]
        rc, o = _run(cmd, env=env, cwd=REPO)
        if rc == 0 and not all(os.path.exists(os.path.join(tmp, t + ".json")) for t in ("lib", "bin")):
            shutil.rmtree(target, ignore_errors=True)
            rc, o = _run(cmd, env=env, cwd=REPO)
        if rc:
            shutil.rmtree(tmp, ignore_errors=True)
            raise CheckError("snapcd does not build:\n" + o[-4000:])
        fns, adts = {}, {}
        for t in ("lib", "bin"):
            p = os.path.join(tmp, t + ".json")
            if not os.path.exists(p):
                raise CheckError("no facts for target " + t)
            with open(p) as f:
                d = json.load(f)
            for x in d["fns"]:
                x["target"] = t
                fns[x["id"]] = x
            adts.update(d["adts"])
        with open(os.path.join(tmp, "facts.pickle"), "wb") as f:
            pickle.dump((fns, adts), f, protocol=4)
        for t in ("lib", "bin"):
            os.unlink(os.path.join(tmp, t + ".json"))
        if os.path.exists(out):
            shutil.rmtree(out)
        os.rename(tmp, out)
        return out


def load(debug=False, fresh=False):
    d = extract(debug, fresh)
    with open(os.path.join(d, "facts.pickle"), "rb") as f:
        return pickle.load(f)


if __name__ == "__main__":
    fns, adts = load()
    print("facts: %d functions, %d types" % (len(fns), len(adts)))
