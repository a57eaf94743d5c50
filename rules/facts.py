"""Builds the driver and extracts the MIR facts of /repo's current working tree (cached by content)."""
import os, sys, hashlib, subprocess, shutil, fcntl, json

import names

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MANUL_REPO", "/repo")
BUILD = os.environ.get("MANUL_VERIF_BUILD", os.path.join(VERIF, "build"))


def sh(cmd, env=None, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def files(root, subs):
    r = []
    for s in subs:
        p = os.path.join(root, s)
        if os.path.isfile(p):
            r.append(p)
        for d, ds, fs in os.walk(p):
            ds[:] = [x for x in ds if x not in ("target", ".git")]
            r += [os.path.join(d, f) for f in fs]
    return sorted(r)


def digest(paths, *extra):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b"\0")
        h.update(open(p, "rb").read() + b"\0")
    for e in extra:
        h.update(e.encode() + b"\0")
    return h.hexdigest()[:20]


def sysroot():
    return sh(["rustc", "+nightly", "--print", "sysroot"])[1].strip()


def driver():
    src = os.path.join(VERIF, "driver", "main.rs")
    tag = digest([src])
    out = os.path.join(BUILD, "driver-" + tag)
    if not os.path.exists(out):
        tmp = out + ".tmp%d" % os.getpid()
        rc, o = sh(["rustc", "+nightly", "--edition", "2021", "-O", "-A", "warnings", src, "-o", tmp])
        if rc != 0:
            raise RuntimeError("driver build failed\n" + o[-3000:])
        os.rename(tmp, out)
    return out


def repo_tag(drv):
    fs = files(REPO, ["Cargo.toml", "Cargo.lock", "manul", "rust-toolchain", "rust-toolchain.toml", ".cargo"])
    own = os.path.join(VERIF, "rules")
    return digest(fs + [p for p in (os.path.join(own, "names.py"), names.REF) if os.path.exists(p)], drv)


def facts():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drv = driver()
        tag = repo_tag(drv)
        out = os.path.join(BUILD, "facts-" + tag)
        if os.path.exists(os.path.join(out, "index.json")):
            return out, tag
        for d in os.listdir(BUILD):
            if d.startswith("facts-"):
                shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
        tgt = os.path.join(BUILD, "target")
        for sub in ("debug/.fingerprint", "debug/deps", "debug/incremental", "debug/build"):
            p = os.path.join(tgt, sub)
            if os.path.isdir(p):
                for d in os.listdir(p):
                    if d.startswith("manul") or d.startswith("libmanul"):
                        q = os.path.join(p, d)
                        shutil.rmtree(q, ignore_errors=True) if os.path.isdir(q) else os.unlink(q)
        tmp = out + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        env = dict(os.environ)
        env.update(LD_LIBRARY_PATH=os.path.join(sysroot(), "lib"), MANUL_FACTS=tmp, RUSTC_WORKSPACE_WRAPPER=drv,
                   CARGO_TARGET_DIR=tgt, CARGO_NET_OFFLINE="true")
        env.pop("RUSTFLAGS", None)
        rc, o = sh(["cargo", "+nightly", "check", "-p", "manul", "--all-features", "--offline", "--locked"], env=env, cwd=REPO)
        if rc != 0:
            rc, o = sh(["cargo", "+nightly", "check", "-p", "manul", "--all-features", "--offline"], env=env, cwd=REPO)
        if rc != 0 or not os.path.exists(os.path.join(tmp, "index.json")):
            raise RuntimeError("facts extraction failed\n" + o[-4000:])
        names.canonicalise(tmp)
        os.rename(tmp, out)
        return out, tag


if __name__ == "__main__":
    print(facts()[0])
