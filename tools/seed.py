#!/usr/bin/env python3
"""Development tool (no check uses it): confirm a planted change in a scratch copy of /repo and run checks on it.
usage: seed.py <seeded folder or patch> [--no-test] [--no-demo] [--checks P01,P02|all|none]"""
import json, os, re, shutil, subprocess, sys, tempfile

SC = "/tmp/seedscratch"
GIT = r"https://github\.com/dalek-cryptography/curve25519-dalek\.git"
ENV = dict(os.environ, PATH="/root/.cargo/bin:" + os.environ["PATH"], RUSTUP_TOOLCHAIN="1.76-x86_64-unknown-linux-gnu",
           CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_PROFILE_DEV_DEBUG="0")


def sh(cmd, cwd=None, env=None, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def scratch(name):
    d = os.path.join(SC, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    rc, out = sh(["bash", "-c", "git -C /repo archive HEAD | tar x -C %s" % d])
    assert rc == 0, out
    sh(["git", "init", "-q"], d)
    return d


def unpatch_git(d):
    for name, pat in (("Cargo.toml", rf"^curve25519-dalek = \{{ git = '{GIT}' \}}\n?"),
                      ("Cargo.lock", rf'^\n?\[\[patch\.unused\]\]\nname = "curve25519-dalek"\nversion = ".*"\nsource = "git\+{GIT}#.*"\n')):
        p = os.path.join(d, name)
        t = re.sub(pat, "", open(p).read(), flags=re.M)
        open(p, "w").write(t)


def tests(d):
    env = dict(ENV, CARGO_TARGET_DIR=os.path.join(SC, "target"), CARGO_INCREMENTAL="1")
    w = d + "-ws"
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree(d, w)
    unpatch_git(w)
    rc, out = sh(["cargo", "test", "--workspace", "--no-fail-fast", "--offline", "--locked", "--", "--test-threads", "8"], w, env)
    shutil.rmtree(w, ignore_errors=True)
    res = {}
    for m in re.finditer(r"^test (\S+)(?: - should panic)? \.\.\. (\w+)", out, re.M):
        res[m.group(1)] = m.group(2)
    bad = sorted(k for k, v in res.items() if v == "FAILED")
    return len([1 for v in res.values() if v == "ok"]), bad, out


def main():
    a = sys.argv[1:]
    src = os.path.abspath(a[0].rstrip("/"))
    folder = src if os.path.isdir(src) else None
    patch = os.path.join(src, "patch.diff") if folder else src
    checks = "none"
    if "--checks" in a:
        checks = a[a.index("--checks") + 1]
    name = "s%d" % os.getpid()
    d = scratch(name)
    try:
        if folder and "--no-demo" not in a:
            rc, out = sh(["bash", os.path.join(folder, "demo.sh")], d, dict(os.environ))
            print("demo on unchanged tree: rc=%d %s" % (rc, "OK" if rc == 0 else "BAD\n" + out[-3000:]))
        rc, out = sh(["git", "apply", os.path.abspath(patch)], d)
        if rc:
            print("patch does not apply", out)
            return 1
        if "--no-test" not in a:
            n, bad, out = tests(d)
            print("tests with change: %d ok, failed %s" % (n, bad[:8]))
            if n == 0:
                print(out[-3000:])
        if folder and "--no-demo" not in a:
            rc, out = sh(["bash", os.path.join(folder, "demo.sh")], d, dict(os.environ))
            print("demo with change: rc=%d %s" % (rc, "OK" if rc not in (0, 3) else "BAD\n" + out[-2500:]), [l for l in out.splitlines() if "panicked" in l or "DEMO" in l or "error" in l][:5])
        if checks != "none":
            ids = [c["property"] for c in json.load(open("/verif/MANIFEST.json"))["checks"]] if checks == "all" else checks.split(",")
            env = dict(os.environ, VERIF_REPO=d, VERIF_BUILD="/tmp/seedbuild", VERIF_EVID="/tmp/seedevid")
            from concurrent.futures import ThreadPoolExecutor
            def one(i):
                return i, sh(["python3", "/verif/check.py", i], "/verif", env)
            first = one(ids[0])
            with ThreadPoolExecutor(4) as ex:
                rs = [first] + list(ex.map(one, ids[1:]))
            for i, (rc, out) in rs:
                if rc:
                    print("%s rc=%d: %s" % (i, rc, "\n   ".join(out.strip().splitlines()[:int(os.environ.get("LINES_", "3"))])[:1500]))
            print("quiet:", [i for i, (rc, o) in rs if rc == 0])
    finally:
        shutil.rmtree(d, ignore_errors=True)


main()
