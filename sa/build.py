"""Builds the compiler driver and dumps the MIR of /repo's current working tree (cached by content hash)."""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
SKIP = {".git", "target", "Cargo.toml", "Cargo.lock"}
CRATES = ["oraiswap_v3", "oraiswap_v3_wasm", "decimal", "decimal_core", "traceable_result"]
GIT = r"https://github\.com/dalek-cryptography/curve25519-dalek\.git"


class BuildError(Exception):
    pass


def sh(cmd, env=None, cwd=None):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def file_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:24]


def repo_files():
    out = []
    for top in os.listdir(REPO):
        if top in {".git", "target"}:
            continue
        p = os.path.join(REPO, top)
        if os.path.isfile(p):
            out.append(p)
            continue
        for d, ds, fs in os.walk(p):
            ds[:] = [x for x in ds if x not in {"target", "node_modules", ".git"}]
            for f in fs:
                if f.endswith((".rs", ".toml", ".lock")):
                    out.append(os.path.join(d, f))
    return out


def mkws(ws):
    os.makedirs(ws, exist_ok=True)
    want = set(os.listdir(REPO)) - SKIP
    for name in set(os.listdir(ws)) - {"Cargo.toml", "Cargo.lock", "verif_probe"}:
        p = os.path.join(ws, name)
        if name not in want or (os.path.islink(p) and os.readlink(p) != os.path.join(REPO, name)):
            os.remove(p)
    for name in want:
        if not os.path.islink(os.path.join(ws, name)):
            os.symlink(os.path.join(REPO, name), os.path.join(ws, name))
    probe = os.path.join(ws, "verif_probe")
    if os.path.islink(probe):
        os.remove(probe)
    os.symlink(os.path.join(VERIF, "probe"), probe)
    for name, pat in (("Cargo.toml", rf"^curve25519-dalek = \{{ git = '{GIT}' \}}\n?"),
                      ("Cargo.lock", rf'^\n?\[\[patch\.unused\]\]\nname = "curve25519-dalek"\nversion = ".*"\nsource = "git\+{GIT}#.*"\n')):
        with open(os.path.join(REPO, name)) as f:
            text = re.sub(pat, "", f.read(), flags=re.M)
        # the probe crate that instantiates the whole decimal library joins the workspace
        if name == "Cargo.toml":
            text = re.sub(r"^(members\s*=\s*\[)", r'\1"verif_probe", ', text, count=1, flags=re.M)
        else:
            text += '\n[[package]]\nname = "verif-probe"\nversion = "0.0.0"\ndependencies = [\n "decimal",\n "num-traits",\n]\n'
        with open(os.path.join(ws, name), "w") as f:
            f.write(text)


def toolchain():
    env = dict(os.environ)
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "")
    for k in list(env):
        if k.startswith("CARGO_") or k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTUP_TOOLCHAIN"):
            if k != "CARGO_HOME":
                del env[k]
    rc, out = sh(["rustc", "+nightly", "--print", "sysroot"], env)
    if rc:
        raise BuildError("nightly rustc missing: " + out)
    sysroot = out.strip().splitlines()[-1]
    rc, out = sh(["rustup", "which", "--toolchain", "1.76-x86_64-unknown-linux-gnu", "cargo"], env)
    if rc:
        raise BuildError("cargo 1.76 missing: " + out)
    return env, sysroot, out.strip().splitlines()[-1]


def driver(env, sysroot):
    src = os.path.join(VERIF, "driver")
    h = file_hash([os.path.join(src, "Cargo.toml"), os.path.join(src, "src/main.rs")])
    exe = os.path.join(BUILD, "driver-" + h)
    if not os.path.exists(exe):
        e = dict(env, CARGO_TARGET_DIR=os.path.join(BUILD, "driver-target"), CARGO_NET_OFFLINE="true")
        rc, out = sh(["cargo", "+nightly", "build", "--release", "--offline", "--manifest-path", os.path.join(src, "Cargo.toml")], e)
        if rc:
            raise BuildError("driver build failed:\n" + out)
        shutil.copy(os.path.join(BUILD, "driver-target/release/mirdump"), exe + ".tmp")
        os.replace(exe + ".tmp", exe)
    return exe, h


def dump():
    """returns the folder holding <crate>.json for the current /repo tree"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        env, sysroot, cargo = toolchain()
        exe, dh = driver(env, sysroot)
        key = hashlib.sha256((dh + file_hash(repo_files()) + file_hash([os.path.join(VERIF, "probe", x) for x in ("Cargo.toml", "src/lib.rs")])).encode()).hexdigest()[:20]
        out = os.path.join(BUILD, "dump", key)
        if os.path.exists(os.path.join(out, "done")):
            os.utime(out)
            return out
        # keep the cache small
        olds = sorted(glob.glob(os.path.join(BUILD, "dump", "*")), key=os.path.getmtime)
        for o in olds[:-6]:
            shutil.rmtree(o, ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(os.path.join(out, "probe"))
        ws = os.path.join(BUILD, "ws")
        mkws(ws)
        tgt = os.path.join(BUILD, "target")
        for c in CRATES + [c.replace("_", "-") for c in CRATES] + ["verif_probe", "verif-probe"]:
            for p in glob.glob(os.path.join(tgt, "debug/.fingerprint", c + "-*")):
                shutil.rmtree(p, ignore_errors=True)
        e = dict(env, CARGO_TARGET_DIR=tgt, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0", CARGO_TERM_COLOR="never",
                 RUSTC=os.path.join(sysroot, "bin/rustc"), RUSTC_WORKSPACE_WRAPPER=exe, MIRDUMP_OUT=out,
                 LD_LIBRARY_PATH=os.path.join(sysroot, "lib"), RUSTC_WRAPPER="",
                 RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Cdebug-assertions=no -Coverflow-checks=yes -Awarnings")
        e["MIRDUMP_EXTRA"] = "cosmwasm_std,cw_utils,cw20,cw721,num_traits"
        rc, txt = sh([cargo, "check", "--workspace", "--exclude", "verif-probe", "--lib", "--offline", "--locked"], e, ws)
        if rc:
            raise BuildError("cargo check of /repo failed:\n" + txt[-6000:])
        for c in CRATES:
            if c != "decimal_core" and not os.path.exists(os.path.join(out, c + ".json")):
                raise BuildError("no MIR dumped for crate %s\n%s" % (c, txt[-3000:]))
        rc, txt = sh([cargo, "check", "-p", "verif-probe", "--lib", "--offline", "--locked"], dict(e, MIRDUMP_OUT=os.path.join(out, "probe")), ws)
        with open(os.path.join(out, "probe.log"), "w") as f:
            f.write(txt)
        open(os.path.join(out, "done"), "w").close()
        return out


if __name__ == "__main__":
    t = time.time()
    print(dump(), "%.1fs" % (time.time() - t))
