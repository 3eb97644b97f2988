#!/usr/bin/env python3
"""Development tool: apply small edits (bugs and behaviour-preserving refactorings) to scratch copies of /repo and show which
properties fire.  usage: mut.py <edits.py> [name...]   edits.py defines EDITS = [(name, kind, [(file, old, new[, nth])])]"""
import os, shutil, subprocess, sys, threading, queue
W = os.environ.get("MUTW", "/tmp/mut")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NW = int(os.environ.get('NW', '4'))


def sh(cmd, env=None, cwd=None):
    p = subprocess.run(cmd, shell=isinstance(cmd, str), env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    names = sys.argv[2:]
    edits = [e for e in ns["EDITS"] if not names or e[0] in names]
    q = queue.Queue()
    for e in edits:
        q.put(e)
    res = {}

    def work(i):
        d = "%s/w%d" % (W, i)
        if not os.path.exists(d + "/build"):
            os.makedirs(d, exist_ok=True)
            sh("cp -a /verif/.build %s/build && rm -rf %s/build/dump" % (d, d))
        while True:
            try:
                name, kind, eds = q.get_nowait()
            except queue.Empty:
                return
            repo = d + "/repo"
            shutil.rmtree(repo, ignore_errors=True)
            os.makedirs(repo)
            sh("git -C /repo archive HEAD | tar x -C %s" % repo)
            bad = None
            for ed in eds:
                f, old, new = ed[:3]
                p = os.path.join(repo, f if f.startswith(("wasm", "packages", "contracts")) else "contracts/oraiswap-v3/src/" + f)
                s = open(p).read()
                nth = ed[3] if len(ed) > 3 else 0
                parts = s.split(old)
                if len(parts) < nth + 2:
                    bad = "edit does not apply: " + old[:60]
                    break
                s = old.join(parts[:nth + 1]) + new + old.join(parts[nth + 1:])
                open(p, "w").write(s)
            if bad:
                res[name] = bad
            else:
                env = dict(os.environ, VERIF_REPO=repo, VERIF_BUILD=d + "/build", VERIF_EVID=d + "/evid")
                rc, out = sh(["python3", HERE + "/tools/all.py", "-q"] + (["-v"] if os.environ.get("V") else []) + os.environ.get("PROPS", "").split(), env, "/verif")
                res[name] = out.strip()
            r = res[name]
            fails = r.count("FAIL ")
            if "BUILDERROR" in r:
                st = "BUILD?"
            elif "END" not in r:
                st = "CRASH?"
            else:
                st = ("caught" if fails else "MISSED") if kind == "bug" else ("ALARM" if fails else "quiet")
            print("== %-8s %-4s %s\n%s" % (st, kind, name, "\n".join(l[:900] for l in r.splitlines() if not l.startswith("END"))), flush=True)
    ts = [threading.Thread(target=work, args=(i,)) for i in range(min(NW, len(edits)))]
    [t.start() for t in ts]
    [t.join() for t in ts]


main()
