"""seed.py DEF.py...: turn a planted-bug definition into seeded/<id>/ after confirming it in a scratch worktree.

DEF.py defines B = dict(id, property, edits=[(file, old, new)...], demo=python source, needs, breaks)
"""
import json, os, re, subprocess, sys, shutil, runpy

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = '''#!/bin/bash
# cwd: the repository
D=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg USER=root LOGNAME=root TZ=UTC PGTZ=UTC PYTHONWARNINGS=ignore
export RUBIN_SIM_DATA_DIR=/opt/vp/rubin_sim_data ASTROPY_CONFIG_DIR=/opt/vp/astropy_config PATH=/opt/vp/pgbin:$PATH
W=$(mktemp -d /tmp/demo.XXXXXX)
chmod 711 "$W"
trap 'rm -rf "$W"' EXIT
mkdir -m 711 "$W/tmp" "$W/cwd"
export TMPDIR=$W/tmp
cd "$W/cwd"
/opt/venv/bin/python "$D/demo.py"
'''


def sh(cmd, **k):
    return subprocess.run(cmd, capture_output=True, text=True, **k)


def stable(wt):
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable_passing"]) if False else None
    out = f"{wt}.json"
    t = open("/opt/vp/test.sh").read().replace("cd /repo", f"cd {wt}; export PYTHONPATH={wt}")
    t = t.replace("-q -p", "-q -n 8 -p") if False else t
    r = sh(["bash", "-c", t, "test", out])
    return json.load(open(out))


def main():
    wt = "/tmp/seedwt"
    notest = "--notest" in sys.argv
    nocheck = "--nocheck" in sys.argv
    for f in [a for a in sys.argv[1:] if not a.startswith("--")]:
        b = runpy.run_path(f)["B"]
        sh(["git", "-C", "/repo", "worktree", "remove", "--force", wt])
        sh(["git", "-C", "/repo", "worktree", "add", "--detach", wt, "HEAD"])
        shutil.copy("/repo/rubin_sim/version.py", f"{wt}/rubin_sim/version.py") if os.path.exists("/repo/rubin_sim/version.py") else None
        d = f"{HERE}/seeded/{b['id']}"
        os.makedirs(d, exist_ok=True)
        open(f"{d}/demo.sh", "w").write(PRE)
        os.chmod(f"{d}/demo.sh", 0o755)
        open(f"{d}/demo.py", "w").write(b["demo"].lstrip("\n"))
        r0 = sh(["bash", f"{d}/demo.sh"], cwd=wt)
        bad = None
        if r0.returncode != 0:
            bad = "demo fails on clean: " + r0.stdout[-600:] + r0.stderr[-1500:]
        else:
            for path, old, new in b["edits"]:
                p = f"{wt}/{path}"
                s = open(p).read()
                if s.count(old) != 1:
                    bad = f"{path}: {s.count(old)} matches of {old!r}"
                    break
                open(p, "w").write(s.replace(old, new))
        if not bad:
            diff = sh(["git", "-C", wt, "diff"]).stdout
            open(f"{d}/patch.diff", "w").write(diff)
            r1 = sh(["bash", f"{d}/demo.sh"], cwd=wt)
            if r1.returncode == 0:
                bad = "demo passes with the bug"
        if not bad and not notest:
            res = stable(wt)
            base = json.load(open("/opt/vp/BASELINE.json"))
            key = next(k for k in base if isinstance(base[k], list))
            p = set(res.get("passed", []))
            missing = [t for t in base[key] if (t if isinstance(t, str) else t.get("id")) not in p]
            if missing:
                bad = f"tests fail: {missing[:5]}"
        if bad:
            print(b["id"], "REJECTED:", bad)
            shutil.rmtree(d)
            continue
        caught = None
        if not nocheck:
            r = sh(["bash", f"{HERE}/check.sh", b["property"]], env=dict(os.environ, VERIF_DEV_REPO=wt, VERIF_TIER="quick", VERIF_SEED="1"))
            caught = r.returncode == 1 and f"VIOLATION property={b['property']}" in r.stdout
            line = [x for x in r.stdout.splitlines() if x.startswith("    ")][:1]
        meta = {"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}
        if caught is not None:
            meta["caught"] = (b["property"] if caught else "no")
        json.dump(meta, open(f"{d}/meta.json", "w"), indent=1)
        print(b["id"], "KEPT", "caught" if caught else "NOT CAUGHT", (line[0].strip()[:200] if caught and line else ""), flush=True)
    sh(["git", "-C", "/repo", "worktree", "remove", "--force", wt])


main()
