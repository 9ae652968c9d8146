"""run_check: explore every unit of one property and write the evidence."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import shutil
import signal
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def _child(conn, modname, uname, tier, known, only, scratch):
    os.setpgid(0, 0)
    out_fd = os.open(os.path.join(scratch, "log.txt"), os.O_WRONLY | os.O_CREAT | os.O_APPEND)
    os.dup2(out_fd, 1)
    os.dup2(out_fd, 2)
    os.chdir(scratch)
    tmp = os.path.join(scratch, "tmp")
    os.makedirs(tmp, exist_ok=True)
    os.chmod(tmp, 0o711)
    os.environ["TMPDIR"] = tmp
    tempfile.tempdir = tmp
    from mc.core import run_unit

    mod = importlib.import_module(modname)
    unit = next(u for u in mod.UNITS if u.name == uname)
    res = run_unit(mod.PROPERTY, unit, tier, known, only, tmp)
    conn.send(res)
    conn.close()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--unit", action="append")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    modname = f"mc.props.{a.property.lower()}"
    known = json.load(open(os.path.join(HERE, "KNOWN_FINDINGS.json")))["known"]
    ev_dir = os.path.join(HERE, "evidence")
    rep_dir = os.path.join(ev_dir, "replay")
    os.makedirs(rep_dir, exist_ok=True)

    base = tempfile.mkdtemp(prefix=f"mc.{a.property}.", dir="/tmp")
    os.chmod(base, 0o711)
    import_error = None
    only, only_unit = None, None
    if a.replay:
        rec = json.load(open(a.replay))
        only, only_unit = rec["case"], rec["unit"]
    try:
        mod = importlib.import_module(modname)
    except Exception as e:  # the code under test cannot even be imported
        import traceback

        import_error = traceback.format_exc()
        mod = None

    results = []
    try:
        if mod is not None:
            units = [u for u in mod.UNITS if a.tier in u.tiers]
            if a.unit:
                units = [u for u in units if u.name in a.unit]
            if only_unit:
                units = [u for u in mod.UNITS if u.name == only_unit]
            r = seed % len(units)
            queue = units[r:] + units[:r]
            running = {}
            deadline = t0 + (780 if a.tier == "quick" else 6 * 3600)
            ctxm = mp.get_context("fork")
            n = 0
            while queue or running:
                while queue and len(running) < a.jobs:
                    u = queue.pop(0)
                    scratch = os.path.join(base, f"u{n}")
                    n += 1
                    os.makedirs(scratch, mode=0o711)
                    os.chmod(scratch, 0o711)
                    rd, wr = ctxm.Pipe(False)
                    p = ctxm.Process(target=_child, args=(wr, modname, u.name, a.tier, known, only, scratch))
                    p.start()
                    wr.close()
                    running[u.name] = (p, rd, scratch)
                conns = [v[1] for v in running.values()]
                ready = mp.connection.wait(conns, timeout=5)
                if time.time() > deadline and not ready:
                    # far beyond what any unit needs: some operation does not end
                    for name in list(running):
                        p, rd, scratch = running.pop(name)
                        results.append({"unit": name, "crash": "none: did not terminate", "log": ""})
                        for kill in (lambda: os.killpg(p.pid, signal.SIGKILL), p.kill):
                            try:
                                kill()
                            except OSError:
                                pass
                    queue = []
                    break
                for name in list(running):
                    p, rd, scratch = running[name]
                    if rd in ready:
                        try:
                            res = rd.recv()
                        except EOFError:
                            p.join()
                            log = ""
                            try:
                                log = open(os.path.join(scratch, "log.txt")).read()[-3000:]
                            except OSError:
                                pass
                            res = {"unit": name, "crash": p.exitcode, "log": log}
                        results.append(res)
                        p.join(10)
                        try:
                            os.killpg(p.pid, signal.SIGKILL)
                        except OSError:
                            pass
                        del running[name]
                        shutil.rmtree(scratch, ignore_errors=True)
                        if a.v:
                            print({k: v for k, v in res.items() if k not in ("samples",)}, file=sys.stderr)
    finally:
        shutil.rmtree(base, ignore_errors=True)

    fails, knownhits = [], {}
    cov = dict(evaluations=0, comparisons=0, states=0, transitions=0, traces=0, distinct_nontrivial=0, distinct_outcomes=0)
    samples, unit_table = [], []
    for r in sorted(results, key=lambda r: r["unit"]):
        if "crash" in r:
            fails.append(
                {
                    "property": a.property,
                    "unit": r["unit"],
                    "case": None,
                    "message": f"the process running this exploration died (exit {r['crash']})",
                    "detail": {"log": r["log"]},
                }
            )
            continue
        fails += r["fails"]
        knownhits.update(r["known"])
        for k in cov:
            cov[k] += r[k]
        samples += r["samples"][:1]
        unit_table.append({k: r[k] for k in ("unit", "wall_s", "evaluations", "comparisons", "states", "transitions", "traces", "distinct_outcomes", "distinct_nontrivial", "bounds")})
    if import_error:
        fails.append({"property": a.property, "unit": None, "case": None, "message": "the code under test cannot be imported", "detail": {"tb": import_error}})

    level = mod.LEVEL if mod else "exploration"
    coverage = {
        "exhaustive": not fails and not a.unit and not only_unit,
        "samples": samples[:12],
        "comparisons": cov["comparisons"],
        "distinct_outcomes": cov["distinct_outcomes"],
        "units": unit_table,
    }
    if level == "model_checking":
        coverage.update(states=cov["states"], transitions=cov["transitions"], traces_validated_against_impl=cov["traces"])
        coverage["evaluations"] = cov["evaluations"]
        coverage["distinct_nontrivial"] = cov["distinct_nontrivial"]
    else:
        coverage.update(evaluations=cov["evaluations"], distinct_nontrivial=cov["distinct_nontrivial"])
    coverage["rule"] = mod.RULE if mod else ""
    ev = {
        "property": a.property,
        "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
        "seed": seed,
        "level": level,
        "coverage": coverage,
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) if mod else [],
        "wall_s": round(time.time() - t0, 3),
        "violations": len(fails),
    }
    if not only_unit and not a.unit:
        with open(os.path.join(ev_dir, f"{a.property}.json"), "w") as f:
            json.dump(ev, f, indent=1)
    for kid, what in sorted(knownhits.items()):
        print(f"KNOWN-FINDING: property={a.property} {what}")
    for i, f_ in enumerate(fails):
        path = os.path.join(rep_dir, f"{a.property}-{i}.json")
        if not only_unit:
            with open(path, "w") as f:
                json.dump(f_, f, indent=1)
        else:
            path = a.replay
        if i < 5:
            print(f"VIOLATION property={a.property} replay={path}")
            print("   ", f_["unit"], json.dumps(f_["case"])[:300], "::", f_["message"][:300])
            print("   ", json.dumps(f_["detail"])[:1200])
    print(
        f"{a.property} [{a.tier}] units={len(results)} evaluations={cov['evaluations']} states={cov['states']} "
        f"transitions={cov['transitions']} distinct={cov['distinct_nontrivial']} violations={len(fails)} wall={ev['wall_s']}s"
    )
    return 1 if fails else 0


if __name__ == "__main__":
    sys.exit(main())
