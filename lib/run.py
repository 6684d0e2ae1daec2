"""Runs one check: builds, runs the cases in workers, judges, writes evidence."""
import json
import os
import pickle
import shutil
import signal
import subprocess
import sys
import tempfile
import time

from lib import build

VERIF = build.VERIF
DEADLINE = float(os.environ.get("VP_DEADLINE", "800"))
CASE_LIMIT = 400.0


def child_env(root):
    env = {k: v for k, v in os.environ.items()
           if not k.startswith(("OMP_", "OPENBLAS", "MKL", "PYTHON", "OMPI_", "PMI"))}
    env.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
               MPLCONFIGDIR=os.path.join(root, "mpl"), OPENBLAS_NUM_THREADS="1",
               OMP_NUM_THREADS="1", OMP_STACKSIZE="64M", OMP_DYNAMIC="FALSE",
               TMPDIR=root, HOME=root)
    return env


def spawn(pid, tier, root, name, only=None):
    cmd = [build.PY, os.path.join(VERIF, "lib", "worker.py"), pid, tier, root, name]
    if only is not None:
        cmd.append(only)
    return subprocess.Popen(cmd, env=child_env(root), stdin=subprocess.DEVNULL,
                            stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                            start_new_session=True)


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()


def read_out(root, name):
    try:
        with open(os.path.join(root, name + ".out"), "rb") as f:
            return pickle.load(f)
    except Exception:
        return None


def read_pos(root, name):
    try:
        with open(os.path.join(root, name + ".pos")) as f:
            return int(f.read().split()[0])
    except Exception:
        return -1


def tail(root, name, n=1500):
    try:
        with open(os.path.join(root, name + ".log"), errors="replace") as f:
            return f.read()[-n:]
    except OSError:
        return ""


def nth_case(pid, tier, idx, root):
    """Ask the check module for the case (the module may import tbplas)."""
    code = ("import sys,json,importlib,itertools;sys.path[:0]=[%r,%r];"
            "m=importlib.import_module('checks.'+%r);"
            "c=next(itertools.islice(m.cases(%r),%d,None));"
            "open(%r,'w').write(json.dumps(c))") % (
        os.path.join(root, "pkg"), VERIF, pid.lower(), tier, idx,
        os.path.join(root, "case.json"))
    subprocess.run([build.PY, "-c", code], env=child_env(root), cwd=root,
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    try:
        with open(os.path.join(root, "case.json")) as f:
            return json.load(f)
    except Exception:
        return {"index": idx}


def load_known():
    try:
        with open(os.path.join(VERIF, "known_findings.json")) as f:
            return json.load(f)
    except OSError:
        return []


def known(pid, v, findings):
    for f in findings:
        if f.get("status") != "known" or f.get("property") != pid:
            continue
        if f.get("case") is not None and f["case"] != v["case"]:
            continue
        if f.get("message_contains") and f["message_contains"] not in v["message"]:
            continue
        if f.get("case") is None and not f.get("message_contains"):
            continue
        return f
    return None


def main(pid, tier, jobs=8, replay=None):
    t0 = time.time()
    sys.path.insert(0, VERIF)
    root = tempfile.mkdtemp(prefix=f"vp_{pid}_")
    try:
        return _main(pid, tier, jobs, replay, root, t0)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def _main(pid, tier, jobs, replay, root, t0):
    violations = []
    total = dict(states=set(), transitions=0, traces=0, compared=0, samples=[],
                 cases=0, bounds={})
    complete = True
    try:
        os.makedirs(os.path.join(root, "pkg"))
        build.assemble(os.path.join(root, "pkg"), pid)
    except build.BuildError as e:
        violations.append(dict(index=-1, case=None,
                               message="the tree does not build: " + str(e)[-1500:]))
    else:
        if replay:
            with open(replay) as f:
                case = json.load(f).get("case")
            cf = os.path.join(root, "replay_case.json")
            with open(cf, "w") as f:
                json.dump(case, f)
            names = {"r": spawn(pid, tier, root, "r", "@" + cf)}
        else:
            with open(os.path.join(root, "counter"), "w") as f:
                f.write("0")
            names = {f"s{i}": spawn(pid, tier, root, f"s{i}") for i in range(jobs)}
        seen = {n: (-1, time.time()) for n in names}
        live = dict(names)
        gone = []
        while live:
            time.sleep(0.05)
            now = time.time()
            for n, p in list(live.items()):
                pos = read_pos(root, n)
                if pos != seen[n][0]:
                    seen[n] = (pos, now)
                rc = p.poll()
                if rc is not None:
                    del live[n]
                    out = read_out(root, n)
                    if not (out and out["done"]):
                        gone.append((n, pos, f"worker ended with status {rc}"))
                elif now - seen[n][1] > CASE_LIMIT:
                    kill(p)
                    del live[n]
                    gone.append((n, pos, f"no progress for {CASE_LIMIT:.0f} s"))
                else:
                    out = read_out(root, n) if os.path.exists(
                        os.path.join(root, n + ".out")) else None
                    if out and out["violations"]:
                        open(os.path.join(root, "stop"), "w").close()
            if os.path.exists(os.path.join(root, "stop")) and live:
                # a violation is known: others get 20 s more
                if now - os.path.getmtime(os.path.join(root, "stop")) > 20:
                    for n, p in live.items():
                        kill(p)
                    live.clear()
            if now - t0 > DEADLINE:
                complete = False
                for n, p in live.items():
                    kill(p)
                live.clear()
        for n in names:
            out = read_out(root, n)
            if not out:
                continue
            total["states"] |= out["states"]
            for k in ("transitions", "traces", "compared", "cases"):
                total[k] += out[k]
            total["samples"] += out["samples"]
            total["bounds"].update(out["bounds"])
            violations += out["violations"]
        for n, pos, why in gone:
            case = nth_case(pid, tier, pos, root) if pos >= 0 else None
            # pinpoint: does this case alone reproduce it?
            violations.append(dict(index=pos, case=case,
                                   message=f"{why} while executing this case; log: "
                                   + tail(root, n)))
    violations.sort(key=lambda v: v["index"])
    findings = load_known()
    shown = set()
    real = []
    for v in violations:
        f = known(pid, v, findings)
        if f is None:
            real.append(v)
        elif f["what"] not in shown:
            shown.add(f["what"])
            print(f"KNOWN-FINDING: property={pid} {f['what']}")
    wall = time.time() - t0
    if not replay:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "0") or 0),
                  level="model_checking",
                  coverage=dict(states=len(total["states"]), transitions=total["transitions"],
                                traces_validated_against_impl=total["traces"],
                                cases=total["cases"], comparisons=total["compared"],
                                samples=total["samples"][:8],
                                exhaustive=bool(complete and not real),
                                bounds=total["bounds"].get(tier, total["bounds"])),
                  assumptions=total["bounds"].get("assumptions", []),
                  wall_s=round(wall, 2), violations=len(real))
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print(f"{pid} {tier}: cases={total['cases']} states={len(total['states'])} "
          f"transitions={total['transitions']} traces={total['traces']} "
          f"comparisons={total['compared']} wall={wall:.1f}s"
          + ("" if complete else " (deadline reached: not exhaustive)"))
    if real:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        v = real[0]
        path = os.path.join(VERIF, "replays", f"{pid}-{v['index']}.json")
        if replay:
            path = os.path.abspath(replay)
        else:
            with open(path, "w") as f:
                json.dump(dict(property=pid, tier=tier, **v), f, indent=1)
        print("case: " + json.dumps(v["case"])[:2000])
        print("what: " + v["message"][:3000])
        if v.get("traceback"):
            print(v["traceback"])
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    return 0
