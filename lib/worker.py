"""Runs cases of one check in a process of its own.

usage: worker.py ID TIER ROOT NAME [INDEX | @CASEFILE]
ROOT holds pkg/ (the assembled package), counter, and receives NAME.out.
"""
import fcntl
import importlib
import json
import os
import pickle
import sys
import time
import traceback


def main():
    pid, tier, root, name = sys.argv[1:5]
    only = sys.argv[5] if len(sys.argv) > 5 else None
    sys.path.insert(0, os.path.join(root, "pkg"))
    sys.path.insert(1, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    logf = os.open(os.path.join(root, name + ".log"),
                   os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    os.dup2(logf, 1)
    os.dup2(logf, 2)
    scratch = os.path.join(root, "w_" + name)
    os.makedirs(scratch, exist_ok=True)
    os.chdir(scratch)
    from lib.ctx import Ctx, Violation, canon
    ctx = Ctx(tier, scratch)
    violations = []
    progress = open(os.path.join(root, name + ".pos"), "w")
    t0 = time.time()

    def save(done):
        tmp = os.path.join(root, name + ".out.tmp")
        with open(tmp, "wb") as f:
            pickle.dump(dict(states=ctx.states, transitions=ctx.transitions,
                             traces=ctx.traces, compared=ctx.compared,
                             samples=ctx.samples, violations=violations,
                             cases=ncases, done=done, bounds=bounds), f)
        os.rename(tmp, os.path.join(root, name + ".out"))

    ncases = 0
    bounds = {}
    progress.write("-1\n")
    progress.flush()
    try:
        mod = importlib.import_module("checks." + pid.lower())
    except Exception:
        violations.append(dict(index=-1, case=None,
                               message="the package cannot be imported: "
                               + traceback.format_exc()[-1500:]))
        save(True)
        return
    bounds = dict(getattr(mod, "BOUNDS", {}))
    chunk = getattr(mod, "CHUNK", 1)

    def run_case(idx, case):
        nonlocal ncases
        progress.seek(0)
        progress.write(f"{idx}          \n")
        progress.flush()
        case = canon(case)
        ctx.case = case
        ncases += 1
        try:
            mod.run(case, ctx)
        except Violation as e:
            violations.append(dict(index=idx, case=ctx.case, message=str(e)))
        except MemoryError:
            raise
        except BaseException as e:
            tb = traceback.format_exc()
            violations.append(dict(index=idx, case=ctx.case,
                                   message=f"unexpected {type(e).__name__}: {e}",
                                   traceback=tb[-3000:]))
        if time.time() - run_case.last > 5 or violations:
            run_case.last = time.time()
            save(False)
    run_case.last = t0

    if only is not None and only.startswith("@"):
        with open(only[1:]) as f:
            run_case(-2, json.load(f))
        save(True)
        return
    gen = enumerate(mod.cases(tier))
    if only is not None:
        want = int(only)
        for idx, case in gen:
            if idx == want:
                run_case(idx, case)
                break
        save(True)
        return
    cnt = open(os.path.join(root, "counter"), "r+")

    def take():
        fcntl.flock(cnt, fcntl.LOCK_EX)
        cnt.seek(0)
        k = int(cnt.read() or "0")
        cnt.seek(0)
        cnt.write(f"{k + 1}          ")
        cnt.flush()
        fcntl.flock(cnt, fcntl.LOCK_UN)
        return k

    k = take()
    for idx, case in gen:
        if idx < k * chunk:
            continue
        if idx >= (k + 1) * chunk:
            while idx >= (k + 1) * chunk:
                k = take()
            if idx < k * chunk:
                continue
        run_case(idx, case)
        if len(violations) >= 2 or os.path.exists(os.path.join(root, "stop")):
            break
    save(True)


if __name__ == "__main__":
    main()
