#!/opt/venv/bin/python
"""Entry point of every check:  check.py <property> --tier quick|thorough [--seed N] [--replay FILE]"""
import argparse
import collections
import ctypes
import json
import multiprocessing as mp
import multiprocessing.connection as mpc
import os
import shutil
import signal
import sys
import tempfile
import time
from time import monotonic

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = True

WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
BUDGET = {"quick": float(os.environ.get("VERIF_BUDGET", "240")), "thorough": float(os.environ.get("VERIF_BUDGET", "780"))}
GRACE = 25.0


def worker(conn, pid, seed, scratch):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    os.setpgid(0, 0)  # the solvers it starts are ended with it
    try:
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)  # PR_SET_PDEATHSIG
    except Exception:
        pass
    dn = os.open(os.devnull, os.O_RDWR)
    for fd in (0, 1, 2):
        os.dup2(dn, fd)
    os.environ["TMPDIR"] = scratch
    tempfile.tempdir = scratch
    os.chdir(scratch)
    from vlib.props import PROPS, result
    import traceback
    p = PROPS[pid]
    while True:
        job = conn.recv()
        if job is None:
            return
        try:
            r = p.run(tuple(job), seed)
        except BaseException as e:  # a fault of the harness, never a verdict on vrpy
            r = result({}, "inconclusive", reason="harness %s: %s" % (type(e).__name__, traceback.format_exc()[-400:]))
        conn.send((job, dict(r)))


class Farm:
    """Runs jobs in worker processes; a worker that dies or hangs costs one job."""

    def __init__(self, pid, seed, scratch, n, hard):
        self.pid, self.seed, self.scratch, self.n, self.hard = pid, seed, scratch, n, hard
        self.ctx = mp.get_context("fork")
        self.workers = []

    def spawn(self):
        a, b = self.ctx.Pipe()
        pr = self.ctx.Process(target=worker, args=(b, self.pid, self.seed, self.scratch), daemon=True)
        pr.start()
        b.close()
        return {"p": pr, "c": a, "job": None, "t": 0.0}

    def stop(self, w):
        try:
            if w["p"].pid:
                try:
                    os.killpg(w["p"].pid, signal.SIGKILL)
                except OSError:
                    w["p"].kill()
            w["p"].join(5)
        except Exception:
            pass
        w["c"].close()

    def run(self, jobs, deadline):
        it = iter(jobs)
        pending = True
        self.workers = [self.spawn() for _ in range(self.n)]

        def feed(w):
            nonlocal pending
            if not pending or monotonic() > deadline:
                pending = False
                return
            try:
                j = next(it)
            except StopIteration:
                pending = False
                return
            w["job"], w["t"] = j, monotonic()
            w["c"].send(j)

        for w in self.workers:
            feed(w)
        stop_at = deadline + GRACE
        while any(w["job"] is not None for w in self.workers):
            busy = [w for w in self.workers if w["job"] is not None]
            ready = mpc.wait([w["c"] for w in busy] + [w["p"].sentinel for w in busy], timeout=1.0)
            now = monotonic()
            for w in busy:
                i = self.workers.index(w)
                if w["c"] in ready:
                    try:
                        job, r = w["c"].recv()
                    except (EOFError, OSError):
                        yield w["job"], {"verdict": "inconclusive", "reason": "worker died", "obs": {}}
                        self.stop(w)
                        self.workers[i] = w = self.spawn()
                        feed(w)
                        continue
                    w["job"] = None
                    yield job, r
                    feed(w)
                elif not w["p"].is_alive() or now - w["t"] > self.hard or now > stop_at:
                    why = "worker died" if not w["p"].is_alive() else "killed by watchdog"
                    yield w["job"], {"verdict": "inconclusive", "reason": why, "obs": {}}
                    self.stop(w)
                    self.workers[i] = w = self.spawn() if now <= stop_at else w
                    if now <= stop_at:
                        feed(w)
                    else:
                        w["job"] = None
        for w in self.workers:
            try:
                if w["p"].is_alive():
                    w["c"].send(None)
            except Exception:
                pass
            self.stop(w)


def load_findings(pid):
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("{"):
                d = json.loads(line)
                if d.get("property") == pid and d.get("status") == "known":
                    out.append(d)
    return out


def write_replay(pid, n, r):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (pid, n))
    with open(path, "w") as f:
        json.dump({"property": pid, "messages": r.get("msgs"), "case": r.get("case")}, f, indent=1, default=str)
    return path


def replay(pid, path):
    from vlib.props import PROPS
    case = json.load(open(path))["case"]
    sys.stdout.flush()
    saved = os.dup(1)
    dn = os.open(os.devnull, os.O_RDWR)
    os.dup2(dn, 1)
    r = PROPS[pid].judge(case)
    os.dup2(saved, 1)
    print(r["verdict"], r.get("reason") or "")
    for x in r["msgs"]:
        print("  ", x)
    return 1 if r["verdict"] == "violation" else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--keep-going", action="store_true")
    A = ap.parse_args()
    if A.replay:
        return replay(A.property, A.replay)
    pid, t0 = A.property, monotonic()
    from vlib.props import PROPS
    p = PROPS[pid]
    jobs = p.jobs(A.tier, A.seed)
    findings = {f["mechanism"]: f for f in load_findings(pid)}
    scratch = tempfile.mkdtemp(prefix="vrpyverif-")
    tot, obs, reasons = collections.Counter(), collections.Counter(), collections.Counter()
    distinct, samples, violations, seen_findings = set(), [], [], collections.Counter()
    try:
        farm = Farm(pid, A.seed, scratch, WORKERS, p.hard or p.case_timeout * 3 + 60)
        deadline = t0 + BUDGET[A.tier]
        for job, r in farm.run(jobs, deadline):
            tot["run"] += 1
            for k, v in (r.get("obs") or {}).items():
                obs[k] += v
            v = r["verdict"]
            if v == "violation" and r.get("finding") in findings:
                seen_findings[r["finding"]] += 1
                v = "known"
            tot[v] += 1
            if v == "inconclusive":
                reasons[(r.get("reason") or "?")[:160]] += 1
            if v in ("ok", "known") and r.get("nontrivial"):
                distinct.add(r.get("sig") or json.dumps(job))
            if v == "ok" and r.get("nontrivial") and len(samples) < 3:
                samples.append({"job": list(job), "case": r.get("case")})
            if v == "violation":
                violations.append(r)
                if not A.keep_going and len(violations) >= 3:
                    break
    finally:
        try:
            for w in farm.workers:
                farm.stop(w)
        except Exception:
            pass
        shutil.rmtree(scratch, ignore_errors=True)
    for mech, f in findings.items():
        if seen_findings[mech]:
            print("KNOWN-FINDING: property=%s %s (seen %d times in this run)" % (pid, f["what"], seen_findings[mech]))
    extra = p.finish(A.tier, tot, obs) if hasattr(p, "finish") else []
    for msg in extra:
        violations.append({"msgs": [msg], "case": {"aggregate": True}})
    wall = monotonic() - t0
    ev = {"property": pid, "tier": A.tier, "seed": A.seed, "level": p.level, "wall_s": round(wall, 1),
          "violations": len(violations), "assumptions": list(p.assumptions),
          "coverage": {"evaluations": tot["run"], "distinct_nontrivial": len(distinct), "rule": p.rule,
                       "planned": len(jobs), "held": tot["ok"], "known_finding_hits": tot["known"],
                       "inconclusive": tot["inconclusive"], "inconclusive_reasons": dict(reasons.most_common(12)),
                       "monitor_observations": dict(sorted(obs.items())), "samples": samples}}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", pid + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(HERE, "evidence", pid + ".json"))
    print("%s %s: %d runs, %d held, %d distinct non-trivial, %d inconclusive, %d violations, %.0f s"
          % (pid, A.tier, tot["run"], tot["ok"], len(distinct), tot["inconclusive"], len(violations), wall))
    if tot["run"] and tot["ok"] + tot["known"] == 0 and not violations:
        print("no execution gave a verdict")
        return 2
    if violations:
        for n, r in enumerate(violations[:20]):
            path = write_replay(pid, n, r)
            for x in r["msgs"][:3]:
                print("  " + x.replace("\n", "\n    "))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
