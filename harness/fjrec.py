"""Recording histories of the fork-join / split-join simulators for spec/FJTrace.tla."""
import json, os
from common import *
import scripted
from scripted import Script, Ids, as_int, tm, moms, quiet
import most_queue.rand_distribution as rd

ARR, SVC = 1001.0, 1002.0


def install_gamma():
    scripted.install()
    if "gamma" in scripted._orig:
        return
    scripted._orig["gamma"] = rd.Gamma.generate_static

    def gen(mu, alpha, *a, **k):
        s = Script.current
        if s is not None and getattr(s, "fold", None) is not None:
            m, v = alpha / mu, alpha / mu ** 2
            i = s.fold(m, v)
            return s.draw(7000.0 + i)
        return scripted._orig["gamma"](mu, alpha, *a, **k)
    rd.Gamma.generate_static = staticmethod(gen)


def build(cfg):
    k = cfg["kind"]
    if k in ("fj", "sj"):
        from most_queue.sim.fj_sim import ForkJoinSim
        q = ForkJoinSim(cfg["n"], cfg["k"], k == "sj", cfg["purge"])
    else:
        from most_queue.sim.fj_delta_sim import ForkJoinSimDelta
        d = cfg["delta"]
        q = ForkJoinSimDelta(cfg["n"], cfg["k"], [d, d * d * 1.5, d ** 3 * 3.0] if cfg["dist"] else d * Script.scale, k == "dsj")
    q.set_sources(ARR, "D")
    q.set_servers(SVC, "D")
    return q


class TaskIds:
    def __init__(self):
        self.num = {}

    def see(self, ids):
        for i in sorted(set(ids) - set(self.num)):
            self.num[i] = len(self.num) + 1


def project(q, cfg, ids, cap):
    fj = cfg["kind"] == "fj"
    busy = [(i + 1, s.tsk_on_service, s.time_to_end_service) for i, s in enumerate(q.servers) if not s.is_free]
    lines = [list(x) for x in q.queues] if fj else [list(q.queue.queue)]
    pend = list(q.subtask_arr_queue) if cfg["kind"] in ("dfj", "dsj") else []
    ids.see([t.task_id for _, t, _ in busy] + [t.task_id for l in lines for t in l] + [t.task_id for t in pend])
    n = ids.num
    p = [tm(x) for x in q.p[:cap + 1]]
    while p and p[-1] == 0:
        p.pop()
    return {"now": tm(q.ttek), "arr": tm(q.arrival_time), "lines": [[n[t.task_id] for t in l] for l in lines],
            "busy": [[i if fj else 0, n[t.task_id], tm(e)] for i, t, e in busy],
            "pend": [[n[t.task_id], tm(t.future_arr_time)] for t in pend],
            "arrived": q.arrived, "served": q.served, "insys": q.in_sys, "subs": q.sub_task_in_sys, "free": q.free_channels,
            "v": moms(q.v, q.served), "p": p}


def new_script(cfg, script):
    sc = Script({ARR: script["arr"], SVC: script["svc"]}, default=40, scale=cfg.get("scale", 1.0))
    if cfg["kind"] in ("dfj", "dsj") and cfg["dist"]:
        d = cfg["delta"]
        var = d * d * 0.5

        def fold(m, v):
            i = round(m / d)
            return i if i >= 1 and abs(m - i * d) < 1e-9 * d and abs(v - i * var) < 1e-9 * d * d else 99
        sc.fold = fold
        for i in range(1, cfg["k"]):
            sc.streams[7000.0 + i] = [x[i - 1] for x in script["del"]]
    return sc


def record(cfg, script, nsteps, stop_served=None, final=True):
    install_gamma()
    Script.current = sc = new_script(cfg, script)
    err = None
    cap = nsteps + 2
    delayed = cfg["kind"] in ("dfj", "dsj")
    tr = {"cfg": {k: cfg[k] for k in ("kind", "n", "k", "purge")}, "cap": cap, "steps": [], "arr": 0}
    with quiet():
        try:
            q = build(cfg)
        except Exception as e:  # noqa
            return tr, "construction: %s: %s" % (type(e).__name__, e)
        tr["d0"] = [int(x) for key, x in sc.take() if key == ARR]
        tr["arr"] = tm(q.arrival_time)
        ids = TaskIds()
        o = project(q, cfg, ids, cap)
        for i in range(nsteps):
            crash, a0 = False, q.arrived
            try:
                with time_limit(20):
                    q.run_one_step()
                o = project(q, cfg, ids, cap)
            except Exception as e:  # noqa
                err = "%s: %s" % (type(e).__name__, e)
                crash = True
            d = {"arr": [], "svc": [], "del": []}
            dd = {}
            for key, x in sc.take():
                if key == ARR:
                    d["arr"].append(int(x))
                elif key == SVC:
                    d["svc"].append(int(x))
                else:
                    dd.setdefault(int(key) - 7000, []).append(int(x))
            if delayed and q.arrived > a0:
                for j in range(1, cfg["k"]):
                    # one sampled j-fold delay per later subtask; anything else is not a legal draw
                    if not cfg["dist"]:
                        d["del"].append(j * cfg["delta"])
                    elif len(dd.get(j, [])) == 1 and len(dd) == cfg["k"] - 1:
                        d["del"].append(dd[j][0])
                    else:
                        d["del"].append(-7)
            fin = []
            if i == nsteps - 1 and not err and final and q.ttek > 0:
                fin = [[tm(x * q.ttek) for x in q.get_p()[:cap + 1]]]
            tr["steps"].append({"d": d, "o": o, "fin": fin, "run": [], "crash": crash})
            if crash or (stop_served is not None and q.served >= stop_served):
                break
    Script.current = None
    # state times are kept up to the largest number of subtasks that were ever present
    tr["cap"] = min(cap, max([40] + [20 + sum(map(len, e["o"]["lines"])) + len(e["o"]["busy"]) + len(e["o"]["pend"]) for e in tr["steps"]]))
    return tr, err


def record_run(cfg, script, total, mode, first=0, limit=500):
    tr, err = record(cfg, script, limit if mode else total, stop_served=total if mode else None, final=False)
    if err or not tr["steps"]:
        return tr, err
    Script.current = new_script(cfg, script)
    with quiet():
        try:
            q = build(cfg)
            with time_limit(20):
                if first:           # run() may be called again to carry on
                    q.run(first, is_real_served=bool(mode))
                q.run(total - (0 if mode else first), is_real_served=bool(mode))
        except Exception as e:  # noqa
            tr["steps"][-1]["crash"] = True
            err = "%s: %s" % (type(e).__name__, e)
    Script.current = None
    if not err:
        tr["steps"][-1]["run"] = [{"now": tm(q.ttek), "arr": tm(q.arrival_time), "served": q.served, "v": moms(q.v, q.served),
                                   "mode": mode, "total": total}]
    return tr, err


def cfg_(kind, n, k, purge=False, delta=1, dist=False):
    return dict(kind=kind, n=n, k=k, purge=purge, delta=delta, dist=dist)


def rand_cfg(r, kind):
    n = r.choice([1, 2, 2, 3, 3, 4, 2, 3, 8])
    if kind == "fj":
        return cfg_("fj", n, r.randint(1, n))
    if kind == "purge":
        return cfg_("fj", n, r.randint(1, n), True)
    if kind == "sj":
        return cfg_("sj", n, r.choice([n, n, r.randint(1, n)]))
    k = r.randint(1, n + 1) if kind == "dfj" else r.randint(1, n)
    return cfg_(kind, n, k, delta=r.choice([0, 1, 2, 3, 5]) or 2, dist=r.random() < 0.5)


def rand_script(r, cfg, steps, load=None):
    L = steps * 5 + 20
    n = cfg["n"]
    amax = r.choice([3, 5, 8])
    parts = cfg["k"] if cfg["kind"] in ("dfj", "dsj") else n
    load = load or r.choice([0.5, 0.8, 1.0, 1.2])
    smax = max(1, min(12, int(load * amax * (n / parts if cfg["kind"] == "dfj" else 0.8))))
    s = {"arr": [r.randint(1, amax) for _ in range(L)], "svc": [r.randint(1, smax) for _ in range(L)],
         "del": [[r.randint(1, 3 * (j + 1)) for j in range(max(0, cfg["k"] - 1))] for _ in range(L)]}
    for k in range(0, L, r.randint(4, 8)):
        s["arr"][k] = r.randint(amax, 3 * amax + 2 * smax)
    return s


def deep_script(r, cfg, steps):
    """Overload: dozens of tasks wait, then the backlog drains."""
    L = steps * 5 + 20
    parts = cfg["k"] if cfg["kind"] in ("dfj", "dsj") else cfg["n"]
    up = steps // (2 * parts + 1)
    hi = r.choice([3, 6, 10])
    return {"arr": [1 if k < up else r.randint(3, 40) for k in range(L)],
            "svc": [r.randint(1, hi) if k < up * parts // 3 else r.randint(1, 2) for k in range(L)],
            "del": [[r.randint(1, 3 * (j + 1)) for j in range(max(0, cfg["k"] - 1))] for _ in range(L)]}


def surge_script(r, cfg, steps):
    """Backlogs of dozens of tasks that form and drain again and again."""
    L = steps * 5 + 20
    parts = cfg["k"] if cfg["kind"] in ("dfj", "dsj") else cfg["n"]
    up, down = r.randint(50, 110), r.randint(20, 40)
    one = cfg["kind"] in ("sj", "dsj")      # the servers work on one task at a time
    hi = r.choice([3, 5]) if one else max(3, r.choice([5, 8]) * cfg["n"] // parts)
    return {"arr": [r.randint(1, 2) if k % (up + down) < up else r.randint(4, 30) for k in range(L)],
            "svc": [r.randint(1, hi) for _ in range(L)],
            "del": [[r.randint(1, 3 * (j + 1)) for j in range(max(0, cfg["k"] - 1))] for _ in range(L)]}


def validate(traces, timeout=800, workers=6):
    path = os.path.join(scratch(), "ftraces_%d.json" % len(os.listdir(scratch())))
    slim = [{k: v for k, v in t.items() if k != "meta"} for t in traces]
    with open(path, "w") as fh:
        json.dump(slim, fh)
    r = tlc("FJTrace", "SPECIFICATION Spec\nINVARIANT Done\n", env={"TRACES": path}, workers=workers, timeout=timeout)
    v = {x["tr"]: x for x in r.lines("VERDICT")}
    if not r.ok or len(v) != len(traces):
        raise CheckError("trace validation did not finish: %d of %d verdicts\n%s" %
                         (len(v), len(traces), "\n".join(r.out.splitlines()[-40:])))
    return [v[i + 1] for i in range(len(traces))], r
