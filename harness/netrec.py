"""Recording histories of the priority queue and the priority network for spec/NetTrace.tla."""
import json, os
from common import *
import scripted
from scripted import Script, Ids, as_int, tm, moms, quiet
import most_queue.rand_distribution as rd


def karr(r): return 3000.0 + r
def ksvc(m, r): return 4000.0 + 100 * m + r
def kwarm(r): return 5000.0 + r


def install_exp():
    """Network sources are exponential by construction: samples of the keyed sources are scripted."""
    scripted.install()
    if "exp" in scripted._orig:
        return
    scripted._orig["exp"] = rd.Exp_dist.generate
    scripted._orig["exp_init"] = rd.Exp_dist.__init__

    def init(self, params, *a, **k):
        scripted._orig["exp_init"](self, params, *a, **k)
        self._mqv_key = params
    rd.Exp_dist.__init__ = init

    def gen(self, *a, **k):
        s = Script.current
        key = getattr(self, "_mqv_key", None)
        if s is not None and isinstance(key, float) and key in s.streams:
            return s.draw(key)
        return scripted._orig["exp"](self)
    rd.Exp_dist.generate = gen


class TracedMatrix:
    pass


def node_proj(q, K, ids_of, cap, disc):
    busy = [(s.tsk_on_service, s.time_to_end_service) for s in q.servers if not s.is_free]
    if disc == "No":
        lines = [list(q.queue)] + [[] for _ in range(K - 1)]
    else:
        lines = [list(x) for x in q.queue]
    return busy, lines


def fill_node(q, K, ids, busy, lines, cap):
    p = []
    for k in range(K):
        top = [tm(x) for x in q.p[k][:cap + 1]]
        while top and top[-1] == 0:
            top.pop()
        p.append(top)
    return {"busy": [[ids[t], tm(e)] for t, e in busy], "lines": [[ids[t] for t in l] for l in lines],
            "arrived": list(q.arrived), "served": list(q.served), "dropped": list(q.dropped), "taken": list(q.taked),
            "insys": list(q.in_sys), "free": q.free_channels, "p": p,
            "w": [moms(q.w[k], q.served[k]) for k in range(K)],
            "v": [moms(q.v[k], q.served[k]) for k in range(K)]}


def build_single(cfg):
    from most_queue.sim.priority_queue_sim import PriorityQueueSimulator
    nd = cfg["node"][0]
    K = cfg["K"]
    q = PriorityQueueSimulator(nd["n"], K, nd["disc"], None if nd["buf"] < 0 else nd["buf"])
    q.set_sources([{"type": "D", "params": karr(r)} for r in range(K)])
    q.set_servers([{"type": "D", "params": ksvc(0, r)} for r in range(K)])
    if cfg["warm"]:
        q.set_warm_up([{"type": "D", "params": kwarm(r)} for r in range(K)])
    return q


def build_net(cfg):
    import numpy as np
    from most_queue.sim.priority_network import PriorityNetwork
    K, M = cfg["K"], cfg["M"]
    L = [karr(r) for r in range(K)]
    R = [np.array(cfg["R"][r]) for r in range(K)]
    serv = [[{"type": "D", "params": ksvc(m, r)} for r in range(K)] for m in range(M)]
    return PriorityNetwork(K, L, R, [nd["n"] for nd in cfg["node"]], [nd["disc"] for nd in cfg["node"]], serv,
                           [[x - 1 for x in cfg["cls"][m]] for m in range(M)])


def project(q, cfg, ids, cap):
    K, M = cfg["K"], cfg["M"]
    nodes = [q] if not cfg["net"] else q.smos
    raw = [node_proj(x, K, ids, cap, cfg["node"][m]["disc"]) for m, x in enumerate(nodes)]
    allj = []
    for busy, lines in raw:
        allj += [t for t, _ in busy] + [t for l in lines for t in l]
    ids.see(allj)
    o = {"now": tm(q.ttek), "arrs": [tm(x) for x in q.arrival_time],
         "nd": [fill_node(x, K, ids, raw[m][0], raw[m][1], cap) for m, x in enumerate(nodes)], "net": []}
    if cfg["net"]:
        o["net"] = [{"served": list(q.served), "arrived": list(q.arrived), "insys": list(q.in_sys),
                     "v": [moms(q.v_network[k], q.served[k]) for k in range(K)],
                     "w": [moms(q.w_network[k], q.served[k]) for k in range(K)]}]
    return o


def streams_of(cfg, script):
    K, M = cfg["K"], cfg["M"]
    st = {}
    for r in range(K):
        st[karr(r)] = script["arr"][r]
        st[kwarm(r)] = script["warm"][r] if script.get("warm") else []
        for m in range(M):
            st[ksvc(m, r)] = script["svc"][m][r]
    return st


def spec_cfg(cfg):
    return {k: cfg[k] for k in ("K", "M", "node", "cls", "warm", "entry", "route")}


def record(cfg, script, nsteps, stop_served=None, final=True):
    install_exp()
    K, M = cfg["K"], cfg["M"]
    Script.current = sc = Script(streams_of(cfg, script), default=60, scale=cfg.get("scale", 1.0))
    err = None
    cap = nsteps + 2
    tr = {"cfg": spec_cfg(cfg), "cap": cap, "steps": []}
    with quiet():
        import numpy as np
        np.random.seed(cfg.get("rseed", 1))
        try:
            q = build_net(cfg) if cfg["net"] else build_single(cfg)
        except Exception as e:  # noqa: a legal configuration must be accepted
            return tr, "construction: %s: %s" % (type(e).__name__, e)
        d0 = sc.take()
        tr["d0"] = [[int(x) for key, x in d0 if key == karr(r)] for r in range(K)]
        tr["arrs"] = [tm(x) for x in q.arrival_time]
        ids = Ids()
        o = project(q, cfg, ids, cap)
        for i in range(nsteps):
            crash = False
            try:
                with time_limit(20):
                    q.run_one_step()
                o = project(q, cfg, ids, cap)
            except Exception as e:  # noqa
                err = "%s: %s" % (type(e).__name__, e)
                crash = True
            d = {"arr": [[] for _ in range(K)], "svc": [[[] for _ in range(K)] for _ in range(M)], "warm": [[] for _ in range(K)]}
            for key, x in sc.take():
                key = int(key)
                if key >= 5000:
                    d["warm"][key - 5000].append(int(x))
                elif key >= 4000:
                    d["svc"][(key - 4000) // 100][(key - 4000) % 100].append(int(x))
                else:
                    d["arr"][key - 3000].append(int(x))
            fin = []
            if i == nsteps - 1 and not err and final and not cfg["net"] and q.ttek > 0:
                full = q.get_p()
                fin = [[[tm(x * q.ttek) for x in full[k][:cap + 1]] for k in range(K)]]
            tr["steps"].append({"d": d, "o": o, "fin": fin, "run": [], "crash": crash})
            if crash:
                break
            if stop_served is not None and sum(q.served) >= stop_served:
                break
    Script.current = None
    # state times are kept up to the largest number of jobs that were ever present
    tr["cap"] = min(cap, max([40] + [20 + sum(map(len, x["lines"])) + len(x["busy"]) for e in tr["steps"] for x in e["o"]["nd"]]))
    return tr, err


def record_run(cfg, script, total, mode, first=0, limit=400):
    """The same history stepwise and through run(total)."""
    import numpy as np
    tr, err = record(cfg, script, limit if mode else total, stop_served=total if mode else None, final=False)
    if err or not tr["steps"]:
        return tr, err
    Script.current = Script(streams_of(cfg, script), default=60, scale=cfg.get("scale", 1.0))
    with quiet():
        np.random.seed(cfg.get("rseed", 1))
        try:
            q = build_net(cfg) if cfg["net"] else build_single(cfg)
            with time_limit(20):
                if first:           # run() may be called again to carry on
                    q.run(first, is_real_served=bool(mode))
                q.run(total - (0 if mode else first), is_real_served=bool(mode))
        except Exception as e:  # noqa
            err = "%s: %s" % (type(e).__name__, e)
            tr["steps"][-1]["crash"] = True
    Script.current = None
    if err:
        return tr, err
    tr["steps"][-1]["run"] = [{"now": tm(q.ttek), "arrs": [tm(x) for x in q.arrival_time],
                               "served": list(q.served), "mode": mode, "total": total}]
    return tr, err


# ---------------------------------------------------------------- generation
def single(K, n, disc, buf=-1, warm=False):
    return {"net": False, "K": K, "M": 1, "node": [{"n": n, "disc": disc, "buf": buf}], "cls": [list(range(1, K + 1))],
            "warm": warm, "entry": [[1] for _ in range(K)], "route": [[[2]] for _ in range(K)]}


def rand_single(r, buffers=False, warm=False, discs=("No", "NP", "PR", "RS", "RW")):
    K = r.choice([1, 2, 2, 3, 3, 4, 2, 3, 6])
    return single(K, r.choice([1, 1, 2, 2, 3, 1, 2, 3, 8]), r.choice(discs), r.choice([0, 1, 2, 4]) if buffers else -1, warm)


def rand_script(r, cfg, steps, load=None):
    K, M = cfg["K"], cfg["M"]
    ntot = sum(x["n"] for x in cfg["node"])
    load = load or r.choice([0.5, 0.8, 1.0, 1.3])
    amax = r.choice([4, 6, 9])
    smax = max(2, min(12, int(load * (amax + 1) * ntot / K / (1.5 if cfg["net"] else 1))))
    L = steps * 3 + 10
    s = {"arr": [[r.randint(1, amax) for _ in range(L)] for _ in range(K)],
         "svc": [[[r.randint(1, smax) for _ in range(L)] for _ in range(K)] for _ in range(M)],
         "warm": [[r.randint(1, smax + 3) for _ in range(L)] for _ in range(K)]}
    for q in s["arr"]:
        for k in range(0, L, r.randint(5, 9)):
            q[k] = r.randint(amax, amax + 3 * smax)
    return s


def deep_script(r, cfg, steps):
    """Overload: the lines of all classes grow long, then drain."""
    K, M = cfg["K"], cfg["M"]
    L = steps * 3 + 10
    up = steps // (2 * K)
    n = max(x["n"] for x in cfg["node"])
    hi = r.choice([3, 6]) * n
    return {"arr": [[r.randint(1, 2) if k < up else r.randint(5, 60) for k in range(L)] for _ in range(K)],
            "svc": [[[r.randint(1, hi) if k < up // 3 else r.randint(1, 2) for k in range(L)] for _ in range(K)] for _ in range(M)],
            "warm": [[r.randint(1, 9) for _ in range(L)] for _ in range(K)]}


def surge_script(r, cfg, steps):
    """Surge after surge: the lines of all classes grow to dozens of jobs and drain, again and again."""
    K, M = cfg["K"], cfg["M"]
    L = steps * 3 + 10
    n = max(x["n"] for x in cfg["node"])
    up, down = r.randint(30, 70) // K, r.randint(20, 40) // K + 1
    hi = r.choice([3, 5]) * n
    return {"arr": [[r.randint(1, 3) if k % (up + down) < up else r.randint(10, 60) for k in range(L)] for _ in range(K)],
            "svc": [[[r.randint(1, hi) for _ in range(L)] for _ in range(K)] for _ in range(M)],
            "warm": [[r.randint(1, 9) for _ in range(L)] for _ in range(K)]}


def rand_net(r, discs=("No", "NP", "PR", "RS", "RW")):
    K, M = r.choice([1, 2, 2, 3, 3, 2, 3, 5]), r.choice([1, 2, 3, 4, 1, 2, 3, 6])
    node = [{"n": r.choice([1, 1, 2, 3]), "disc": r.choice(discs), "buf": -1} for _ in range(M)]
    cls = []
    for m in range(M):
        p = list(range(1, K + 1))
        r.shuffle(p)
        cls.append(p)
    R, entry, route = [], [], []
    for k in range(K):
        mat = []
        for row in range(M + 1):
            while True:
                w = [r.choice([0, 0, 1, 2, 3]) for _ in range(M)] + [0 if row == 0 else r.choice([2, 3, 4])]
                if sum(w):
                    break
            t = sum(w)
            mat.append([x / t for x in w])
        R.append(mat)
        entry.append([j + 1 for j in range(M) if mat[0][j] > 0])
        route.append([[j + 1 for j in range(M + 1) if mat[i + 1][j] > 0] for i in range(M)])
    return {"net": True, "K": K, "M": M, "node": node, "cls": cls, "warm": False, "entry": entry, "route": route, "R": R,
            "rseed": r.randint(1, 10 ** 6)}


def validate(traces, timeout=800, workers=4):
    path = os.path.join(scratch(), "ntraces_%d.json" % len(os.listdir(scratch())))
    slim = [{k: v for k, v in t.items() if k != "meta"} for t in traces]
    with open(path, "w") as fh:
        json.dump(slim, fh)
    r = tlc("NetTrace", "SPECIFICATION Spec\nINVARIANT Done\n", env={"TRACES": path}, workers=workers, timeout=timeout)
    v = {x["tr"]: x for x in r.lines("VERDICT")}
    if not r.ok or len(v) != len(traces):
        raise CheckError("trace validation did not finish: %d of %d verdicts\n%s" %
                         (len(v), len(traces), "\n".join(r.out.splitlines()[-40:])))
    return [v[i + 1] for i in range(len(traces))], r
