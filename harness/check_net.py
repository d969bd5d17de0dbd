"""Properties P01..P03 (priority queue) and N01 (priority network) against spec/Net.tla."""
import copy
from collections import Counter
from common import *
import netrec
from netrec import *
from qsrec import SCALES
from judge import judge, dedup

CORE = {"now", "arrs", "lines", "serving", "ends", "noevent", "crash"}
CNT = {"counts", "dropped", "insys", "free", "taken"}
CHECKS = {
    "P01": {"lines", "serving", "crash"},
    "P02": {"ends", "draws", "serving", "crash"},
    "P03": CNT | {"w", "v", "p", "getp", "crash"},
    "N01": CORE | CNT | {"w", "v", "p", "netcounts", "vnet", "wnet", "draws", "run"},
    "Q03": {"now", "arrs", "noevent", "run", "crash"},
}
TEXT = {
    "lines": "the waiting lines differ", "serving": "the jobs in service differ", "ends": "a completion time differs",
    "now": "clock differs", "arrs": "next arrivals differ", "noevent": "no event was pending in the specification",
    "counts": "arrived/served counters differ", "dropped": "refused counters differ", "insys": "in-system counters differ",
    "free": "free channel count differs", "taken": "jobs taken counters differ", "w": "waiting moments differ",
    "v": "sojourn moments differ", "p": "state-time tallies differ", "getp": "get_p() differs from the time fractions",
    "vnet": "network sojourn moments differ", "wnet": "network waiting moments differ", "netcounts": "network counters differ",
    "draws": "number of samples drawn from a distribution differs", "crash": "the simulator raised an exception",
    "run": "run() ends in a different state",
}


def cfgset(lst):
    out = []
    for c in lst:
        d = {k: tla(c[k]) for k in ("K", "M", "node", "cls", "warm")}
        d["entry"] = "<<" + ", ".join(tlaset(e) for e in c["entry"]) + ">>"
        d["route"] = "<<" + ", ".join("<<" + ", ".join(tlaset(x) for x in q) + ">>" for q in c["route"]) + ">>"
        out.append("[" + ", ".join(k + " |-> " + v for k, v in d.items()) + "]")
    return RawTla("{" + ", ".join(out) + "}")


def smallnet(discs, cls, entry, R):
    """R[k]: routing rows as lists of weights (last column = leaves)."""
    K, M = len(R), len(discs)
    RR = [[[w / sum(row) for w in row] for row in mat] for mat in R]
    return {"net": True, "K": K, "M": M, "node": [dict(n=n, disc=d, buf=-1) for d, n in discs], "cls": cls, "warm": False,
            "entry": [[j + 1 for j in range(M) if mat[0][j] > 0] for mat in R],
            "route": [[[j + 1 for j in range(M + 1) if mat[i + 1][j] > 0] for i in range(M)] for mat in R],
            "R": RR, "rseed": 7}


SMALLNETS = [
    smallnet([("PR", 1), ("NP", 1)], [[1, 2], [2, 1]], None, [[[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[1, 1, 0], [0, 0, 1], [1, 0, 1]]]),
    smallnet([("NP", 1), ("RW", 2)], [[2, 1], [1, 2]], None, [[[1, 1, 0], [0, 1, 1], [0, 0, 1]], [[0, 1, 0], [0, 0, 1], [1, 0, 1]]]),
    smallnet([("RS", 1), ("No", 1)], [[1, 2], [1, 2]], None, [[[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[1, 0, 0], [0, 1, 1], [1, 0, 1]]]),
]
DISCS = ("No", "NP", "PR", "RS", "RW")


def mc_runs(pid):
    T = THOROUGH
    if pid == "P01":
        return [([single(2, n, d) for n in (1, 2) for d in DISCS], [1, 3], 5 if T else 4),
                ([single(3, 1, d) for d in ("NP", "PR")] + ([single(3, 2, "PR")] if T else []), [1, 3], 4)]
    if pid == "P02":
        return [([single(2, n, d) for n in (1, 2) for d in ("PR", "RS", "RW")], [1, 4], 5 if T else 4),
                ([single(3, 1, d) for d in ("PR", "RS", "RW")], [1, 4], 4)]
    if pid == "P03":
        return [([single(2, n, d, b) for n in (1, 2) for b in (0, 1) for d in DISCS], [1, 3], 5 if T else 4),
                ([single(2, 1, d, -1, True) for d in DISCS], [1, 3], 4 if T else 3)]
    return [(SMALLNETS, [1, 2], 3)]


def net_script_of(e, c):
    return {"arr": e["h"]["arr"], "svc": e["h"]["svc"], "warm": e["h"]["warm"]}


def routing_law(r):
    """Transition frequencies of jobs between nodes of real networks (judged by spec/Law.tla)."""
    import numpy as np
    install_exp()
    cases, about = [], []
    for t in range(4 if not THOROUGH else 20):
        while True:
            cfg = rand_net(r, ("No", "NP", "PR"))
            if cfg["M"] >= 2:
                break
        K, M = cfg["K"], cfg["M"]
        cnt = [[[0] * (M + 1) for _ in range(M + 1)] for _ in range(K)]
        with quiet():
            np.random.seed(1000 + t)
            Script.current = Script({}, default=lambda key: 60 * M if key < 4000 else 1)
            for k in range(K):
                Script.current.streams[karr(k)] = [3]
            q = build_net(cfg)
            for _ in range(3500):
                a0 = list(q.arrived)
                na = [list(s.arrived) for s in q.smos]
                ns = [list(s.served) for s in q.smos]
                q.run_one_step()
                src = [(m, c) for m in range(M) for c in range(K) if q.smos[m].served[c] > ns[m][c]]
                dst = [m for m in range(M) if sum(q.smos[m].arrived) > sum(na[m])]
                if src:
                    m, c = src[0]
                    k = cfg["cls"][m].index(c + 1)
                    row = m + 1
                else:
                    k = [x for x in range(K) if q.arrived[x] > a0[x]][0]
                    row = 0
                cnt[k][row][dst[0] if dst else M] += 1
            Script.current = None
        for k in range(K):
            for row in range(M + 1):
                n = sum(cnt[k][row])
                if n >= 30:
                    num = [int(round(1000 * x)) for x in cfg["R"][k][row]]
                    cases.append({"n": n, "num": num, "cnt": cnt[k][row], "total": n})
    return cases


def corrupt(tr, r):
    t = copy.deepcopy(tr)
    st = t["steps"]
    k = r.randrange(len(st) // 3, len(st))
    o = st[k]["o"]
    nd = r.choice(o["nd"])
    f = r.choice(["now", "w", "v", "p", "insys", "served", "busy", "arrs", "lines", "draw"])
    if f == "now":
        o["now"] += 1
    elif f in ("insys", "served"):
        nd[f][r.randrange(len(nd[f]))] += 1
    elif f in ("w", "v"):
        nd[f][r.randrange(len(nd[f]))][r.randrange(3)] += 1
    elif f == "p":
        nd["p"][0] = [(nd["p"][0] or [0])[0] + 1] + nd["p"][0][1:]
    elif f == "busy":
        nd["busy"] = nd["busy"] + [[9999, o["now"] + 1]]
    elif f == "arrs":
        o["arrs"][0] += 1
    elif f == "lines":
        nd["lines"][0] = nd["lines"][0] + [9999]
    elif f == "draw":
        st[k]["d"]["arr"][0] = st[k]["d"]["arr"][0] + [1, 1]
    t["meta"] = {"fam": "control:" + f, "err": None}
    return t


def rec(cfg, script, steps, fam, **kw):
    tr, err = record(cfg, script, steps, **kw)
    tr["meta"] = {"fam": fam, "err": err, "scale": cfg.get("scale", 1.0)}
    return tr


def run_traces(r, count):
    out = []
    for i in range(count):
        c = rand_net(r) if i % 2 else rand_single(r)
        c["scale"] = r.choice(SCALES)
        tr, err = record_run(c, rand_script(r, c, 60), r.randint(1, 25), 1 if i % 4 > 1 or i % 8 < 4 else 0)
        tr["meta"] = {"fam": "run", "err": err}
        out.append(tr)
    for i in range(count // 3):
        c = rand_net(r) if i % 2 else rand_single(r, buffers=i % 4 == 0)
        mode = i % 3 > 0
        total = r.choice([100, 130]) if mode else 300
        tr, err = record_run(c, rand_script(r, c, 400), total, int(mode), first=total // r.choice([2, 3]) + r.randint(-9, 9), limit=1500)
        tr["meta"] = {"fam": "run", "err": err}
        out.append(tr)
    return out


def extra_q03(rep, r, clauses):
    """Priority queue and network histories for the event-order property."""
    traces = run_traces(r, 60 if THOROUGH else 12)
    for i in range(60 if THOROUGH else 10):
        c = rand_net(r) if i % 2 else rand_single(r)
        traces.append(rec(c, rand_script(r, c, 60), 60, "net" if c["net"] else "prio"))
    judge(rep, traces, validate, CHECKS["Q03"], TEXT, famof=lambda t: "prio" if t["cfg"]["M"] == 1 else "net")


def main(pid):
    rep = Report(pid)
    clauses = CHECKS[pid]
    r = rng(pid)
    runs = [(cs, V, A, bg(run_mc, "NetMC", dict(Cfgs=cfgset(cs), V=set(V), A=A, Emit=True), ["Invariant", "EmitOK"],
                          ["StepOK"], workers=3)) for cs, V, A in mc_runs(pid)]
    traces = []
    per = 600 if THOROUGH else 70
    steps = 70
    for i in range(per):
        if i % 3 == 2 and pid in ("P01", "P02"):
            c = rand_net(r, DISCS if pid == "P01" else ("PR", "RS", "RW"))
        elif pid == "P03" and i % 6 == 5:
            c = rand_net(r)
        elif pid == "P01":
            c = rand_single(r)
        elif pid == "P02":
            c = rand_single(r, discs=("PR", "RS", "RW", "RW", "PR", "NP"))
        elif pid == "P03":
            c = rand_single(r, buffers=i % 2 == 0, warm=i % 4 == 1)
        else:
            c = rand_net(r)
        if pid != "N01" and not c["net"]:
            c["node"][0]["n"] = r.choice([1, 1, 2, 2, 3, 5])
        c["scale"] = r.choice(SCALES)
        fam = "net" if c["net"] else ("buf" if c["node"][0]["buf"] >= 0 else "warm" if c["warm"] else "prio")
        traces.append(rec(c, rand_script(r, c, steps), steps, fam))
    for i in range(40 if THOROUGH else 6):
        c = rand_net(r) if pid == "N01" or i % 6 == 5 else rand_single(r, buffers=pid == "P03" and i % 2 == 0, warm=pid == "P03" and i % 4 == 1)
        if c["node"][0]["buf"] >= 0:
            c["node"][0]["buf"] = r.randint(20, 70)
        c["scale"] = r.choice(SCALES)
        fam = "net" if c["net"] else ("buf" if c["node"][0]["buf"] >= 0 else "warm" if c["warm"] else "prio")
        traces.append(rec(c, deep_script(r, c, 200), 200, fam))
    for i in range(24 if THOROUGH else 6):      # long histories: statistics over many hundreds of jobs
        c = rand_net(r) if pid == "N01" else rand_single(r, buffers=pid == "P03" and i % 2 == 0)
        if i % 3 and not c["net"]:
            c["node"][0]["disc"] = (["RW", "PR", "RS", "PR"] if pid != "P03" else DISCS)[(i * 7 + i // 3) % (4 if pid != "P03" else 5)]
            c = single(r.choice([2, 2, 3]), c["node"][0]["n"], c["node"][0]["disc"], c["node"][0]["buf"])
        c["scale"] = r.choice(SCALES[:5])
        fam = "net" if c["net"] else ("buf" if c["node"][0]["buf"] >= 0 else "prio")
        if i % 2 and c["node"][0]["buf"] < 0:
            traces.append(rec(c, surge_script(r, c, 700), 700, fam))
        else:
            traces.append(rec(c, rand_script(r, c, 900, load=1.6 if c["node"][0]["buf"] >= 0 else r.choice([0.5, 0.8])), 900, fam))
    if pid == "P03":                                # overload with a small buffer under every discipline
        for i in range(20 if THOROUGH else 5):
            c = single(r.choice([2, 3]), r.choice([1, 2, 3]), DISCS[i % 5], r.choice([0, 1, 3, 9]))
            n, L = c["node"][0]["n"], 1500
            traces.append(rec(c, {"arr": [[r.randint(1, 4) for _ in range(L)] for _ in range(c["K"])], "warm": [[1]] * c["K"],
                                  "svc": [[[r.randint(1, 4 * n) for _ in range(L)] for _ in range(c["K"])]]}, 500, "buf"))
    if pid == "N01":
        traces += [t for t in run_traces(r, 40 if THOROUGH else 10) if t["cfg"]["M"] > 1]
    emits = []
    for cs, V, A, f in runs:
        mc = f.result()
        rep.add_mc(mc, "NetMC %s: %d configurations, durations %s, %d arrivals" % (pid, len(cs), V, A))
        emits += dedup(mc.lines("EMIT"))
    rep.cov["spec_behaviours_emitted"] = len(emits)
    r.shuffle(emits)
    for e in emits[:(3000 if THOROUGH else 150)]:
        c = e["cfg"]
        if pid == "N01":
            c = [x for x in SMALLNETS if x["node"] == c["node"]][0]
        else:
            c = dict(c, net=False, entry=[[1]] * c["K"], route=[[[2]]] * c["K"])
        traces.append(rec(c, net_script_of(e, c), 2 * sum(len(x) for x in e["h"]["arr"]) + 2, "emit", final=False))
    good = [t for t in traces if not t["meta"]["err"] and len(t["steps"]) > 20]
    controls = [corrupt(r.choice(good), r) for _ in range(12)] if good else []
    traces = judge(rep, traces, validate, clauses, TEXT, controls,
                   lambda t: "net" if pid == "N01" or t["cfg"]["M"] > 1 else "%s-%s" % ("buf" if t["cfg"]["node"][0]["buf"] >= 0 else "warm" if t["cfg"]["warm"] else "prio",
                                                                  t["cfg"]["node"][0]["disc"]))
    cov = Counter()
    for t in traces:
        po = None
        for e in t["steps"]:
            o = e["o"]
            if po:
                for m, nd in enumerate(o["nd"]):
                    pd = po["nd"][m]
                    cov["refusals"] += sum(nd["dropped"]) > sum(pd["dropped"])
                    cov["interruptions"] += bool({b[0] for b in pd["busy"]} & {x for l in nd["lines"] for x in l})
                    cov["steps_with_waiting"] += any(nd["lines"])
                cov["simultaneous_events"] += o["now"] == po["now"]
            po = o
    rep.cov["event_coverage"] = dict(cov)
    rep.samples = [{"cfg": t["cfg"], "first_steps": [{"now": e["o"]["now"], "lines": [n["lines"] for n in e["o"]["nd"]],
                                                       "busy": [n["busy"] for n in e["o"]["nd"]]} for e in t["steps"][:4]]}
                   for t in traces[-2:]]
    if pid == "N01":
        from check_qs import check_law
        law = routing_law(r)
        check_law(rep, law, "routing")
        rep.cov["sampling_law_cases"] = len(law)
    rep.assumptions = ["integer durations injected through notation 'D' and, for network sources, through the exponential sampler"]
    return rep.finish()
