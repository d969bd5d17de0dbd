"""Properties Q01..Q10: single-class simulators against spec/QS.tla."""
import copy
from collections import Counter
from common import *
from qsrec import *
from judge import judge, dedup

CORE = {"now", "arrs", "q", "busy", "phase", "noevent", "crash"}
CNT = {"arrived", "served", "dropped", "taken", "insys", "free"}
ALLF = ["fifo", "loss", "vac", "imp", "batch", "finite"]

CHECKS = {
    "Q01": (["fifo", "loss", "vac"], {"q", "busy", "draws", "taken", "crash"}),
    "Q02": (["loss", "fifo", "vac"], CNT | {"crash"}),
    "Q03": (ALLF + ["run"], {"now", "arrs", "noevent", "run", "crash"}),
    "Q04": (["fifo", "loss", "vac", "batch", "finite"], {"w", "v", "zerow", "crash"}),
    "Q05": (ALLF, {"p", "getp", "crash"}),
    "Q06": (["vac", "vac2"], CORE | {"pht", "phn", "getph", "draws"}),
    "Q07": (ALLF, {"bp", "crash"}),
    "Q08": (["imp"], CORE | CNT | {"w", "v", "draws"}),
    "Q09": (["batch"], CORE | CNT | {"w", "v", "draws"}),
    "Q10": (["finite"], CORE | CNT | {"w", "v", "draws"}),
}
TEXT = {
    "q": "waiting line differs", "busy": "jobs in service / completion times differ", "now": "clock differs",
    "arrs": "next arrival(s) differ", "phase": "vacation phase differs", "noevent": "no event was pending in the specification",
    "w": "waiting-time moments differ", "v": "sojourn-time moments differ", "p": "state-time tallies differ",
    "getp": "get_p() differs from the time fractions", "bp": "busy-period moments differ", "pht": "phase durations differ",
    "phn": "phase start counters differ", "getph": "phase probabilities differ", "draws": "number of samples drawn differs",
    "crash": "the simulator raised an exception", "run": "run() ends in a different state", "zerow": "zero-wait count differs",
}


def mc_cfgs(pid):
    C = cfg_
    vac = [dict(warm=True), dict(warm=True, cold=True), dict(warm=True, cold=True, delay=True), dict(cold=True, delay=True),
           dict(cold=True)]
    plain = [C(n=1), C(n=2), C(n=1, buf=0), C(n=2, buf=1), C(n=1, buf=1), C(n=2, buf=0)]
    if pid in ("Q01", "Q02", "Q04", "Q07"):
        return plain, [1, 3], 5 if THOROUGH else 4, 1
    if pid in ("Q03", "Q05"):
        return plain[:4] + [C("imp", n=1), C("finite", n=1, m=2), C(n=1, warm=True, cold=True, delay=True)], [1, 2], 4 if THOROUGH else 3, 1
    if pid == "Q06":
        return [C(n=n, buf=b, **v) for v in vac for n in (1, 2) for b in (-1, 1)], [1, 3], 4 if THOROUGH else 3, 1
    if pid == "Q08":
        return [C("imp", n=1), C("imp", n=2), C("imp", n=1, buf=1), C("imp", n=2, buf=1)], [1, 3], 4 if THOROUGH else 3, 1
    if pid == "Q09":
        return [C("batch", n=1), C("batch", n=2), C("batch", n=1, buf=1), C("batch", n=2, buf=0)], [1, 2], 5 if THOROUGH else 4, 2
    if pid == "Q10":
        return [C("finite", n=n, m=m, buf=b) for n in (1, 2) for m in (1, 2, 3) for b in (-1, 0, 1)], [1, 3], 6 if THOROUGH else 5, 1


def strip(c):
    return {k: c[k] for k in ("kind", "n", "buf", "warm", "cold", "delay", "m")}


def law_traces(r):
    """Batch-size frequencies from the real sampler with a fixed seed (judged by spec/Law.tla)."""
    import numpy as np
    from most_queue.sim.batch_sim import QueueingSystemBatchSim
    out = []
    for probs in ([0.2, 0.3, 0.1, 0.2, 0.2], [0.5, 0.5], [0.0, 0.75, 0.25], [1.0], [0.1, 0.9]):
        np.random.seed(12345)
        with quiet():
            q = QueueingSystemBatchSim(1, probs, buffer=0)
            q.generator = np.random.default_rng(12345)
            q.set_sources(KEY["arr"], "D")
            q.set_servers(KEY["svc"], "D")
            Script.current = Script({}, default=1)
            N = 4000
            cnt = Counter()
            for _ in range(N):
                a = q.arrived
                while q.arrived == a:
                    q.run_one_step()
                cnt[q.arrived - a] += 1
            Script.current = None
        out.append({"n": N, "num": [int(round(p * 1000)) for p in probs], "cnt": [cnt[i + 1] for i in range(len(probs))],
                    "total": sum(cnt.values())})
    return out


def corrupt(tr, r):
    """A negative control: one logged value of a good trace is changed."""
    t = copy.deepcopy(tr)
    st = t["steps"]
    k = r.randrange(len(st) // 3, len(st))
    o = st[k]["o"]
    f = r.choice(["now", "w", "v", "p", "insys", "served", "busy", "arrs"])
    if f in ("now", "insys", "served"):
        o[f] += 1
    elif f in ("w", "v"):
        o[f][r.randrange(3)] += 1
    elif f == "p":
        o["p"] = (o["p"] or [0])
        o["p"][0] += 1
    elif f == "busy":
        o["busy"] = o["busy"] + [[o["seen"] + 1, o["now"] + 1]]
    elif f == "arrs":
        o["arrs"] = [a + 1 for a in o["arrs"]] or [1]
    t["meta"] = {"fam": "control:" + f, "err": None, "script": {}}
    return t


def main(pid):
    rep = Report(pid)
    fams, clauses = CHECKS[pid]
    r = rng(pid)
    # 1. the specification itself, exhaustively within a bound; complete behaviours are emitted
    cf, V, A, B = mc_cfgs(pid)
    mcf = bg(run_mc, "QSMC", dict(Cfgs=tlaset([strip(c) for c in cf]), V=set(V), A=A, BMax=B, Emit=True),
                ["Invariant", "Live", "EmitOK"], ["StepOK"], workers=4)
    # 2. histories of the real code: the specification's own behaviours, then long random ones
    traces = []
    per = 400 if THOROUGH else max(12, 72 // len(fams))
    steps = 70
    for f in fams:
        if f == "run":
            for i in range(60 if THOROUGH else 12):
                fam = ALLF[i % len(ALLF)]
                cfg = rand_cfg(r, fam)
                if cfg["kind"] == "batch":
                    cfg = rand_cfg(r, "fifo")
                mode = 1 if i % 4 else 0
                tr, err = record_run(cfg, rand_script(r, cfg, 60), r.randint(1, 25), mode)
                tr["meta"] = {"fam": "run", "err": err, "script": {}}
                traces.append(tr)
            for i in range(24 if THOROUGH else 6):
                cfg = rand_cfg(r, ["loss", "fifo", "loss", "vac", "finite", "imp"][i % 6])
                mode = i % 2
                total = r.choice([120, 150, 256]) if mode else r.choice([350, 500])
                tr, err = record_run(cfg, rand_script(r, cfg, 400, load=2.5 if cfg["buf"] >= 0 else None), total, mode, first=total // r.choice([2, 3]) + r.randint(-9, 9), limit=1500)
                tr["meta"] = {"fam": "run", "err": err, "script": {}}
                traces.append(tr)
        elif f == "vac2":
            for i in range(per):
                cfg = dict(cfg_(n=r.choice([1, 2, 2, 3]), warm=r.random() < .7, cold=True, delay=True), scale=r.choice(SCALES))
                tr, err = record(cfg, rand_script(r, cfg, steps, load=0.3), steps)
                tr["meta"] = {"fam": "vac", "err": err, "script": {}}
                traces.append(tr)
        else:
            traces += make_traces(r, f, per, steps)
            traces += deep_traces(r, f, 40 if THOROUGH else max(4, 12 // len(fams)))
            traces += long_traces(r, f, 8 if THOROUGH else 1)
            traces += surge_traces(r, f, 40 if THOROUGH else 5 if f == "vac" else 3)
    mc = mcf.result()
    rep.add_mc(mc, "QSMC %s: %d configurations, durations %s, %d arrivals" % (pid, len(cf), V, A))
    emits = dedup(mc.lines("EMIT"))
    rep.cov["spec_behaviours_emitted"] = len(emits)
    r.shuffle(emits)
    ne = 3000 if THOROUGH else 150
    traces += replay_emitted(emits[:ne])
    good = [t for t in traces if not t["meta"]["err"] and len(t["steps"]) > 20]
    controls = [corrupt(r.choice(good), r) for _ in range(12)] if good else []
    traces = judge(rep, traces, validate, clauses, TEXT, controls,
                   lambda t: t["cfg"]["kind"] if t["meta"]["fam"] in ("emit", "run") else t["meta"]["fam"])
    if pid == "Q03":
        import check_net
        check_net.extra_q03(rep, r, clauses)
        import check_fj
        check_fj.extra_q03(rep, r)
    cov = Counter()
    for t in traces:
        po = None
        for e in t["steps"]:
            o = e["o"]
            if po:
                cov["refusals_or_reneges"] += o["dropped"] > po["dropped"]
                cov["phase_" + o["ph"]] += o["ph"] != po["ph"] and o["ph"] != "none"
                cov["queue_nonempty_steps"] += bool(o["q"])
                cov["simultaneous_events"] += o["now"] == po["now"]
                cov["busy_periods_completed"] += o["bc"] > po["bc"]
            po = o
    rep.cov["event_coverage"] = dict(cov)
    rep.samples = [{"cfg": t["cfg"], "first_steps": [{"d": e["d"], "now": e["o"]["now"], "q": e["o"]["q"],
                                                       "busy": e["o"]["busy"]} for e in t["steps"][:4]]} for t in traces[-3:]]
    if pid == "Q06":
        warm_of_subclasses(rep, r)
    if pid == "Q09":
        law = law_traces(r)
        check_law(rep, law, "batch-size")
        rep.cov["sampling_law_cases"] = len(law)
    rep.assumptions = ["integer durations injected through notation 'D' (the dispatch to samplers is property D01)"]
    return rep.finish()


def warm_of_subclasses(rep, r):
    """set_warm() is inherited by the simulators with their own arrival(); a start-up there must not fail."""
    for kind in ("imp", "batch", "finite"):
        cfg = cfg_(kind, n=2, warm=True, m=3 if kind == "finite" else 0)
        tr, err = record(cfg, rand_script(r, cfg, 10), 10)
        rep.traces += 1
        if err:
            rep.violate("subclass.warm." + kind, "a %s simulator with set_warm() fails at the first arrival: %s" % (kind, err), tr)


def check_law(rep, cases, what):
    """Observed frequencies against stated probabilities, judged by spec/Law.tla (fixed seed, 7 sigma)."""
    path = os.path.join(scratch(), "law_%d.json" % len(os.listdir(scratch())))
    with open(path, "w") as fh:
        json.dump([dict({"round": 1}, **c) for c in cases], fh)
    res = tlc("Law", "SPECIFICATION Spec\nINVARIANT Done\n", env={"CASES": path}, workers=1)
    out = {x["k"]: x["ok"] for x in res.lines("LAW")}
    if not res.ok or len(out) != len(cases):
        raise CheckError("law check did not finish\n" + res.out[-2000:])
    rep.states += res.distinct
    rep.transitions += res.generated
    for k, c in enumerate(cases):
        if not out[k + 1]:
            rep.violate("law:%s:%d" % (what, k), "%s frequencies %s do not follow the stated probabilities %s/1000 (N=%d)" %
                        (what, c["cnt"], c["num"], c["n"]), c)
