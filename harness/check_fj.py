"""Properties F01..F03 against spec/FJ.tla and M01 against spec/Flow.tla."""
import copy
from collections import Counter
from common import *
from fjrec import *
from qsrec import SCALES
from judge import judge, dedup

CORE = {"now", "arrs", "lines", "busy", "pend", "crash"}
ALL = CORE | {"counts", "insys", "subs", "free", "v", "p", "getp", "draws", "run"}
CHECKS = {"F01": (["fj", "purge"], ALL), "F02": (["sj"], ALL), "F03": (["dfj", "dsj"], ALL)}
TEXT = {"lines": "the waiting subtasks differ", "busy": "subtasks in service / completion times differ", "now": "clock differs",
        "arrs": "next arrival differs", "pend": "subtasks still to come (or their times) differ", "counts": "arrived/served counters differ",
        "insys": "tasks in system differ", "subs": "subtask counter differs", "free": "free channel count differs",
        "v": "sojourn moments differ", "p": "state-time tallies differ", "getp": "get_p() differs from the time fractions",
        "draws": "number of samples drawn differs", "crash": "the simulator raised an exception", "run": "run() ends in a different state"}


def mc_cfgs(pid):
    C = lambda kind, n, k, purge=False: dict(kind=kind, n=n, k=k, purge=purge)
    T = THOROUGH
    if pid == "F01":
        return [C("fj", n, k, p) for n in (1, 2) for k in range(1, n + 1) for p in (False, True)] + [C("fj", 3, k, p) for k in (1, 2, 3) for p in (False, True)][: 6 if T else 0], 4 if T else 3
    if pid == "F02":
        return [C("sj", n, n) for n in (1, 2, 3)] + [C("sj", 2, 1), C("sj", 3, 2)], 4 if T else 3
    return [C("dfj", 1, 2), C("dfj", 2, 1), C("dfj", 2, 2), C("dsj", 2, 2), C("dsj", 3, 2), C("dsj", 1, 1)] + ([C("dfj", 2, 3), C("dsj", 3, 3)] if T else []), 4 if T else 3


def rec(cfg, script, steps, fam, **kw):
    tr, err = record(cfg, script, steps, **kw)
    tr["meta"] = {"fam": fam, "err": err, "delta": cfg["delta"], "dist": cfg["dist"], "scale": cfg.get("scale", 1.0)}
    return tr


def corrupt(tr, r):
    t = copy.deepcopy(tr)
    k = r.randrange(len(t["steps"]) // 3, len(t["steps"]))
    o = t["steps"][k]["o"]
    f = r.choice(["now", "v", "p", "insys", "served", "busy", "arr", "subs", "lines"])
    if f in ("now", "insys", "served", "arr", "subs"):
        o[f] += 1
    elif f == "v":
        o[f][r.randrange(3)] += 1
    elif f == "p":
        o["p"] = [(o["p"] or [0])[0] + 1] + o["p"][1:]
    elif f == "busy":
        o["busy"] = o["busy"] + [[1, 9999, o["now"] + 1]]
    else:
        o["lines"][0] = o["lines"][0] + [9999]
    t["meta"] = {"fam": "control:" + f, "err": None}
    return t


def run_traces(r, count):
    out = []
    for i in range(count):
        fam = ("fj", "sj", "purge", "dfj", "dsj")[i % 5]
        c = rand_cfg(r, fam)
        c["scale"] = r.choice(SCALES)
        tr, err = record_run(c, rand_script(r, c, 60), r.randint(1, 20), 1 if i % 4 else 0)
        tr["meta"] = {"fam": "run-" + fam, "err": err}
        out.append(tr)
    for i in range(count // 3):
        fam = ("fj", "sj", "purge", "dfj", "dsj")[i % 5]
        c = rand_cfg(r, fam)
        mode = i % 3 > 0
        total = r.choice([60, 100]) if mode else 300
        tr, err = record_run(c, rand_script(r, c, 400), total, int(mode), first=total // r.choice([2, 3]) + r.randint(-9, 9), limit=2000)
        tr["meta"] = {"fam": "run-" + fam, "err": err}
        out.append(tr)
    return out


def extra_q03(rep, r):
    traces = run_traces(r, 60 if THOROUGH else 15)
    judge(rep, traces, validate, {"now", "arrs", "crash", "run", "pend"}, TEXT, famof=lambda t: t["cfg"]["kind"])


def main(pid):
    if pid == "M01":
        return main_flow(pid)
    rep = Report(pid)
    fams, clauses = CHECKS[pid]
    r = rng(pid)
    cs, A = mc_cfgs(pid)
    f = bg(run_mc, "FJMC", dict(Cfgs=tlaset(cs), V={1, 3}, A=A, Emit=True), ["Invariant", "EmitOK"], ["StepOK"], workers=4)
    traces = []
    per = (400 if THOROUGH else 90) // len(fams)
    for fam in fams:
        for i in range(per):
            c = rand_cfg(r, fam)
            c["scale"] = r.choice(SCALES)
            traces.append(rec(c, rand_script(r, c, 70), 70, fam))
        for i in range(20 if THOROUGH else 4):
            c = rand_cfg(r, fam)
            c["scale"] = r.choice(SCALES)
            traces.append(rec(c, deep_script(r, c, 220), 220, fam))
        for i in range(4 if THOROUGH else 1):      # long histories
            c = rand_cfg(r, fam)
            c["scale"] = r.choice(SCALES[:5])
            traces.append(rec(c, rand_script(r, c, 900, load=0.6), 900, fam))
        for i in range(8 if THOROUGH else 2):
            c = rand_cfg(r, fam)
            c["scale"] = r.choice(SCALES[:5])
            traces.append(rec(c, surge_script(r, c, 700), 700, fam))
    traces += [t for t in run_traces(r, 75 if THOROUGH else 25) if t["meta"]["fam"][4:] in fams]
    mc = f.result()
    rep.add_mc(mc, "FJMC %s: %d configurations, durations {1,3}, %d arrivals" % (pid, len(cs), A))
    emits = dedup(mc.lines("EMIT"))
    rep.cov["spec_behaviours_emitted"] = len(emits)
    r.shuffle(emits)
    for e in emits[:(2500 if THOROUGH else 150)]:
        c = dict(e["cfg"], delta=1, dist=True)
        if c["kind"] in ("dfj", "dsj") and c["k"] > 1:
            h = dict(e["h"], **{"del": e["h"]["del"]})
        else:
            h = dict(e["h"], **{"del": []})
            c["dist"] = False
        traces.append(rec(c, h, 4 * len(h["arr"]) + 4, "emit", final=False))
    good = [t for t in traces if not t["meta"]["err"] and len(t["steps"]) > 20]
    controls = [corrupt(r.choice(good), r) for _ in range(12)] if good else []
    judge(rep, traces, validate, clauses, TEXT, controls,
          lambda t: t["cfg"]["kind"] + ("-purge" if t["cfg"]["purge"] else ""))
    rep.samples = [{"cfg": t["cfg"], "first_steps": [{"now": e["o"]["now"], "lines": e["o"]["lines"], "busy": e["o"]["busy"]}
                                                       for e in t["steps"][:4]]} for t in traces[-2:]]
    rep.assumptions = ["integer durations injected through notation 'D' and, for random delays, through the gamma sampler",
                       "no finite buffer (its meaning for tasks of several subtasks is not defined by the code or its documentation)"]
    return rep.finish()


# ------------------------------------------------------------------ flows
def flow_case(r, distr, n, N, K, static=False):
    """One fold of n flows through FlowSumSim with scripted intervals."""
    import most_queue.sim.flow_sum_sim as fs
    scripted.install()
    cls = {"Gamma": rd.Gamma, "H": rd.H2_dist, "E": rd.Erlang_dist, "Pa": rd.Pareto_dist}[distr]
    fit = {"Gamma": rd.Gamma.get_mu_alpha, "H": rd.H2_dist.get_params, "E": rd.Erlang_dist.get_params,
           "Pa": rd.Pareto_dist.get_a_k}[distr]
    mom = {"Gamma": lambda i: [2.0 + i, (2.0 + i) ** 2 * 1.5, (2.0 + i) ** 3 * 3, 40.0 * (i + 2) ** 4],
           "H": lambda i: rd.H2_dist.calc_theory_moments(0.3, 0.5 + i, 2.0 + i, 4),
           "E": lambda i: rd.Erlang_dist.calc_theory_moments(2 + i, 1.0, 4),
           "Pa": lambda i: rd.Pareto_dist.calc_theory_moments(6.0 + i, 1.0 + i, 4)}[distr]
    a = [list(mom(i)) for i in range(n)]
    flat = lambda p: tuple(round(float(x), 9) for x in p)
    known, used = {}, set()
    for i in range(n):
        known.setdefault(flat(fit(a[i])), []).append(i + 1)
    iv = {i: [r.randint(1, 7) for _ in range(N + 3)] for i in range(1, 2 * n)}
    stages, cur = [], {"drawn": [], "names": {}}
    created = []
    o_init, o_gen = cls.__init__, cls.generate

    def init(self, params, *b, **k):
        o_init(self, params, *b, **k)
        key = flat(params)
        # two flows may have the same fit (Erlang orders are rounded): then the one not folded in yet is meant
        cand = known.get(key, [99])
        free = [x for x in cand if x not in used and x not in [o._flow for o in created]]
        self._flow = (free or cand)[0]
        self._pos = 0
        created.append(self)

    def gen(self, *b, **k):
        q = iv.get(self._flow, [1] * (N + 3))
        x = q[self._pos] if self._pos < len(q) else 1
        self._pos += 1
        return float(x)

    def wrap(orig):
        def f(*b, **k):
            if static:
                k.setdefault("num_of_sim", N)
                k.setdefault("num_of_moments", K)
            created.clear()
            res = orig(*b, **k)
            fl = [o._flow for o in created if o._pos > 0]
            x, y = (fl + [99, 99])[:2] if len(fl) <= 2 else (99, 99)
            new = n + len(stages) + 1
            used.update((x, y))
            if K >= 2:
                try:
                    known.setdefault(flat(fit(res)), []).append(new)
                except Exception:  # noqa: unusable moments; the next stage will be unknown
                    pass
            stages.append({"a": x, "b": y, "s1": iv.get(x, [1]), "s2": iv.get(y, [1]), "N": N, "K": K,
                           "sums": [as_int(v * N) for v in list(res)[:K]] + [-1] * (K - len(list(res)[:K]))})
            results.append(list(res))
            return res
        return f
    names = {"Gamma": "sum_2_Gamma_flows", "H": "sum_2_H2_flows", "E": "sum_2_Erlang_flows", "Pa": "sum_2_Pa_flows"}
    nm = names[distr]
    o_sum = getattr(fs.FlowSumSim, nm)
    results, err, ok = [], "", 1
    cls.__init__, cls.generate = init, gen
    setattr(fs.FlowSumSim, nm, staticmethod(wrap(o_sum)))
    try:
        with quiet(), time_limit(60):
            if static:
                res = fs.FlowSumSim.sum_n_flows(copy.deepcopy(a), distr, False)
            else:
                sim = fs.FlowSumSim(copy.deepcopy(a), distr, False, K, N)
                sim.sum_flows()
                res = sim.result_flow
                same = lambda u, v: len(u) == len(v) and all(abs(x - y) < 1e-9 * max(1, abs(x)) for x, y in zip(u, v))
                ok = int(len(sim.flows_) == n - 1 and all(same(list(u), v) for u, v in zip(sim.flows_, results))
                         and same(sim.a1_sum, [v[0] for v in results]) and same(sim.a2_sum, [v[1] for v in results])
                         and same(sim.coevs, [((v[1] - v[0] ** 2) ** 0.5) / v[0] for v in results]))
            if n > 1 and list(res) != results[-1]:
                ok = 0
    except Exception as e:  # noqa
        err = "%s: %s" % (type(e).__name__, e)
    finally:
        cls.__init__, cls.generate = o_init, o_gen
        setattr(fs.FlowSumSim, nm, staticmethod(o_sum))
    return {"n": n, "stages": stages, "err": err, "resultok": ok}


def validate_flows(cases):
    path = os.path.join(scratch(), "flow_%d.json" % len(os.listdir(scratch())))
    with open(path, "w") as fh:
        json.dump([{k: v for k, v in c.items() if k not in ("meta", "cfg", "steps")} for c in cases], fh)
    r = tlc("FlowTrace", "SPECIFICATION Spec\nINVARIANT Done\n", env={"TRACES": path}, workers=6)
    v = {x["tr"]: x for x in r.lines("VERDICT")}
    if not r.ok or len(v) != len(cases):
        raise CheckError("flow validation did not finish\n" + "\n".join(r.out.splitlines()[-40:]))
    return [v[i + 1] for i in range(len(cases))], r


def main_flow(pid):
    rep = Report(pid)
    r = rng(pid)
    f = bg(run_mc, "FlowMC", dict(V={1, 2, 3}, L=4 if THOROUGH else 3, N=4, K=3), ["Invariant"], [], workers=4)
    cases = []
    for t in range(120 if THOROUGH else 30):
        for distr in ("Gamma", "H", "E", "Pa"):
            n = r.choice([2, 2, 3, 4, 5, 6])
            static = t % 4 == 3 and distr != "Pa"
            N = r.choice([1, 2, 5, 40, 60])
            if n > 2:
                N = 60      # later stages fit a distribution to the merged moments
                if distr == "H" and static:
                    n = 2   # merged flows may all fail the H2 fit and become indistinguishable
            K = r.choice([3, 4]) if n > 2 else r.choice([2, 3, 4])
            if static:
                K = 4
            c = flow_case(r, distr, n, N, K, static)
            if c["err"] and n == 2 and N <= 2:
                # the coefficient of variation of one or two intervals may be undefined
                c["err"] = "" if "math domain" in c["err"] or "division" in c["err"] else c["err"]
                if not c["err"]:
                    c["resultok"] = 1
                    if not c["stages"]:
                        continue
            c["meta"] = {"fam": distr, "err": c["err"]}
            c["cfg"] = {"distr": distr, "n": n, "N": N, "K": K, "static": static}
            c["steps"] = c["stages"] or [{}]
            cases.append(c)
    controls = []
    for i in range(8):
        c = copy.deepcopy(r.choice([x for x in cases if x["stages"] and not x["err"]] or cases))
        if not c["stages"]:
            continue
        s = r.choice(c["stages"])
        if i % 2:
            s["sums"][r.randrange(len(s["sums"]))] += 1
        else:
            s["b"] = s["a"]
        c["meta"] = {"fam": "control", "err": None}
        controls.append(c)
    rep.add_mc(f.result(), "FlowMC: all pairs of interval sequences over {1,2,3}, all tie orders")
    judge(rep, cases, validate_flows, {"moments", "fold", "crash", "result"},
          {"moments": "the reported moments are not those of the merged epochs", "fold": "a flow is not folded in exactly once",
           "result": "the reported result is not the last sum", "crash": "flow summation raised an exception"}, controls)
    rep.samples = [{k: c[k] for k in ("n", "stages", "cfg")} for c in cases[:2]]
    rep.assumptions = ["integer intervals injected at the distribution objects the simulator builds from the given moments"]
    return rep.finish()
