"""Distribution properties D01-D05: samplers, curves, fits, convolution."""
import contextlib, copy, hashlib, io
from judge import judge
from check_theory import *

R = None


def lib():
    global R
    if R is None:
        import most_queue.rand_distribution as rd
        R = rd
    return R


def weibull(rep=None):
    """The Weibull class; its module does not find the package's distributions by itself (known finding)."""
    try:
        from most_queue.theory.utils.weibull import Weibull
    except ModuleNotFoundError as e:
        if rep is not None:
            rep.violate("weibull.import." + str(e.name), "importing most_queue.theory.utils.weibull fails: %s" % e, {})
        sys.modules[e.name] = lib()
        try:
            from most_queue.theory.utils.weibull import Weibull
        finally:
            del sys.modules[e.name]
    return Weibull


KINDS = ["M", "H", "E", "C", "Gamma", "Pa", "Uniform", "Norm", "D"]
CLS = {"M": "Exp_dist", "H": "H2_dist", "E": "Erlang_dist", "C": "Cox_dist", "Gamma": "Gamma", "Pa": "Pareto_dist",
       "Uniform": "Uniform_dist", "Norm": "Normal_dist", "D": "Det_dist"}


def spread(p):
    return list(p) if isinstance(p, (list, tuple)) else [p]


def rand_params(r, kind):
    mean = logu(r, 0.02, 50)
    p = law_params(r, kind, mean)
    if kind == "E":
        k = r.choice([1, 2, 3, 5, 9])
        p = [k, k / mean]
    if kind == "Gamma" and r.random() < 0.4:
        a = r.choice([1, 2, 3, 5])
        p = [a / mean, a]
    return p


# ---------------------------------------------------------------- reference laws
class Ref:
    """A law: stages enumerated by TLC where it has stages, its definition otherwise."""

    def __init__(self, kind, p, ch=None):
        self.kind, self.p = kind, p
        self.dur = None
        if ch is not None:
            self.dur = Duration(ch, shape_of(kind, p)[1])
            self.w, self.V = np.linalg.eig(self.dur.T)

    def cdf(self, t):
        k, p = self.kind, self.p
        if k == "Norm":
            return 0.5 * math.erfc(-(t - p[0]) / p[1] / math.sqrt(2))
        if k == "D":
            return float(t >= p)
        if k == "W":
            return -math.expm1(-t ** p[0] / p[1]) if t > 0 else 0.0
        if k == "Uniform":
            return min(1.0, max(0.0, (t - p[0] + p[1]) / (2 * p[1])))
        if k == "Pa":
            return 0.0 if t <= p[1] else 1 - (p[1] / t) ** p[0]
        if t <= 0:
            return 0.0
        if self.dur is not None:
            return self.dur.cdf(t)
        from scipy import special
        a, mu = (p[0], p[1]) if k == "E" else (p[1], p[0])
        return float(special.gammainc(a, mu * t))

    def quantile(self, q):
        k, p = self.kind, self.p
        if k == "Uniform":
            return p[0] + p[1] * (2 * q - 1)
        if k == "Pa":
            return p[1] * (1 - q) ** (-1 / p[0])
        if k == "W":
            return (-p[1] * math.log1p(-q)) ** (1 / p[0])
        lo, hi = (p[0] - 20 * p[1], p[0] + 20 * p[1]) if k == "Norm" else (0.0, 1.0)
        while self.cdf(hi) < q:
            hi *= 2
        from scipy.optimize import brentq
        return brentq(lambda t: self.cdf(t) - q, lo, hi, xtol=1e-13 * hi, rtol=1e-13)


def shape_of(kind, p):
    """Phase-type shape and chain parameters of a law, or None."""
    if kind == "Gamma":
        return (erl_ph(int(p[1]), "m"), {"m": p[0]}) if float(p[1]).is_integer() and p[1] <= 12 else None
    if kind == "E" and p[0] > 60:
        return None         # too many stages to enumerate: the Gamma law of whole order
    return law_shape(kind, p, "y", "m")


def refs(rep, laws):
    sh = [shape_of(k, p) for k, p in laws]
    at = [i for i, x in enumerate(sh) if x]
    chs = stages(rep, [([sh[i][0]], "seq", 1) for i in at]) if at else []
    by = dict(zip(at, chs))
    return [Ref(k, p, by.get(i)) for i, (k, p) in enumerate(laws)]


# ---------------------------------------------------------------- D01
def digest(x):
    return hashlib.sha1(repr(x).encode()).hexdigest()


def gen_state(g):
    import numpy as np
    if g is None:
        s = np.random.get_state()
        return digest((s[0], s[1].tobytes(), s[2], s[3], s[4]))
    return digest(repr(g.bit_generator.state))


def one_draw(kind, p, how, g):
    """One value of a law through one of the library's ways of sampling."""
    from most_queue.sim.utils.distribution_utils import create_distribution
    c = getattr(lib(), CLS[kind])
    if how == "factory":
        return create_distribution(p, kind, g).generate()
    if kind == "D":
        return c(p).generate() if how == "object" else c.generate_static(p)
    if how == "object":
        return (c(p, g) if g is not None else c(p)).generate()
    return c.generate_static(*spread(p), g) if g is not None else c.generate_static(*spread(p))


def sim_run(kind, cfg, g):
    """A short run of a simulator whose generator is g: everything random in it comes from g."""
    from most_queue.sim.qs_sim import QueueingSystemSimulator
    from most_queue.sim.impatient_queue_sim import ImpatientQueueSim
    from most_queue.sim.queue_finite_source_sim import QueueingFiniteSourceSim
    from most_queue.sim.priority_queue_sim import PriorityQueueSimulator
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        if kind == "prio":
            q = PriorityQueueSimulator(cfg["n"], 2, cfg["pol"])
            q.generator = g
            q.set_sources([{"type": t, "params": p} for t, p in cfg["arr"]])
            q.set_servers([{"type": t, "params": p} for t, p in cfg["svc"]])
        else:
            if kind == "imp":
                q = ImpatientQueueSim(cfg["n"], verbose=False)
            elif kind == "fin":
                q = QueueingFiniteSourceSim(cfg["n"], 4, verbose=False)
            else:
                q = QueueingSystemSimulator(cfg["n"], verbose=False)
            q.generator = g
            q.set_sources(cfg["arr"][0][1], cfg["arr"][0][0])
            q.set_servers(cfg["svc"][0][1], cfg["svc"][0][0])
            if kind == "imp":
                q.set_impatiens(cfg["svc"][1][1], cfg["svc"][1][0])
            if kind == "vac":
                q.set_warm(cfg["svc"][1][1], cfg["svc"][1][0])
                q.set_cold(cfg["arr"][1][1], cfg["arr"][1][0])
        q.run(120)
        return [q.ttek, q.v, q.w, q.get_p() if kind != "prio" else q.p]


def histories(r, count):
    """Recorded histories of draws over the shared generator and a few private ones."""
    import numpy as np
    cases = []
    for t in range(count):
        laws = [(k, rand_params(r, k)) for k in r.sample(KINDS, 5)] + [(k, rand_params(r, k)) for k in KINDS if t % 3 == 0][:4]
        sims = []
        if t % 4 == 0:
            kind = ["qs", "vac", "imp", "fin", "prio"][(t // 4) % 5]
            m = logu(r, 0.1, 10)
            pick = lambda mean: (lambda k: (k, law_params(r, k, mean)))(r.choice(["M", "H", "E", "C", "Gamma", "Uniform", "Pa"]))
            sims = [(kind, {"n": r.choice([1, 2]), "pol": r.choice(["PR", "NP", "RS", "RW"]), "arr": [pick(m * 2), pick(m * 2)], "svc": [pick(m), pick(m)]})]
        seeds = [r.randrange(10 ** 6) for _ in range(2)]
        n = 3
        gens = [None] + [np.random.default_rng(seeds[i % 2]) for i in range(n)]
        np.random.seed(seeds[0])
        ids = {}
        num = lambda d: ids.setdefault(d, len(ids) + 1)
        snap = lambda: [num("g" + gen_state(g)) for g in gens]
        case = {"init": snap(), "draws": [], "err": "", "meta": {"fam": "draws", "err": None}, "cfg": {"laws": laws, "sims": sims, "seeds": seeds}}
        for k, p in laws:
            if k == "D":
                num("v" + digest(p))
        try:
            for _ in range(60):
                x = r.random()
                gi = r.randrange(n + 1)
                if x < 0.06:
                    # a generator begins anew from a known seed
                    if gens[gi] is None:
                        np.random.seed(r.choice(seeds))
                    else:
                        gens[gi] = np.random.default_rng(r.choice(seeds))
                    case["draws"].append({"op": "reseed", "g": gi + 1, "law": 0, "val": 0, "const": 0, "after": snap(), "what": "reseed"})
                    continue
                if sims and x < 0.14 and gens[gi] is not None:
                    kind, cfg = sims[0]
                    val = sim_run(kind, cfg, gens[gi])
                    case["draws"].append({"op": "draw", "g": gi + 1, "law": num("s" + kind), "val": num("v" + digest(val)), "const": 0,
                                          "after": snap(), "what": "run:" + kind})
                    continue
                k, p = r.choice(laws)
                how = r.choice(["factory", "object", "static"])
                val = one_draw(k, p, how, gens[gi])
                if k == "D":
                    law = num("v" + digest(p))
                    v = num("v" + digest(val))
                else:
                    law, v = num("l" + digest((k, p))), num("v" + digest(float(val)))
                case["draws"].append({"op": "draw", "g": gi + 1, "law": law, "val": v, "const": int(k == "D"), "after": snap(), "what": k + ":" + how})
        except Exception as e:  # noqa
            case["err"] = "%s: %s" % (type(e).__name__, e)
            case["meta"]["err"] = case["err"]
        cases.append(case)
    return cases


def validate_draws(cases):
    path = os.path.join(scratch(), "draws_%d.json" % len(os.listdir(scratch())))
    with open(path, "w") as fh:
        json.dump([{k: c[k] for k in ("init", "draws", "err")} for c in cases], fh)
    res = tlc("SamplerTrace", "SPECIFICATION Spec\nINVARIANT Done\n", env={"TRACES": path}, workers=6)
    v = {x["tr"]: x for x in res.lines("VERDICT")}
    if not res.ok or len(v) != len(cases):
        raise CheckError("validation of draws did not finish\n" + res.out[-2000:])
    return [v[i + 1] for i in range(len(cases))], res


EDGES = [1, 10, 50, 100, 150, 200, 250, 300, 350, 400, 450, 500, 550, 600, 650, 700, 750, 800, 850, 900, 950, 990, 999]


def law_cases(rep, r, per_kind, n):
    import numpy as np
    laws = [(k, rand_params(r, k)) for k in KINDS if k != "D" for _ in range(per_kind)]
    # laws at the edge of their families
    m = logu(r, 0.1, 10)
    laws += [("H", [0.999, 1 / m, 0.01 / m]), ("H", [0.0, 3 / m, 1 / m]), ("C", [1.0, 2 / m, 2 / m]), ("C", [0.0, 1 / m, 5 / m]),
             ("E", [1, 1 / m]), ("E", [25, 25 / m]), ("E", [200, 200 / m]), ("E", [900, 900 / m]), ("Gamma", [0.2 / m, 0.2]), ("Pa", [1.05, m])]
    cases, about = [], []
    many = n
    for i, ((k, p), ref) in enumerate(zip(laws, refs(rep, laws))):
        n = many if k != "E" or p[0] < 100 else many // 10
        cut = [ref.quantile(q / 1000) for q in EDGES]
        how = ["factory", "object", "static"][i % 3]
        g = np.random.default_rng(7000 + 13 * i + SEED) if i % 4 else None
        np.random.seed(4000 + i + SEED)
        from most_queue.sim.utils.distribution_utils import create_distribution
        try:
            with time_limit(120):
                if how == "static":
                    f = getattr(lib(), CLS[k]).generate_static
                    a = spread(p) + ([g] if g is not None else [])
                    xs = np.array([f(*a) for _ in range(n)])
                else:
                    o = create_distribution(p, k, g) if how == "factory" else getattr(lib(), CLS[k])(p, g)
                    xs = np.array([o.generate() for _ in range(n)])
        except Exception as e:
            rep.violate("law.%s.crash" % k, "sampling %s %s raised %s: %s" % (k, p, type(e).__name__, e), {"law": [k, p]})
            continue
        cell = np.searchsorted(cut, xs)
        fine = np.bincount(cell, minlength=len(EDGES) + 1)
        full = EDGES + [1000]
        num = [b - a for a, b in zip([0] + full, full)]
        lab = {"law": [k, p], "how": how, "own generator": g is not None}
        cases.append({"n": n, "num": num, "cnt": [int(x) for x in fine], "total": int(fine.sum()), "round": 0})
        about.append(("bins", lab))
        # coarse: accumulated frequencies at every edge are judged as two categories
        acc = np.cumsum(fine)
        for j in (3, 6, 11, 16, 19):
            cases.append({"n": n, "num": [EDGES[j], 1000 - EDGES[j]], "cnt": [int(acc[j]), int(n - acc[j])], "total": n, "round": 0})
            about.append(("distribution function", dict(lab, edge=EDGES[j])))
        # consecutive draws are independent
        five = np.searchsorted([ref.quantile(x) for x in (.2, .4, .6, .8)], xs)
        for lag in (1, 2):
            m2 = (n - lag) // (2 * lag) * lag
            a, b = [], []
            for s in range(0, n - 2 * lag + 1, 2 * lag):
                a.append(five[s:s + lag]), b.append(five[s + lag:s + 2 * lag])
            a, b = np.concatenate(a), np.concatenate(b)
            z = np.bincount(a * 5 + b, minlength=25)
            cases.append({"n": len(a), "num": [40] * 25, "cnt": [int(x) for x in z], "total": int(z.sum()), "round": 0})
            about.append(("pairs at distance %d" % lag, lab))
    return cases, about


def judge_law(rep, cases, about):
    path = os.path.join(scratch(), "law_%d.json" % len(os.listdir(scratch())))
    with open(path, "w") as fh:
        json.dump(cases, fh)
    res = tlc("Law", "SPECIFICATION Spec\nINVARIANT Done\n", env={"CASES": path}, workers=6)
    out = {x["k"]: x["ok"] for x in res.lines("LAW")}
    if not res.ok or len(out) != len(cases):
        raise CheckError("law check did not finish\n" + res.out[-2000:])
    rep.states += res.distinct
    rep.transitions += res.generated
    for i, c in enumerate(cases):
        what, lab = about[i]
        if lab is None:
            if out[i + 1]:
                raise CheckError("law control accepted: %s" % what)
            rep.cov["negative_controls_rejected"] = rep.cov.get("negative_controls_rejected", 0) + 1
        elif not out[i + 1]:
            rep.violate("law.%s.%s" % (lab["law"][0], what), "samples of %s do not follow the law (%s): counts %s of %d, expected per mille %s" %
                        (lab, what, c["cnt"], c["n"], c["num"]), {"about": lab, "case": c})


def d01(pid):
    rep = Report(pid)
    r = rng(pid)
    f = bg(run_mc, "SamplerMC", dict(Gens={1, 2, 3}, Laws={1, 2, 9} if THOROUGH else {1, 9}, Consts={9}, Vals={0, 1}, Len0=2), ["Invariant"], [], workers=4)
    cases = histories(r, 400 if THOROUGH else 80)
    controls = []
    for i in range(10):
        c = copy.deepcopy(r.choice([x for x in cases if not x["err"]] or cases))
        ks = [j for j, d in enumerate(c["draws"]) if d["op"] == "draw" and (i % 5 != 2 or d["const"])]
        if not ks:
            continue
        k = r.choice(ks)
        d = c["draws"][k]
        if i % 5 == 0:
            h = r.choice([x for x in range(4) if x != d["g"] - 1])
            d["after"] = [x + (900 if j == h else 0) for j, x in enumerate(d["after"])]
        elif i % 5 == 1 or i % 5 == 2:
            d["after"] = [x + (900 if j == d["g"] - 1 else 0) for j, x in enumerate(d["after"])]
            if not d["const"]:
                prev = c["draws"][k - 1]["after"] if k else c["init"]
                d["after"][d["g"] - 1] = prev[d["g"] - 1]
        else:
            # the same law from the same state must give the same value
            prev = c["draws"][k - 1]["after"] if k else c["init"]
            e = dict(d, val=d["val"] + 900)
            c["draws"].insert(k + 1, {"op": "reseed", "g": d["g"], "law": 0, "val": 0, "const": 0, "after": list(prev), "what": "reseed"})
            c["draws"].insert(k + 2, e)
            c["draws"] = c["draws"][:k + 3]
        c["meta"] = {"fam": "control", "err": None}
        controls.append(c)
    # every law: the fine bins, the distribution function, independence
    n = 300000 if THOROUGH else 40000
    lc, about = law_cases(rep, r, 12 if THOROUGH else 3, n)
    if lc:
        base = lc[0]
        bad = dict(base, cnt=[x + (0 if j not in (5, 6) else (n // 55 if j == 5 else -(n // 55))) for j, x in enumerate(base["cnt"])])
        lc.append(bad), about.append(("moved mass", None))
        lc.append(dict(base, total=base["total"] - 1)), about.append(("lost draw", None))
    rep.add_mc(f.result(), "SamplerMC: all histories of two draws per generator over three generators, all sampling functions")
    for c in cases + controls:
        c["steps"] = c["draws"]
    judge(rep, cases, validate_draws, {"isolation", "reproducible", "own", "constant", "crash", "reseed"},
          {"isolation": "a draw moved a generator other than the one given", "own": "a draw did not use the generator given",
           "reproducible": "the same law drawn from the same generator state gave another value or left another state",
           "constant": "a constant law drew randomness or another value", "crash": "sampling raised an exception"}, controls,
          famof=lambda t: t["meta"]["fam"])
    judge_law(rep, lc, about)
    rep.cov["laws_sampled"] = len({short(a[1]["law"]) for a in about if a[1]})
    rep.cov["draws_binned"] = sum(c["n"] for c, a in zip(lc, about) if a[0] == "bins")
    rep.samples = [{"cfg": c["cfg"], "first draws": [d["what"] for d in c["draws"][:8]]} for c in cases[:2]]
    rep.assumptions = ["generator states and values are identified by content hashes",
                       "sampling laws are judged on finite samples with fixed seeds (7 standard deviations per category)",
                       "quantiles of the reference laws come from the enumerated stages (scipy expm) or from the law's definition"]
    return rep.finish()


# ---------------------------------------------------------------- D02
def curves(kind, p):
    """(cdf, tail, pdf or None) of the library for this law, or None when it has no curves."""
    c = getattr(lib(), CLS[kind]) if kind != "W" else None
    if kind in ("H", "E"):
        return (lambda t: c.get_cdf(p, t)), (lambda t: c.get_tail(p, t)), (lambda t: c.get_pdf(p, t)) if kind == "H" else None
    if kind == "Pa":
        return (lambda t: c.get_cdf(p, t)), (lambda t: c.get_tail(p, t)), (lambda t: c.get_pdf(t, *p))
    if kind == "Uniform":
        return (lambda t: c.get_cdf(*p, t)), (lambda t: c.get_tail(*p, t)), (lambda t: c.get_pdf(*p, t))
    if kind == "Gamma":
        return (lambda t: c.get_cdf(*p, t)), None, (lambda t: c.get_pdf(*p, t))
    if kind == "W":
        W = weibull()
        return (lambda t: W.get_cdf(p, [t])[0]), (lambda t: W.get_tail(p, [t])[0]), None
    return None


def curve_case(rep, kind, p, ref, mean):
    """Points of the axis for Curve.tla; None when the library raised."""
    S = 1000000
    F, T, f = curves(kind, p)
    if kind == "Uniform":
        a, b = p[0] - p[1], p[0] + p[1]
        end, lo = b + p[1] * 0.1, a
    elif kind == "Pa":
        lo, end = p[1], p[1] * 0.02 ** (-1 / p[0])
    elif kind == "W":
        lo, end = 0.0, (p[1] * 14) ** (1 / p[0])
    else:
        lo, end = 0.0, ref.quantile(1 - 1e-5)
    unit = end / 1500.0
    # whole time units, dense near the start of the support
    L = int(math.floor(lo / unit))
    pts = sorted({-3, -1} | ({L} if lo > 0 else {0}) | {L + k for k in (1, 2, 3, 4, 6, 8, 12, 16, 24)} | {int(L + (1500 - L) * k / 160.0) for k in range(1, 161)} | {1500})
    if kind == "W":
        pts = [x for x in pts if x >= 0]
    peak = {"Gamma": (p[1] - 1) / p[0] if kind == "Gamma" else 0}.get(kind, 0.0)
    rows = []
    for j, x in enumerate(pts):
        t = x * unit
        nxt = pts[j + 1] * unit if j + 1 < len(pts) else t
        d = "any"
        if f is not None and (t > lo + 1e-12 * unit or (kind == "H" and t >= lo)):
            if kind in ("H", "Pa"):
                d = "down"
            elif kind == "Uniform":
                d = "flat" if nxt < b - 1e-12 else "any"
            elif kind == "Gamma" and t > 0:
                d = "up" if nxt <= peak else "down" if t >= peak else "any"
        elif f is not None and nxt < lo:
            d = "flat"
        try:
            cd, tl, pd = F(t), (T(t) if T else None), (f(t) if f else 0.0)
            tl = 1 - cd if tl is None else tl
            dens = pd * unit * S
            if dens > 1e6:
                d, dens = "any", 1e6
            known = int(round(ref.cdf(t) * S)) if ref is not None else -1
            clip = lambda v: int(round(min(max(v, -1e-5), 1 + 1e-5) * S))
            rows.append({"t": x, "F": clip(cd), "T": clip(tl), "f": int(round(dens)), "dir": d, "known": known})
        except Exception as e:
            rep.violate("curve.%s.crash" % kind, "curve of %s %s at %s raised %s: %s" % (kind, p, t, type(e).__name__, e), {"law": [kind, p], "t": t})
            return None
    rest = S - int(rows[-1]["known"]) + 3 if ref is not None else 10
    over = 0
    m = -1
    if kind in ("H", "E", "Gamma", "Uniform") and mean is not None and math.isfinite(mean):
        m, over = int(round(mean / unit)), 3
        if m > 10 ** 6:
            m = 10 ** 6
    return {"S": S, "pts": rows, "tol": 3, "mean": m, "over": over, "rest": rest}


def weibull_moments(p, num):
    return [p[1] ** (i / p[0]) * math.gamma(1 + i / p[0]) for i in range(1, num + 1)]


def quad_moments(tail, lo, k, end):
    """Integral of k t^(k-1) tail(t) by composite Gauss-Legendre up to end (and t=lo start)."""
    x, w = np.polynomial.legendre.leggauss(24)
    cuts = [0.0] + ([lo] if lo > 0 else []) + [lo + (end - lo) * 2.0 ** -j for j in range(24, -1, -1)]
    s = 0.0
    for a, b in zip(cuts, cuts[1:]):
        t = (a + b) / 2 + (b - a) / 2 * x
        s += float((w * np.array([k * u ** (k - 1) * tail(u) for u in t])).sum()) * (b - a) / 2
    return s


def d02(pid):
    rep = Report(pid)
    cmp = Cmp(rep)
    r = rng(pid)
    rd = lib()
    per = 30 if THOROUGH else 7
    weibull(rep)
    laws = [(k, rand_params(r, k)) for k in KINDS if k not in ("Norm", "D") for _ in range(per)]
    m = logu(r, 0.1, 10)
    laws += [("H", [0.0, 3 / m, 1 / m]), ("H", [1.0, 3 / m, 1 / m]), ("C", [1.0, 2 / m, 2 / m]), ("C", [0.0, 1 / m, 5 / m]), ("E", [1, 1 / m]), ("E", [12, 12 / m]), ("E", [40, 40 / m]), ("E", [200, 200 / m]), ("E", [1500, 1500 / m]),
             ("Gamma", [12 / m, 12]), ("Gamma", [0.2 / m, 0.2]), ("Gamma", [55.5 / m, 55.5]), ("Gamma", [200 / m, 200.0]), ("Uniform", [m, m]), ("Pa", [0.8, m]), ("Pa", [40, m])]
    laws += [("W", [rnd(r, 0.4, 4), logu(r, 0.05, 20)]) for _ in range(per)] + [("W", [1.0, m])]
    RF = refs(rep, laws)
    cases, about = [], []
    for (k, p), ref in zip(laws, RF):
        c = getattr(rd, CLS[k]) if k != "W" else None
        ctx = {"law": k, "params": p}
        # raw moments
        if ref.dur is not None:
            exp = ref.dur.moments(5)
        elif k in ("Gamma", "E"):
            exp = LawOf("gamma", **dict(zip(("mu", "alpha"), p if k == "Gamma" else p[::-1]))).raw(5)
        elif k == "Uniform":
            exp = LawOf("uniform", mean=p[0], half=p[1]).raw(5)
        elif k == "W":
            exp = weibull_moments(p, 5)
        else:
            exp = LawOf("pareto", a=p[0], k=p[1]).raw(5)
        counts = (None,) if k == "C" else () if k == "W" else (None, 1, 2, 5)
        for num in counts:
            g = cmp.call("moments." + k, dict(ctx, num=num), c.calc_theory_moments, *(spread(p) + ([num] if num else [])))
            if g is None:
                continue
            e = exp[:num or 3]
            if len(g) != len(e):
                rep.violate("moments.%s.length" % k, "%d moments returned, %d exist and were asked for; %s" % (len(g), len(e), short(ctx)), ctx)
            elif e:
                cmp.eq("moments." + k, dict(ctx, num=num), e, g, rel=1e-9, ab=0)
        fn = curves(k, p)
        if fn is None:
            continue
        F, T, f = fn
        # values of the curves, at the origin, before it, and into both tails
        qs = [1e-6, 1e-3, .02, .1, .25, .5, .75, .9, .99, .9999] if not THOROUGH else [1e-9, 1e-6, 1e-4] + [i / 40 for i in range(1, 40)] + [.99, .999, .99999, 1 - 1e-8]
        ts = [ref.quantile(q) for q in qs]
        before = -ts[5] if k != "Uniform" else p[0] - 1.5 * p[1]
        out = ([before] if k != "W" else []) + [0.0] + ([p[1] * 0.5] if k == "Pa" else []) + ([p[0] + 1.5 * p[1]] if k == "Uniform" else [])
        for t in ts + out:
            e = ref.cdf(t)
            g = cmp.call("cdf." + k, dict(ctx, t=t), F, t)
            if g is not None:
                cmp.eq("cdf." + k, dict(ctx, t=t), e, g, rel=0, ab=1e-11)
            if T:
                g = cmp.call("tail." + k, dict(ctx, t=t), T, t)
                if g is not None:
                    cmp.eq("tail." + k, dict(ctx, t=t), 1 - e, g, rel=0, ab=1e-11)
            if f and (k != "Gamma" or t * p[0] > 1e-9 or t < 0) and not any(abs(t - x) < 1e-9 * abs(p[0]) for x in {"Pa": [p[1]], "Uniform": [p[0] - p[1], p[0] + p[1]]}.get(k, [])):
                g = cmp.call("pdf." + k, dict(ctx, t=t), f, t)
                if k == "H" or (k == "Gamma" and ref.dur is not None):
                    e = ref.dur.pdf(t) if t >= 0 else 0.0
                elif k == "Uniform":
                    e = 1 / (2 * p[1]) if p[0] - p[1] < t < p[0] + p[1] else 0.0
                elif k == "Pa":
                    e = p[0] / t * (p[1] / t) ** p[0] if t > p[1] else 0.0
                else:
                    from scipy import stats
                    e = float(stats.gamma(p[1], scale=1 / p[0]).pdf(t)) if t > 0 else 0.0
                if g is not None:
                    cmp.eq("pdf." + k, dict(ctx, t=t), e, g, rel=1e-9, ab=1e-12 / ts[5])
        if k == "Gamma":
            for s in (0.0, 0.3 * p[0], 2 * p[0], 30 * p[0]):
                g = cmp.call("pls.Gamma", dict(ctx, s=s), c.get_pls, p[0], p[1], s)
                if g is None:
                    continue
                if ref.dur is not None:
                    e = float(np.real(ref.dur.a @ np.linalg.solve(s * np.eye(len(ref.dur.a)) - ref.dur.T, ref.dur.t0)))
                else:
                    e = LawOf("gamma", mu=p[0], alpha=p[1]).lst(s) if p[1] > 0.5 else (1 + s / p[0]) ** (-p[1])
                cmp.eq("pls.Gamma", dict(ctx, s=s), e, g, rel=1e-6, ab=0 if ref.dur is not None else 1e-10)
        # the mean and second moment from the library's own tail
        if T and k != "Pa":
            end = ref.quantile(1 - 1e-13) if k != "Uniform" else p[0] + p[1]
            lo = max(p[0] - p[1], 0.0) if k == "Uniform" else ref.quantile(1e-13) if k == "E" and p[0] > 60 else 0.0
            for q in (1, 2):
                try:
                    cmp.eq("tail.%s.moment" % k, ctx, exp[q - 1], quad_moments(T, lo, q, end), rel=1e-7)
                except Exception as e:  # noqa
                    rep.violate("tail.%s.crash" % k, "integration of the tail raised %r; %s" % (e, short(ctx)), ctx)
        cc = curve_case(rep, k, p, ref, exp[0] if exp else None)
        if cc:
            cases.append(cc), about.append(ctx)
    # Gamma functions: factorials as moments of the exponential law, Erlang stages for the incomplete ones
    one = refs(rep, [("M", 1.0)])[0].dur.moments(20)
    G = rd.Gamma
    for n in range(1, 20):
        g = cmp.call("get_gamma", {"x": n + 1}, G.get_gamma, n + 1)
        if g is not None:
            cmp.eq("get_gamma", {"x": n + 1}, one[n - 1], g, rel=1e-12, ab=0)
    for _ in range(200 if THOROUGH else 40):
        x = r.choice([rnd(r, 0.01, 1), rnd(r, 1, 2), rnd(r, 2, 20), -rnd(r, 0.05, 4.95)])
        if abs(x - round(x)) < 0.02 and x <= 0:
            continue
        g = cmp.call("get_gamma", {"x": x}, G.get_gamma, x)
        if g is not None:
            cmp.eq("get_gamma", {"x": x}, math.gamma(x), g, rel=1e-10, ab=0)
        if x > 0 and abs(x - round(x)) > 0.02:
            g = cmp.call("get_minus_gamma", {"x": x}, G.get_minus_gamma, x)
            if g is not None:
                cmp.eq("get_minus_gamma", {"x": x}, math.gamma(-x), g, rel=1e-9, ab=0)
    ks = list(range(1, 8))
    for a, ref in zip(ks, refs(rep, [("E", [q, 1.0]) for q in ks])):
        for z in (0.01, 0.3, 1.0, 2.5, 6.0):
            full = math.factorial(a - 1)
            e = full * ref.cdf(z)
            for nm, want in (("get_gamma_small", e), ("get_gamma_incomplete", full - e)):
                g = cmp.call(nm, {"x": a, "z": z}, getattr(G, nm), a, z)
                if g is not None:
                    cmp.eq(nm, {"x": a, "z": z}, want, g, rel=1e-8, ab=1e-10 * full)
    from scipy import special
    for _ in range(30 if THOROUGH else 10):
        a, z = rnd(r, 0.2, 8), logu(r, 0.02, 7)
        for nm, want in (("get_gamma_small", special.gammainc(a, z)), ("get_gamma_incomplete", special.gammaincc(a, z))):
            g = cmp.call(nm, {"x": a, "z": z}, getattr(G, nm), a, z)
            if g is not None:
                cmp.eq(nm, {"x": a, "z": z}, float(want) * math.gamma(a), g, rel=1e-7, ab=1e-9 * math.gamma(a))
    # upper incomplete function left of zero, where only the complete one has poles
    from scipy.integrate import quad
    for x in [0, -1, -2, -5, -1 + 1e-7, -3 - 2e-6] + [-rnd(r, 0.01, 8) for _ in range(20 if THOROUGH else 8)]:
        for z in (logu(r, 0.01, 1), logu(r, 1, 12)):
            want = quad(lambda u: math.exp(x * u - math.exp(u)), math.log(z), 6, epsabs=0, epsrel=1e-13, limit=500)[0]
            g = cmp.call("get_gamma_incomplete", {"x": x, "z": z}, G.get_gamma_incomplete, x, z)
            if g is not None:
                cmp.eq("get_gamma_incomplete", {"x": x, "z": z}, want, g, rel=1e-8, ab=0)
    # controls of the comparisons and of the curve walk
    a, b = refs(rep, [("H", [0.3, 1.0, 4.0]), ("H", [0.3001, 1.0, 4.0])])
    cmp.controls(a.cdf(0.7), [b.cdf(0.7)], "another law", rel=1e-9)
    cmp.controls(a.dur.moments(2)[1], [b.dur.moments(2)[1]], "another law", rel=1e-9)
    nreal = len(cases)
    for i in range(8):
        q = r.randrange(nreal)
        c = copy.deepcopy(cases[q])
        j = r.randrange(40, 120)
        row = c["pts"][j]
        if i % 4 == 0:
            row["F"] += 60
        elif i % 4 == 1:
            row["T"] += 4
        elif i % 4 == 2 and c["mean"] >= 0:
            c["mean"] = c["mean"] * 3 // 2 + 40
        else:
            row["F"], row["T"] = -5, 1000005
        cases.append(c), about.append(None)
    judge_curves(rep, cases, about)
    return close(rep, cmp)


CURVE_TEXT = {"range": "is not within 0..1", "tail": "does not add up to 1 with the tail", "value": "is not that of the law",
              "negative": "has a negative density", "monotone": "decreases", "density": "does not grow at the rate of its density",
              "begin": "does not begin at 0", "end": "does not reach 1", "mean": "does not have the stated mean"}


def judge_curves(rep, cases, about):
    path = os.path.join(scratch(), "curve_%d.json" % len(os.listdir(scratch())))
    with open(path, "w") as fh:
        json.dump(cases, fh)
    res = tlc("Curve", "SPECIFICATION Spec\nINVARIANT Done\nINVARIANT Ordered\n", env={"CASES": path}, workers=6)
    out = {x["k"]: x for x in res.lines("CURVE")}
    if not res.ok or len(out) != len(cases):
        raise CheckError("curve walk did not finish\n" + res.out[-2000:])
    rep.states += res.distinct
    rep.transitions += res.generated
    for i, c in enumerate(cases):
        bad = out[i + 1]["bad"]
        if about[i] is None:
            if not bad:
                raise CheckError("curve control accepted")
            rep.cov["negative_controls_rejected"] = rep.cov.get("negative_controls_rejected", 0) + 1
            continue
        for what, at in bad:
            k = max(0, at - 2)
            rep.violate("curve.%s.%s" % (about[i]["law"], what), "the distribution function of %s %s (point %d)" % (about[i], CURVE_TEXT[what], at),
                        {"about": about[i], "rows": c["pts"][k:at + 1]})
    rep.cov["curve_points_walked"] = sum(len(c["pts"]) for c in cases)


# ---------------------------------------------------------------- D03, D04
def chain_moments(rep, laws, num=3):
    """Moments of many laws with stages by one TLC run; other laws by their definition."""
    out = []
    for (k, p), ref in zip(laws, refs(rep, laws)):
        out.append(ref.dur.moments(num) if ref.dur is not None else
                   LawOf("gamma", **dict(zip(("mu", "alpha"), p if k == "Gamma" else p[::-1]))).raw(num) if k in ("Gamma", "E") else
                   LawOf("uniform", mean=p[0], half=p[1]).raw(num) if k == "Uniform" else
                   weibull_moments(p, num) if k == "W" else LawOf("pareto", a=p[0], k=p[1]).raw(num))
    return out


def cv_of(m):
    return math.sqrt(max(m[1] - m[0] ** 2, 0)) / m[0]


def d03(pid):
    rep = Report(pid)
    cmp = Cmp(rep)
    r = rng(pid)
    rd = lib()
    Weibull = weibull()
    N = 60 if THOROUGH else 14
    todo = []          # (clause, ctx, wanted moments, how many, kind, fitted parameters, rel)
    chk = lambda cl, ctx, want, num, kind, par, rel=1e-7: todo.append((cl, ctx, want, num, kind, par, rel)) if par is not None else None
    # moments of laws of the family itself
    own = [(k, rand_params(r, k)) for k in ("M", "H", "E", "C", "Gamma", "Uniform") for _ in range(N)]
    own += [("Pa", [rnd(r, 2.05, 9), logu(r, 0.02, 50)]) for _ in range(N)] + [("W", [rnd(r, 0.4, 4), logu(r, 0.05, 20)]) for _ in range(N)]
    own += [("H", [0.4, 2.0, 2.0]), ("C", [0.0, 1.7, 1.7]), ("E", [1, 0.3]), ("E", [60, 30.0]), ("E", [900, 30.0]), ("H", [0.9999, 10.0, 0.01])]
    for (k, p), m in zip(own, chain_moments(rep, own, 5)):
        ctx = {"moments of": [k, p]}
        if k == "M":
            g = cmp.call("fit.M", ctx, rd.Exp_dist.get_params, m[:3])
            chk("fit.M", ctx, m, 1, "M", g)
        elif k == "H":
            d = h2_of(m)
            g = cmp.call("fit.H", ctx, rd.H2_dist.get_params, m[:3])
            chk("fit.H", ctx, m, 3, "H", g, 1e-5)
            if d is None or near_degenerate(m):
                continue
            g = cmp.call("fit.H.complex", ctx, rd.H2_dist.get_params_clx, m[:3], False)
            chk("fit.H.complex", ctx, m, 3, "H", g)
            # remaining time of a law in progress
            g = cmp.call("fit.H.residual", ctx, rd.H2_dist.get_residual_params, p)
            chk("fit.H.residual", ctx, [m[i + 1] / ((i + 2) * m[0]) for i in range(3)], 3, "H", g)
        elif k == "C":
            if near_degenerate(m) or abs(m[1] * m[1] / 4 - m[0] * m[2] / 6) < 1e-4 * m[1] * m[1]:
                continue
            g = cmp.call("fit.C", ctx, rd.Cox_dist.get_params, m[:3], verbose=False)
            chk("fit.C", ctx, m, 3, "C", g)
        elif k == "E":
            g = cmp.call("fit.E", ctx, rd.Erlang_dist.get_params, m[:3])
            chk("fit.E", ctx, m, 3, "E", g)
        elif k == "Gamma":
            for nm in ("get_mu_alpha", "get_params"):
                g = cmp.call("fit.Gamma." + nm, ctx, getattr(rd.Gamma, nm), m[:2])
                chk("fit.Gamma." + nm, ctx, m, 2, "Gamma", g)
        elif k == "Uniform":
            g = cmp.call("fit.Uniform", ctx, rd.Uniform_dist.get_params, m[:3])
            chk("fit.Uniform", ctx, m, 2, "Uniform", g)
        elif k == "W":
            g = cmp.call("fit.W", ctx, Weibull.get_params, m[:3])
            chk("fit.W", ctx, m, 2, "W", g, 3e-5)
        else:
            for nm in ("get_a_k", "get_params"):
                g = cmp.call("fit.Pa." + nm, ctx, getattr(rd.Pareto_dist, nm), m[:3])
                chk("fit.Pa." + nm, ctx, m, 2, "Pa", g)
    # moments of other laws, as far as the family can follow
    for _ in range(4 * N):
        mean, cv = logu(r, 0.02, 50), logu(r, 0.15, 4)
        m = [mean, mean ** 2 * (1 + cv * cv)]
        m.append(max(m[1] ** 2 / m[0] * 1.001, mean ** 3 * (1 + cv * cv) * (1 + 2 * cv * cv) * r.choice([1, rnd(r, 0.95, 1.3)])))
        ctx = {"moments": m[:3], "cv": cv}
        if not near_degenerate(m):
            g = cmp.call("fit.H.complex", ctx, rd.H2_dist.get_params_clx, m[:3], False)
            chk("fit.H.complex", ctx, m, 3, "H", g, 1e-6)
            if abs(m[1] * m[1] / 4 - m[0] * m[2] / 6) > 1e-3 * m[1] * m[1]:
                g = cmp.call("fit.C", ctx, rd.Cox_dist.get_params, m[:3], verbose=False)
                chk("fit.C", ctx, m, 3, "C", g, 1e-6)
        if cv > 1.02:
            least = 1.5 * (1 + cv * cv) ** 2 * m[0] ** 3
            for f in (m[2], least * rnd(r, 1.01, 3), least * rnd(r, 0.7, 0.99)):
                q = [m[0], m[1], f]
                g = cmp.call("fit.H", dict(ctx, third=f), rd.H2_dist.get_params, q)
                if f > least * 1.005:
                    chk("fit.H", dict(ctx, third=f), q, 3, "H", g, 1e-5)
                elif f < least * 0.995:
                    # out of reach: the first two are kept
                    chk("fit.H.low third", dict(ctx, third=f), q, 2, "H", g, 1e-4)
        g = cmp.call("fit.E.nearest", ctx, rd.Erlang_dist.get_params, m[:2])
        if g is not None and cv < 1.2:
            chk("fit.E.nearest", ctx, m, 1, "E", g)
            best = min(range(1, 200), key=lambda q: abs(q - 1 / cv ** 2))
            if abs(abs(best - 1 / cv ** 2) - 0.5) > 1e-6:
                cmp.eq("fit.E.order", ctx, best, g[0])
        # helpers by mean and coefficient of variation
        hm = [mean, mean * mean * (1 + cv * cv)]
        hctx = {"mean": mean, "cv": cv}
        near = abs(cv - 1) < 0.01 or abs(cv * cv - 0.5) < 0.01
        g = cmp.call("by cv.Uniform", hctx, rd.Uniform_dist.get_params_by_mean_and_coev, mean, cv)
        chk("by cv.Uniform", hctx, hm, 2, "Uniform", g)
        g = cmp.call("by cv.Pa", hctx, rd.Pareto_dist.get_a_k_by_mean_and_coev, mean, cv)
        chk("by cv.Pa", hctx, hm, 2, "Pa", g)
        g = cmp.call("by cv.Gamma", hctx, rd.Gamma.get_mu_alpha_by_mean_and_coev, mean, cv)
        chk("by cv.Gamma", hctx, hm, 2, "Gamma", g)
        g = cmp.call("by cv.W", hctx, Weibull.get_params_by_mean_and_coev, mean, cv)
        chk("by cv.W", hctx, hm, 2, "W", g, 3e-5)
        if not near:
            g = cmp.call("by cv.H.complex", hctx, rd.H2_dist.get_params_by_mean_and_coev, mean, cv, True)
            chk("by cv.H.complex", hctx, hm, 2, "H", g, 1e-6)
            g = cmp.call("by cv.C", hctx, rd.Cox_dist.get_params_by_mean_and_coev, mean, cv)
            chk("by cv.C", hctx, hm, 2, "C", g, 1e-6)
        if cv > 1.005:
            g = cmp.call("by cv.H", hctx, rd.H2_dist.get_params_by_mean_and_coev, mean, cv)
            chk("by cv.H", hctx, hm, 2, "H", g, 1e-5)
        q = r.choice([1, 2, 3, 4, 7, 20])
        ectx = {"mean": mean, "cv": q ** -0.5}
        g = cmp.call("by cv.E", ectx, rd.Erlang_dist.get_params_by_mean_and_coev, mean, q ** -0.5)
        chk("by cv.E", ectx, [mean, mean * mean * (1 + 1 / q)], 2, "E", g)
        # Gamma density with a correcting polynomial: keeps every given moment
        if cv < 2:
            g = cmp.call("fit.Gamma.corrected", ctx, rd.Gamma.get_params, m[:3])
            if g is not None:
                def weighted(mu, al, pol):
                    x, w = roots_genlaguerre(12, al - 1)
                    w = w / w.sum()
                    corr = lambda t: float(rd.Gamma.get_f_corrective(mu, al, pol, t)) / float(rd.Gamma.get_f(mu, al, t))
                    return [float(sum(a * (t / mu) ** i * corr(t / mu) for t, a in zip(x, w) if t > 1e-11)) for i in range(4)]

                from scipy.special import roots_genlaguerre
                got = cmp.call("fit.Gamma.corrected", ctx, weighted, *g)
                if got is not None:
                    cmp.eq("fit.Gamma.corrected", ctx, [1.0] + m[:3], got, rel=2e-5, ab=0)
    for cv in (0.02, 0.05, 0.08):
        mean = logu(r, 0.1, 10)
        m = LawOf("gamma", mu=cv ** -2 / mean, alpha=cv ** -2).raw(6)
        for num in (3, 4):
            ctx = {"moments": m[:num], "cv": cv}
            g = cmp.call("fit.Gamma.regular", ctx, rd.Gamma.get_params, m[:num])
            if g is not None:
                cmp.eq("fit.Gamma.regular", ctx, [1.0] + m[:2], [float(sum(c * x for c, x in zip(g[2], ([1.0] + m)[i:]))) for i in range(3)], rel=1e-6, ab=0)
                chk("fit.Gamma.regular", ctx, m, 2, "Gamma", [float(g[0]), float(g[1])])
    # exactly representable border cases
    for cv in (1.0,):
        for mean in (0.1, 3.0, 40.0):
            g = cmp.call("by cv.C", {"mean": mean, "cv": cv}, rd.Cox_dist.get_params_by_mean_and_coev, mean, cv)
            chk("by cv.C", {"mean": mean, "cv": cv}, [mean, 2 * mean ** 2, 6 * mean ** 3], 3, "C", g, 1e-6)
            for clx in (True, False):
                g = cmp.call("by cv.H", {"mean": mean, "cv": cv, "clx": clx}, rd.H2_dist.get_params_by_mean_and_coev, mean, cv, clx)
                chk("by cv.H", {"mean": mean, "cv": cv}, [mean, 2 * mean ** 2, 6 * mean ** 3], 3, "H", g, 1e-6)
    for eps in (0.0, 1e-5, -1e-5, 3e-4, -3e-4):
        # next to Erlang-2 the first two moments stay, the third moves by at most 5 per cent
        mean = logu(r, 0.05, 20)
        m = [mean, 1.5 * mean ** 2 * (1 + eps), 3 * mean ** 3]
        g = cmp.call("fit.H.near E2", {"moments": m}, rd.H2_dist.get_params_clx, m, False)
        chk("fit.H.near E2", {"moments": m}, m, 2, "H", g, 1e-6)
        chk("fit.H.near E2 third", {"moments": m}, m, 3, "H", g, 5e-2)
    ok = []
    for x in todo:
        cl, ctx, want, num, kind, par, rel = x
        try:
            par = [complex(v) if isinstance(v, complex) or np.iscomplexobj(v) else float(v) for v in spread(par)]
            par = par[0] if kind == "M" else par[:2] if kind in ("Gamma", "W") else par
            if kind == "E":
                par = [int(par[0]), par[1]]
                if not 1 <= par[0] <= 2000:
                    raise ValueError("order %s" % par[0])
                if shape_of("E", par) is None:
                    kind, par = "Gamma", par[::-1]
            if not all(cmath.isfinite(v) for v in spread(par)) or (kind != "Uniform" and any(v == 0 for v in spread(par)[1:])) or \
                    (kind == "Gamma" and not par[1] > 0) or (kind in ("Pa", "W") and not par[0] > 0) or (kind == "M" and not par > 0):
                raise ValueError("not parameters of the law")
            ok.append((cl, ctx, want, num, kind, par, rel))
        except Exception as e:
            rep.violate(cl + ".parameters", "%s gives %s for %s: %s" % (cl, par, short(ctx), e), {"ctx": ctx, "got": str(par)})
    got = []
    st = [x for x in ok if x[4] in ("M", "H", "C", "E")]
    shapes = {}
    for x in st:
        shapes.setdefault((x[4], x[5][0] if x[4] == "E" else 0), []).append(x)
    keys = sorted(shapes)
    chs = stages(rep, [([shape_of(k, [q, 1.0] if k == "E" else 1.0 if k == "M" else [0.5, 1, 1])[0]], "seq", 1) for k, q in keys])
    for (key_, ch) in zip(keys, chs):
        for x in shapes[key_]:
            got.append((x, Duration(ch, law_shape(x[4], x[5], "y", "m")[1]).moments(3)))
    for x in ok:
        if x[4] not in ("M", "H", "C", "E"):
            k, p = x[4], x[5]
            mm = LawOf("gamma", mu=p[0], alpha=p[1]).raw(3) if k == "Gamma" else LawOf("uniform", mean=p[0], half=p[1]).raw(3) if k == "Uniform" else \
                weibull_moments(p, 3) if k == "W" else LawOf("pareto", a=p[0], k=p[1]).raw(3)
            got.append((x, mm))
    for (cl, ctx, want, num, kind, par, rel), mm in got:
        cmp.eq(cl, dict(ctx, fitted=[str(v) for v in spread(par)]), want[:num], mm, rel=rel, ab=0)
    rep.cov["fits"] = len(got)
    a = Duration(chs[0], law_shape(keys[0][0], [0.5, 1.0, 3.0], "y", "m")[1]) if keys[0][0] in ("H", "C") else None
    if a is not None:
        cmp.controls(a.moments(3)[2], [Duration(chs[0], law_shape(keys[0][0], [0.5001, 1.0, 3.0], "y", "m")[1]).moments(3)[2]], "another fit", rel=1e-5)
    return close(rep, cmp)


def near_degenerate(m):
    """Next to the exponential law or to coinciding phases, where the fits deliberately move the third moment."""
    f1, f2, f3 = m[0], m[1] / 2, m[2] / 6
    z = f2 - f1 * f1
    if abs(z) < 3e-3 * f1 * f1:
        return True
    c0, c1 = (f1 * f3 - f2 * f2) / z, (f1 * f2 - f3) / z
    return abs(c1 * c1 / 4 - c0) < 3e-3 * abs(c0)


def d04(pid):
    rep = Report(pid)
    cmp = Cmp(rep)
    r = rng(pid)
    from most_queue.general_utils import conv as C
    N = 60 if THOROUGH else 16
    plans, laws = [], []
    for t in range(N):
        parts = [(k, rand_params(r, k)) for k in [r.choice(["M", "H", "C", "E"]) for _ in range(2)]]
        plans.append(parts)
    for t in range(N):
        q = (r.choice(["M", "H", "C", "E"]))
        plans.append([(q, rand_params(r, q))] * r.choice([1, 2, 3, 5, 8]))
    cfg, pars, singles = [], [], []
    for parts in plans:
        sh, par = [], {}
        for i, (k, p) in enumerate(parts):
            s, v = law_shape(k, p, "y%d_" % i, "m%d_" % i)
            sh.append(s)
            par.update(v)
        cfg.append((sh, "seq", len(sh)))
        pars.append(par)
    one = chain_moments(rep, [p for parts in plans for p in parts], 4)
    chs = stages(rep, cfg)
    at = 0
    for q, (parts, par, ch) in enumerate(zip(plans, pars, chs)):
        m = one[at:at + len(parts)]
        at += len(parts)
        tot = Duration(ch, par).moments(3)
        ctx = {"parts": parts}
        if q < N:
            a, b = m
            for num in (None, 1, 2, 3):
                k = [num] if num else []
                g = cmp.call("conv", dict(ctx, num=num), C.get_moments, list(a), list(b), *k)
                if g is not None:
                    cmp.eq("conv", dict(ctx, num=num), tot[:num or 3], g, rel=1e-9, ab=0)
                    if len(g) != (num or 3):
                        rep.violate("conv.length", "%d moments returned for %s" % (len(g), num), ctx)
                for (x, y) in ((a, b), (b, a)):
                    g = cmp.call("deconv", dict(ctx, num=num), C.get_moments_minus, list(tot), list(y), *k)
                    if g is not None:
                        cmp.eq("deconv", dict(ctx, num=num), x[:num or 3], g, rel=1e-9, ab=1e-9 * tot[2] if num in (None, 3) else 1e-9 * tot[1] + 1e-9 * tot[0])
            x, y = list(a[:3]), list(b[:3])
            C.get_moments(x, y), C.get_moments_minus(x, y), C.get_self_conv_moments(x, 3)
            cmp.eq("conv.arguments", ctx, list(a[:3]) + list(b[:3]), x + y, rel=0, ab=0)
        else:
            n = len(parts)
            for num in (None, 1, 2, 3):
                k = [num] if num else []
                g = cmp.call("self conv", dict(ctx, n=n, num=num), C.get_self_conv_moments, list(m[0]), n, *k)
                if g is not None:
                    cmp.eq("self conv", dict(ctx, n=n, num=num), tot[:num or 3], g, rel=1e-9, ab=0)
            g = cmp.call("self conv", dict(ctx, n=0), C.get_self_conv_moments, list(m[0]), 0)
            if g is not None:
                cmp.eq("self conv", dict(ctx, n=0), [0, 0, 0], g, rel=0, ab=0)
    a = Duration(chs[0], pars[0]).moments(3)
    b = Duration(chs[0], {k: v * (1.0001 if k[0] == "m" else 1) for k, v in pars[0].items()}).moments(3)
    cmp.controls(a[2], [b[2]], "another sum", rel=1e-9)
    return close(rep, cmp)


# ---------------------------------------------------------------- M02
class Merged:
    """The merged flow of a Super.tla chain with numbers."""

    def __init__(self, ch, par):
        n = len(ch.states)
        A, B, W = ch.rates(par)
        self.D0, self.D1 = np.zeros((n, n), dtype=complex), np.zeros((n, n), dtype=complex)
        for (a, b, m, f, ev), w in zip(ch.edges, W):
            (self.D1 if ev[0] else self.D0)[a, b] += w
            self.D0[a, a] -= w
        Q = self.D0 + self.D1
        M = np.vstack([Q.T[:-1], np.ones(n)])
        self.pi = np.linalg.solve(M, np.r_[np.zeros(n - 1), 1])
        self.rate = (self.pi @ self.D1).sum()

    def intervals(self, num):
        """Raw moments of the interval between consecutive events of the running flow."""
        v = self.pi @ self.D1 / self.rate
        out, x = [], np.ones(len(v), dtype=complex)
        for k in range(1, num + 1):
            x = k * np.linalg.solve(-self.D0, x)
            out.append(complex(v @ x))
        return out

    def counts(self, num, pts=32):
        """Growth rates of the cumulants of the number of events (derivatives of the leading eigenvalue)."""
        eig = sorted(abs(np.linalg.eigvals(self.D0 + self.D1)))
        rad = 0.08 * min(1.0, eig[1] / abs(self.rate)) if len(eig) > 1 else 0.08
        vals = []
        for j in range(pts):
            z = rad * np.exp(2j * np.pi * j / pts)
            lam = np.linalg.eigvals(self.D0 + np.exp(z) * self.D1)
            vals.append(lam[np.argmin(abs(lam))])
        c = np.fft.fft(vals) / pts
        return [complex(c[k] / rad ** k * math.factorial(k)) for k in range(1, num + 1)]


def m02(pid):
    rep = Report(pid)
    cmp = Cmp(rep)
    r = rng(pid)
    from most_queue.theory.utils.flow_sum import SummatorNumeric as SN
    h2 = [h2_ph("y%d_" % i, "m%d_" % i) for i in range(2)]
    kinds = ["M", "H", "E", "C"]
    N = 60 if THOROUGH else 20
    plans = []
    for t in range(N):
        n = 2 if t % 2 else r.choice([2, 3, 4])
        mean = logu(r, 0.02, 50)
        plans.append([(k, law_params(r, k, mean * logu(r, 0.3, 3))) for k in (["H", "H"] if t % 5 == 1 else [r.choice(kinds) for _ in range(n)])])
    SUP = ["TypeOK", "OneFlow", "Alive", "Restart"]
    two = emitted(rep, "Super", [{"flows": h2}], SUP)[0]
    # the merged flow of the laws themselves (semi-invariants are exact for any laws)
    cfg, pars = [], []
    for parts in plans:
        sh, par = [], {}
        for i, (k, p) in enumerate(parts):
            a, v = law_shape(k, p, "y%d_" % i, "m%d_" % i)
            sh.append(a)
            par.update(v)
        cfg += [{"flows": sh}, {"flows": sh[:1]}]
        pars += [par, par]
    chs = emitted(rep, "Super", cfg, SUP, workers=8)
    moms = chain_moments(rep, [p for parts in plans for p in parts], 4)
    at = 0
    ctl = None
    for q, parts in enumerate(plans):
        m = moms[at:at + len(parts)]
        at += len(parts)
        ctx = {"flows": parts}
        full, single = Merged(chs[2 * q], pars[2 * q]), Merged(chs[2 * q + 1], pars[2 * q])
        # cumulants of one interval and of the number of events
        g = cmp.call("get_k", ctx, SN.get_k, list(m[0]))
        if g is not None:
            m1, m2, m3, m4 = m[0]
            # central moments from the stages: cumulants of the interval
            c2, c3 = m2 - m1 ** 2, m3 - 3 * m2 * m1 + 2 * m1 ** 3
            c4 = m4 - 4 * m3 * m1 + 6 * m2 * m1 ** 2 - 3 * m1 ** 4 - 3 * c2 ** 2
            cmp.eq("get_k", ctx, [m1, c2, c3, c4], g, rel=1e-9, ab=1e-9 * m4 if m4 < 1 else 1e-9 * m4)
            v = cmp.call("get_v", ctx, SN.get_v, g)
            if v is not None:
                e = single.counts(4)
                cmp.eq("get_v", ctx, e[:3], v, rel=1e-5, ab=1e-6 * abs(e[0]))
                cmp.eq("get_v4", ctx, e[3:], v[3:], rel=1e-3, ab=1e-5 * abs(e[0]) + 30 * abs(e[3].imag))
                k2 = cmp.call("get_k_by_v", ctx, SN.get_k_by_v, list(v))
                if k2 is not None:
                    cmp.eq("get_k_by_v", ctx, g, k2, rel=1e-7, ab=1e-9 * max(abs(x) for x in g))
            a = cmp.call("get_a", ctx, SN.get_a, g)
            if a is not None:
                cmp.eq("get_a", ctx, m[0], a, rel=1e-9)
        g = cmp.call("residual", ctx, SN.get_residual_distr_moments, list(m[0]))
        if g is not None:
            # time to the next event seen by an observer of the running flow
            D = single
            x, e = np.ones(len(D.pi), dtype=complex), []
            for k in range(1, 4):
                x = k * np.linalg.solve(-D.D0, x)
                e.append(complex(D.pi @ x))
            cmp.eq("residual", ctx, e, g, rel=1e-8, ab=0)
        # the method of semi-invariants: the merged flow has the same growth of cumulants
        for num in (3, 4):
            o = SN([list(x[:num]) for x in m], is_semi=True)
            g = cmp.call("semi", dict(ctx, num=num), o.sum_flows)
            e = full.counts(num)
            try:
                res = list(o.result_flow)
                got = SN.get_v(SN.get_k(res))
            except Exception as ex:
                continue
            cmp.eq("semi.sum", dict(ctx, num=num), e[:3], got, rel=1e-5, ab=1e-6 * abs(e[0]))
            cmp.eq("semi.sum4", dict(ctx, num=num), e[3:], got[3:], rel=1e-3, ab=1e-5 * abs(e[0]) + 30 * abs(e[-1].imag))
            cmp.eq("semi.results", dict(ctx, num=num), [x[0] for x in o.flows_] + [x[1] for x in o.flows_], o.a1_sum + o.a2_sum, rel=0, ab=0)
        # two flows at a time by hyper-exponential fits: exact for fits of the given moments
        for num in (3, 4):
            cur = list(m[0][:num])
            fits_ok = True
            stagesx = []
            for nxt in m[1:]:
                if near_degenerate([np.real(x) for x in cur]) or near_degenerate(nxt):
                    fits_ok = False
                    break
                ha, hb = h2_of(cur), h2_of(nxt)
                if ha is None or hb is None:
                    fits_ok = False
                    break
                par = {}
                for i, (y, x1, x2) in enumerate((ha, hb)):
                    par.update({"y%d_1" % i: y, "y%d_2" % i: 1 - y, "m%d_1" % i: x1, "m%d_2" % i: x2})
                par = {k: complex(v) for k, v in par.items()}
                cur = [x.real for x in Merged(two, par).intervals(num)]
                if cv_of([float(np.real(x)) for x in cur]) < 0.05:
                    fits_ok = False
                    break
                stagesx.append(cur)
            if not fits_ok:
                continue
            o = SN([list(x[:num]) for x in m], is_semi=False)
            cmp.call("h2", dict(ctx, num=num), o.sum_flows)
            if len(o.flows_) != len(stagesx):
                rep.violate("h2.stages", "%d sums for %d flows; %s" % (len(o.flows_), len(m), short(ctx)), ctx)
                continue
            for j, e in enumerate(stagesx):
                # only the first three moments of a fit are meant
                cmp.eq("h2.sum", dict(ctx, num=num, stage=j), e[:num], o.flows_[j], rel=1e-6 * 10 ** j, ab=0)
                cmp.eq("h2.results", dict(ctx, num=num, stage=j), [e[0], e[1], cv_of(e)], [o.a1_sum[j], o.a2_sum[j], o.coevs[j]], rel=1e-6 * 10 ** j, ab=0)
            cmp.eq("h2.result", dict(ctx, num=num), stagesx[-1], o.result_flow, rel=1e-4, ab=0)
            if all(k in ("H", "E", "C") for k, _ in parts) and len(parts) == 2 and all(k == "H" for k, _ in parts):
                # hyper-exponential flows: the running merged flow itself
                e = [x.real for x in full.intervals(num)]
                cmp.eq("h2.exact", dict(ctx, num=num), e, o.result_flow, rel=1e-6, ab=0)
                ctl = (e[2], Merged(chs[2 * q], {k: v * (1.001 if k[0] == "m" else 1) for k, v in pars[2 * q].items()}).intervals(3)[2].real)
    if ctl is None:
        raise CheckError("no pair of hyper-exponential flows was drawn")
    cmp.controls(ctl[0], [ctl[1]], "another flow", rel=1e-6)
    return close(rep, cmp)


def close(rep, cmp):
    rep.traces = cmp.points()
    rep.cov["comparisons"] = cmp.n
    rep.cov["worst_deviation_over_tolerance"] = {k: round(v, 4) for k, v in sorted(cmp.worst.items())}
    if cmp.n < 20 or not rep.cov.get("negative_controls"):
        raise CheckError("the check compared too little")
    rep.assumptions += ["laws with stages: their stages are enumerated by TLC (Stages.tla) and solved with scipy; other laws by their definition"]
    return rep.finish()


def main(pid):
    return globals()[pid.lower()](pid)
