"""Theory properties: the specification's chains (emitted by TLC) solved numerically against the formulas."""
import cmath
import contextlib, io, math, warnings
import numpy as np
from common import *
from chain import *

np.seterr(all="ignore")
warnings.filterwarnings("ignore")


class Cmp:
    """Comparisons of values of the code with values of the specification."""

    def __init__(self, rep):
        self.rep, self.n, self.bad, self.worst = rep, 0, 0, {}
        self.seen = set()

    def points(self):
        """Distinct (function, parameters) points compared."""
        return len(self.seen)

    def _differs(self, exp, got, rel, ab):
        try:
            g = complex(got)
        except Exception:
            return True
        if not (math.isfinite(g.real) and math.isfinite(g.imag)):
            return True
        return abs(g - exp) > ab + rel * abs(exp)

    def eq(self, clause, ctx, exp, got, rel=1e-7, ab=1e-9):
        self.n += 1
        self.seen.add((clause.split(".")[0], short(ctx)))
        e = np.atleast_1d(np.asarray(exp, dtype=complex))
        try:
            g = list(got) if hasattr(got, "__len__") else [got]
        except Exception:
            g = [got]
        if len(g) < len(e):
            g = g + [float("nan")] * (len(e) - len(g))
        for i, x in enumerate(e):
            if self._differs(x, g[i], rel, ab):
                self.bad += 1
                self.rep.violate(clause, "%s [%d] is %s, the specification gives %s; %s" % (clause, i, g[i], x.real if x.imag == 0 else x, short(ctx)),
                                 {"clause": clause, "ctx": ctx, "index": i, "expected": str(x), "got": str(g[i])})
                return False
            try:
                d = abs(complex(g[i]) - x) / (ab + rel * abs(x))
                self.worst[clause] = max(self.worst.get(clause, 0.0), float(d))
            except Exception:
                pass
        return True

    def call(self, clause, ctx, fn, *a, **k):
        """Value of fn, or None with a violation when it raises or does not return."""
        try:
            with time_limit(60), contextlib.redirect_stdout(io.StringIO()):
                return fn(*a, **k)
        except Exception as e:
            self.n += 1
            self.rep.violate(clause + ".crash", "%s raised %s: %s; %s" % (clause, type(e).__name__, e, short(ctx)),
                             {"clause": clause, "ctx": ctx, "error": repr(e)})
            return None

    def controls(self, exp, others, what, rel=1e-7):
        """Negative control: the reference of a different system must be told apart."""
        for o in others:
            if not self._differs(complex(exp), o, rel, 1e-9):
                raise CheckError("negative control not distinguished: " + what)
        self.rep.cov["negative_controls"] = self.rep.cov.get("negative_controls", 0) + len(others)


def short(x):
    s = json.dumps(x, default=lambda v: float(v) if np.isscalar(v) else list(v))
    return s if len(s) < 400 else s[:400] + "..."


def rnd(r, lo, hi):
    """A number of the interval; round values (where formulas may degenerate) come up often."""
    x = r.uniform(lo, hi)
    if r.random() < 0.3:
        for d in r.sample([1, 2, 4, 5, 10, 20], 6):
            y = round(x * d) / d
            if lo <= y <= hi and 0 < y:
                return y
    return round(x, 3)


def logu(r, lo, hi):
    x = math.exp(r.uniform(math.log(lo), math.log(hi)))
    if r.random() < 0.3:
        y = r.choice([2.0 ** round(math.log2(x)), 10.0 ** round(math.log10(x)), float(round(x))])
        if lo <= y <= hi and 0 < y:
            return y
    return round(x, 4)


EINV = ["TypeOK", "Drains", "Up"]
SINV = ["TypeOK", "OneAtATime", "AllRun", "NotOver", "Alive", "Monotone"]


def emitted(rep, module, cfgs, invs, **k):
    chs, r = emit(module, cfgs, invs, **k)
    rep.states += r.distinct
    rep.transitions += r.generated
    rep.cov.setdefault("model_checking_runs", []).append(
        {"what": "%s: %d structures" % (module, len(cfgs)), "distinct_states": r.distinct, "states_generated": r.generated,
         "depth": r.depth, "invariants": list(invs), "wall_s": round(r.wall, 1)})
    rep.samples.append("%s %s -> %d states, %d edges" % (module, short(cfgs[0])[:200], len(chs[0].states), len(chs[0].edges)))
    return chs


def stages(rep, parts_list):
    """Chains of Stages.tla for [(parts, mode, need)]."""
    return emitted(rep, "Stages", [{"parts": p, "mode": m, "need": nd} for p, m, nd in parts_list], SINV)


class Duration:
    """A Stages.tla chain with numbers: moments, distribution function, density."""

    def __init__(self, ch, par):
        n = len(ch.states)
        A, B, R = ch.rates(par)
        self.n = n
        fin = [i for i, s in enumerate(ch.states) if s == {"x": []} or s["x"] == []]
        beg = [i for i, s in enumerate(ch.states) if s["x"] == [-2]]
        self.fin, self.beg = fin[0], beg[0]
        G = np.zeros((n, n), dtype=R.dtype)
        for a, b, w in zip(A, B, R):
            if a != self.beg:
                G[a, b] += w
                G[a, a] -= w
        self.alpha = np.zeros(n, dtype=R.dtype)
        for a, b, w in zip(A, B, R):
            if a == self.beg:
                self.alpha[b] += w
        keep = [i for i in range(n) if i not in (self.fin, self.beg)]
        self.T = G[np.ix_(keep, keep)]
        self.a = self.alpha[keep]
        self.t0 = -self.T.sum(axis=1)
        self.keep = keep

    def moments(self, k):
        out, v = [], np.ones(len(self.keep))
        for i in range(1, k + 1):
            v = i * np.linalg.solve(-self.T, v)
            out.append(re(self.a @ v))
        return out

    def cdf(self, t):
        from scipy.linalg import expm
        return 1.0 - re(self.a @ expm(self.T * t) @ np.ones(len(self.keep)))

    def pdf(self, t):
        from scipy.linalg import expm
        return re(self.a @ expm(self.T * t) @ self.t0)


# --------------------------------------------------------------------------- T01
def t01(rep, cmp, r):
    from most_queue.theory.mmnr_calc import MMnr_calc as M
    shapes = [(n, q) for n in (1, 2, 3, 5) for q in (0, 1, 2, 6)] + [(4, 15), (1, 120), (3, 70), (8, 3), (12, 30), (20, 40)] + ([(10, 30), (2, 300), (40, 20)] if THOROUGH else [])
    chs = emitted(rep, "Markov", [mcfg(n=n, cap=n + q) for n, q in shapes], MINV)
    for (n, q), ch in zip(shapes, chs):
        for k in range(6 if THOROUGH else 3):
            mu = rnd(r, 0.3, 2.5)
            l = [rnd(r, 0.05, 0.95) * n * mu, rnd(r, 1.05, 2.5 if q < 60 else 1.1) * n * mu, n * mu][k % 3]
            if k % 3 == 2:
                mu = r.choice([0.5, 1.0, 2.0])
                l = n * mu
            s = Sol(ch, {"lam": l, "mu": mu})
            ctx = {"l": l, "mu": mu, "n": n, "r": q}
            g = lambda c, f, *a: cmp.call(c, ctx, f, l, mu, n, q, *a)
            v = g("get_p", M.get_p)
            if v is not None:
                cmp.eq("get_p", ctx, s.p, v)
            v = g("getPI", M.getPI)
            if v is not None:
                cmp.eq("getPI", ctx, s.loss, v)
            v = g("getQ", M.getQ)
            if v is not None:
                cmp.eq("getQ", ctx, s.Q, v)
            for num in (3, 2):
                v = g("get_qs", M.get_qs, num)
                if v is not None:
                    fact = [sum(math.prod(range(x - j, x + 1)) * s.p[n + x] for x in range(0, q + 1)) for j in range(num)]
                    cmp.eq("get_qs", ctx, fact, v)
                v = g("get_w", M.get_w, num)
                if v is not None:
                    cmp.eq("get_w", ctx, s.w[:num], v)
            v = g("get_v", M.get_v)
            if v is not None:
                cmp.eq("get_v", ctx, conv(s.w, [1 / mu, 2 / mu ** 2, 6 / mu ** 3]), v)
    a, b = Sol(chs[1], {"lam": 1.0, "mu": 1.1}), Sol(chs[2], {"lam": 1.0, "mu": 1.1})
    cmp.controls(a.p[0], [b.p[0], Sol(chs[1], {"lam": 1.001, "mu": 1.1}).p[0]], "capacity / rate")


# --------------------------------------------------------------------------- T02
def t02(rep, cmp, r):
    from most_queue.theory.engset_model import Engset
    ms = (1, 2, 3, 5, 9) + ((14, 25) if THOROUGH else ())
    chs = emitted(rep, "Markov", [mcfg(n=1, cap=m, src=m) for m in ms], MINV)
    for m, ch in zip(ms, chs):
        for k in range(12 if THOROUGH else 5):
            mu, lam = logu(r, 0.3, 3), logu(r, 0.05, 3)
            s = Sol(ch, {"lam": lam, "mu": mu})
            ctx = {"lam": lam, "mu": mu, "m": m}
            e = cmp.call("init", ctx, Engset, lam, mu, m)
            if e is None:
                continue
            exp = {"get_p": s.p, "get_N": s.N, "get_Q": s.Q, "get_kg": (m - s.N) / m, "get_lamD": s.flow,
                   "get_w1": s.w[0], "get_v1": s.w[0] + 1 / mu}
            for name, x in exp.items():
                v = cmp.call(name, ctx, getattr(e, name))
                if v is not None:
                    cmp.eq(name, ctx, x, v)
            v = cmp.call("get_w", ctx, e.get_w)
            if v is not None:
                cmp.eq("get_w", ctx, s.w, v, rel=ENGSET_REL, ab=1e-9)
            for q in (0.0, rnd(r, 0.1, 3) * mu):
                v = cmp.call("ws", ctx, e.ws, q, e.get_p()[0], e.get_N())
                if v is not None:
                    cmp.eq("ws", dict(ctx, s=q), s.wlst(q).real, v)
            v = cmp.call("get_v", ctx, e.get_v)
            if v is not None:
                cmp.eq("get_v", ctx, conv(s.w, [1 / mu, 2 / mu ** 2, 6 / mu ** 3]), v, rel=ENGSET_REL, ab=1e-9)
    cmp.controls(Sol(chs[1], {"lam": 1.0, "mu": 1.1}).p[0], [Sol(chs[2], {"lam": 1.0, "mu": 1.1}).p[0]], "number of sources")


ENGSET_REL = 1e-7


# --------------------------------------------------------------------------- T03
def t03(rep, cmp, r):
    import most_queue.theory.impatience_calc as I
    caps = [40, 120, 400, 1500]
    chs = emitted(rep, "Markov", [mcfg(n=1, cap=c, imp="gam") for c in caps], MINV)
    sets = [(0.7, 0.9, 0.2), (3.0, 1.0, 0.5), (5.0, 0.5, 1.0), (0.2, 2.0, 3.0), (8.0, 1.0, 0.4), (2.0, 2.0, 0.05), (20.0, 0.7, 0.6), (40.0, 0.5, 0.09), (6.0, 2.0, 0.005)]
    for k in range(30 if THOROUGH else 8):
        sets.append((logu(r, 0.1, 6), logu(r, 0.3, 3), logu(r, 0.1, 4)))
    for l, mu, gam in sets:
        for ch in chs:
            s = Sol(ch, {"lam": l, "mu": mu, "gam": gam}, wmoms=False)
            if s.p[-1] < 1e-14:
                break
        else:
            continue
        ctx = {"l": l, "mu": mu, "gamma": gam}
        v = cmp.call("get_p0", ctx, I.get_p0, l, mu, gam)
        if v is not None:
            cmp.eq("get_p0", ctx, s.p[0], v)
        v = cmp.call("get_p", ctx, I.get_p, l, mu, gam)
        if v is not None:
            # the returned list may end once the remaining probabilities are negligible
            k = min(len(v), len(s.p))
            cmp.eq("get_p", ctx, s.p[:k], v, ab=1e-10)
            cmp.eq("get_p.rest", ctx, 0.0, float(s.p[k:].sum()), ab=1e-8)
        for name, x in (("get_N", s.N), ("get_Q", s.Q), ("get_w1", s.Q / l), ("get_v1", s.N / l)):
            v = cmp.call(name, ctx, getattr(I, name), l, mu, gam)
            if v is not None:
                cmp.eq(name, ctx, x, v, ab=1e-8)
    cmp.controls(Sol(chs[0], {"lam": 1.0, "mu": 1.1, "gam": .5}, False).p[0], [Sol(chs[0], {"lam": 1.0, "mu": 1.1, "gam": .501}, False).p[0]], "patience")


# --------------------------------------------------------------------------- T04
def t04(rep, cmp, r):
    from most_queue.theory.batch_mm1 import BatchMM1
    sizes = [[1], [2], [1, 2], [3], [1, 2, 3, 4, 5], [1, 3, 14], [2, 30]]
    cap = 700 if THOROUGH else 500
    cfgs = [mcfg(n=1, cap=cap, batch=[[b, ["b%d" % b]] for b in bs]) for bs in sizes]
    chs = emitted(rep, "Markov", cfgs, MINV)
    for bs, ch in zip(sizes, chs):
        for k in range(6 if THOROUGH else 3):
            x = [r.random() + 0.05 for _ in bs]
            if max(bs) > 5:
                x[-1] = logu(r, 0.002, 0.1)     # rare long batches
            t = sum(x)
            pb = {b: v / t for b, v in zip(bs, x)}
            probs = [pb.get(j, 0.0) for j in range(1, max(bs) + 1)]
            m1 = sum(j * q for j, q in enumerate(probs, 1))
            mu = logu(r, 0.3, 3)
            ro = r.choice([0.1, 0.4, 0.6, 0.75])
            lam = ro * mu / m1
            s = Sol(ch, dict({"lam": lam, "mu": mu}, **{"b%d" % b: v for b, v in pb.items()}), wmoms=False)
            if s.p[-1] > 1e-12:
                continue
            ctx = {"lam": lam, "mu": mu, "batch_probs": probs}
            B = cmp.call("init", ctx, BatchMM1, lam, mu, probs)
            if B is None:
                continue
            v = cmp.call("get_p", ctx, B.get_p)
            if v is not None:
                k2 = min(len(v), len(s.p))
                cmp.eq("get_p", ctx, s.p[:k2], v, ab=1e-9)
                cmp.eq("get_p.rest", ctx, 0.0, float(s.p[k2:].sum()), ab=1e-8)
            fl = lam * m1
            # a job's wait: those present plus those of its batch before it
            for name, val in (("get_N", s.N), ("get_Q", s.Q), ("get_w1", s.Q / fl), ("get_v1", s.N / fl)):
                v = cmp.call(name, ctx, getattr(B, name))
                if v is not None:
                    cmp.eq(name, ctx, val, v, rel=1e-6)
            for name, val in (("calc_l_moments", [m1, sum(j * j * q for j, q in enumerate(probs, 1))]),
                              ("calc_L", [sum(probs[j:]) for j in range(len(probs) + 1)])):
                v = cmp.call(name, ctx, getattr(B, name))
                if v is not None:
                    cmp.eq(name, ctx, val, v)
    cmp.controls(Sol(chs[0], {"lam": .3, "mu": 1.0, "b1": 1.0}, False).N, [Sol(chs[1], {"lam": .15, "mu": 1.0, "b2": 1.0}, False).N], "batch size")


# --------------------------------------------------------------------------- laws and quadrature
class LawOf:
    """A duration's law by its quantile function and density (scipy), independent of the code's classes."""

    def __init__(self, kind, **p):
        from scipy import stats
        self.kind, self.p, self.poly = kind, p, None
        if kind == "gamma":
            self.d = stats.gamma(p["alpha"], scale=1.0 / p["mu"])
        elif kind == "uniform":
            self.d = stats.uniform(p["mean"] - p["half"], 2 * p["half"])
        elif kind == "pareto":
            self.d = stats.pareto(p["a"], scale=p["k"])
        elif kind == "h2":
            self.d = None

    def raw(self, num):
        k, p = self.kind, self.p
        if k == "gamma":
            return [float(np.prod([(p["alpha"] + j) / p["mu"] for j in range(i)])) for i in range(1, num + 1)]
        if k == "uniform":
            a, b = p["mean"] - p["half"], p["mean"] + p["half"]
            return [(b ** (i + 1) - a ** (i + 1)) / ((i + 1) * (b - a)) for i in range(1, num + 1)]
        if k == "pareto":
            return [p["a"] * p["k"] ** i / (p["a"] - i) for i in range(1, num + 1) if p["a"] > i]

    def nodes(self, m=60, parts=14):
        t, w = self.plain_nodes(m)
        return t, (w * np.polyval(self.poly[::-1], t) if self.poly is not None else w)

    def correct(self, mom):
        """The law with this density times the polynomial that gives it the moments mom."""
        m = [1.0] + self.raw(2 * len(mom))
        k = len(mom) + 1
        self.poly = np.linalg.solve([[m[i + j] for j in range(k)] for i in range(k)], [1.0] + list(mom))
        return self

    def plain_nodes(self, m=60):
        """Quadrature nodes and weights in probability space, refined towards both ends."""
        x, w = np.polynomial.legendre.leggauss(m)
        cuts = sorted({0.0, 1.0} | {0.5 ** i for i in range(1, 40)} | {1 - 0.5 ** i for i in range(1, 40)})
        us, ws = [], []
        for a, b in zip(cuts, cuts[1:]):
            us.append(1 - (a + (b - a) * (x + 1) / 2)), ws.append(w * (b - a) / 2)
        u, w = np.concatenate(us), np.concatenate(ws)
        # u holds tail probabilities; isf is accurate for small ones
        return self.d.isf(u), w

    def poisson_mix(self, rate, num):
        """P(a Poisson(rate) stream has j events during the duration), j < num."""
        from scipy import stats
        t, w = self.nodes(20)
        return np.array([float((w * stats.poisson.pmf(j, rate * t)).sum()) for j in range(num)])

    def lst(self, s):
        t, w = self.nodes(20)
        return float((w * np.exp(-s * t)).sum())


def embed(ch, par):
    A, B, R = ch.rates(par)
    n = len(ch.states)
    # rows lumped at the cap keep the remaining probability
    row = np.zeros(n)
    np.add.at(row, A, R)
    top = ch.index[key(max(ch.states))]
    A = np.concatenate([A, np.arange(n)])
    B = np.concatenate([B, np.full(n, top)])
    R = np.concatenate([R, np.maximum(0.0, 1.0 - row)])
    pi = stationary(n, A, B, R)
    out = np.zeros(n)
    for i, s in enumerate(ch.states):
        out[s] = pi[i]
    return out


# --------------------------------------------------------------------------- T05
def t05(rep, cmp, r):
    from most_queue.theory import mg1_calc as G, mg1_warm_calc as W
    from most_queue.theory.utils import q_poisson_arrival_calc as Q
    erl = [1, 2, 3, 5]
    cap = 120
    cfgs = [mcfg(n=1, cap=cap, svc=erl_ph(k, "mu")) for k in erl] + [mcfg(n=1, cap=cap, svc=h2_ph("y", "m")), mcfg(n=1, cap=cap, svc=cox_ph("y", "m"))]
    warm = [(1, 1), (1, 2), (2, 1), (3, 2)]
    cfgs += [mcfg(n=1, cap=cap, svc=erl_ph(b, "mu"), warm=erl_ph(a, "mu")) for a, b in warm]
    chs = emitted(rep, "Markov", cfgs, MINV)
    ecap = 150
    emb, emb2 = emitted(rep, "Embedded", [{"kind": "mg1", "cap": x, "exc": False, "n": 1, "k": 1} for x in (ecap, 240)], EINV)
    reps = 4 if THOROUGH else 2
    for i, ch in enumerate(chs):
        for _ in range(reps):
            sc = logu(r, 0.2, 5)
            ro = rnd(r, 0.15, 0.8)
            if i < len(erl):
                par = {"mu": sc}
                ph = erl_ph(erl[i], "mu")
            elif i < len(erl) + 2:
                y = rnd(r, 0.1, 0.9)
                par = {"y1": y, "y2": 1 - y, "m1": sc, "m2": sc * logu(r, 0.25, 4)}
                ph = h2_ph("y", "m") if i == len(erl) else cox_ph("y", "m")
            else:
                a, b = warm[i - len(erl) - 2]
                par, ph = {"mu": sc}, erl_ph(b, "mu")
                ro = rnd(r, 0.15, 0.7)
            b = ph_moments(ph, par, 5)
            lam = ro / b[0]
            par["lam"] = lam
            if i < len(erl) + 2:
                s = Sol(ch, par)
                if s.p[-1] > 1e-11:
                    continue
                ctx = {"l": lam, "b": b, "stages": i}
                for num in (3, 2, 1, 4):
                    bb = b[:num + 1]
                    v = cmp.call("get_w", ctx, G.get_w, lam, bb, num)
                    if v is not None:
                        cmp.eq("get_w", ctx, s.w[:min(num, 3)], v, rel=1e-6)
                    v = cmp.call("get_v", ctx, G.get_v, lam, bb, num)
                    if v is not None:
                        cmp.eq("get_v", ctx, conv(s.w, b)[:min(num, 3)], v, rel=1e-6)
                if i < len(erl):
                    for num in (100, 30):
                        v = cmp.call("get_p", ctx, G.get_p, lam, b, num)
                        if v is not None:
                            cmp.eq("get_p", ctx, s.p[:min(num, 40)], v, ab=1e-8)
            else:
                a, bb = warm[i - len(erl) - 2]
                s = Sol(ch, par)
                if s.p[-1] > 1e-11:
                    continue
                bw = ph_moments(erl_ph(a + bb, "mu"), par, 5)
                ctx = {"l": lam, "b": b, "b_warm": bw}
                v = cmp.call("warm.get_v", ctx, W.get_v, lam, b, bw)
                if v is not None:
                    cmp.eq("warm.get_v", ctx, conv(s.w, b), v, rel=1e-6)
    # laws without stages: the chain embedded at departures
    for kind in ("gamma", "uniform", "pareto", "gamma", "uniform", "pareto", "heavy", "heavy"):
        sc = logu(r, 0.2, 5)
        if kind == "heavy":      # most services are tiny, a few let dozens of jobs arrive
            al, ro = logu(r, 0.025, 0.06), rnd(r, 0.15, 0.25)
            law = LawOf("gamma", mu=sc, alpha=al)
            b, lam = law.raw(3), ro / (al / sc)
            q = law.poisson_mix(lam, 242)
            p = embed(emb2, {"q%d" % j: x for j, x in enumerate(q)})
            if p[-1] > 1e-9:
                continue
            ctx = {"kind": kind, "l": lam, "law": law.p, "b": b}
            v = cmp.call("get_q_Gamma", ctx, Q.get_q_Gamma, lam, sc, al, 100)
            if v is not None:
                cmp.eq("get_q_Gamma", ctx, q[:100], v, ab=2e-9)
            v = cmp.call("get_p.Gamma", ctx, G.get_p, lam, b, 100)
            if v is not None:
                cmp.eq("get_p.Gamma", ctx, p[:90], v, ab=1e-8)
            continue
        if kind == "gamma":
            law = LawOf("gamma", mu=sc, alpha=logu(r, 0.4, 6))
        elif kind == "uniform":
            law = LawOf("uniform", mean=sc, half=sc * rnd(r, 0.2, 0.98))
        else:
            law = LawOf("pareto", a=rnd(r, 3.1, 6), k=sc)
        b = law.raw(3)
        lam = rnd(r, 0.2, 0.6 if kind == "pareto" else 0.75) / b[0]
        q = law.poisson_mix(lam, ecap + 2)
        ctx = {"kind": kind, "l": lam, "law": law.p, "b": b}
        p = embed(emb, {"q%d" % j: x for j, x in enumerate(q)})
        if kind == "gamma":
            mine, v = "Gamma", cmp.call("get_q_Gamma", ctx, Q.get_q_Gamma, lam, law.p["mu"], law.p["alpha"], 60)
        elif kind == "uniform":
            mine, v = "Uniform", cmp.call("get_q_uniform", ctx, Q.get_q_uniform, lam, law.p["mean"], law.p["half"], 60)
        else:
            mine, v = "Pa", cmp.call("get_q_Pareto", ctx, Q.get_q_Pareto, lam, law.p["a"], law.p["k"], 60)
        if v is not None:
            cmp.eq("get_q_" + mine, ctx, q[:25], v, ab=2e-8)
        v = cmp.call("get_p." + mine, ctx, G.get_p, lam, b, 60, mine)
        if v is not None:
            cmp.eq("get_p." + mine, ctx, p[:15], v, rel=1e-5, ab=1e-6)
    a = embed(emb, {"q%d" % j: x for j, x in enumerate(LawOf("gamma", mu=2., alpha=1.).poisson_mix(1.0, ecap + 2))})
    cmp.controls(a[1], [Sol(chs[1], {"mu": 4.0, "lam": 1.0}, False).p[1]], "service law")
    if abs(a[1] - 0.25) > 1e-8:
        raise CheckError("embedded chain inconsistent with M/M/1")


# --------------------------------------------------------------------------- T06
def death_weights(law, mu, n, cap):
    """d<j>_<d>: of j jobs with n servers (exponential, mu) d leave during the duration."""
    from scipy.linalg import expm
    G = np.zeros((cap + 1, cap + 1))
    for j in range(1, cap + 1):
        G[j, j - 1] = min(j, n) * mu
        G[j, j] = -min(j, n) * mu
    t, w = law.nodes(8)
    # uniformised powers shared by all quadrature nodes
    L = n * mu
    P = np.eye(cap + 1) + G / L
    from scipy import stats
    mx = cap * 3 + 60
    res = np.zeros_like(G)
    cur = np.eye(cap + 1)
    cum = 0.0
    for m in range(mx):
        wt = float((w * stats.poisson.pmf(m, L * t)).sum())
        res += wt * cur
        cum += wt
        cur = cur @ P
    res += (1.0 - cum) * cur
    return {"d%d_%d" % (j, d): res[j, j - d] for j in range(cap + 1) for d in range(j + 1)}


def t06(rep, cmp, r):
    from most_queue.theory import gi_m_1_calc as G1, gi_m_n_calc as GN
    cap = 90
    erl = [1, 2, 3]
    ns = [1, 2, 3, 5, 8, 10] if THOROUGH else [1, 2, 4, 5, 8]
    cfgs = [mcfg(n=n, cap=cap, arr=erl_ph(k, "lam")) for k in erl for n in ns]
    chs = emitted(rep, "Markov", cfgs, MINV)
    ecap = 60
    emb, = emitted(rep, "Embedded", [{"kind": "gimn", "cap": ecap, "exc": False, "n": 1, "k": 1}], EINV)
    i = 0

    def compare(a, mu, n, pi, p, w, ctx, dist, num=50, rel=1e-6, ab=1e-7):
        v = conv(w, [1 / mu, 2 / mu ** 2, 6 / mu ** 3])
        for nm, M, args in ([("gim1.", G1, ())] if n == 1 else []) + [("gimn.", GN, (n,))]:
            for f, exp in (("get_pi", pi[:num]), ("get_p", p[:num]), ("get_w", w), ("get_v", v)):
                kw = {"approx_distr": dist}
                if f in ("get_pi", "get_p"):
                    kw["num"] = 80
                got = cmp.call(nm + f, ctx, getattr(M, f), a, mu, *args, **kw)
                if got is not None:
                    cmp.eq(nm + f, ctx, exp, got, rel=rel if f != "get_w" and f != "get_v" else 1e-5, ab=ab)
        if hasattr(GN, "get_w_pls"):                # transform of the wait, over the jobs that wait
            for z in (0.0, 0.4 * mu, 5.0 * mu):
                got = cmp.call("gimn.get_w_pls", ctx, lambda: GN.get_w_pls(n, mu, GN.get_pi(a, mu, n, approx_distr=dist)[n], GN.get_w_param(a, mu, n, approx_distr=dist), z))
                if got is not None:
                    cmp.eq("gimn.get_w_pls", dict(ctx, s=z), sum(x * (n * mu / (n * mu + z)) ** (j - n + 1) for j, x in enumerate(pi) if j >= n), got, rel=1e-6, ab=ab)

    for k in erl:
        for n in ns:
            for q in range(3 if THOROUGH else 2):
                mu = logu(r, 0.3, 3)
                ro = rnd(r, 0.2, 0.75)
                if q == 0 and k == 1:
                    ro = r.choice([j / n for j in range(1, n) if 0.1 < j / n < 0.76] or [0.5])       # n (1 - w) is whole
                par = {"lam": ro * n * mu * k, "mu": mu}
                s = Sol(chs[i], par)
                if s.p[-1] < 1e-11:
                    a = ph_moments(erl_ph(k, "lam"), par, 3)
                    ctx = {"a": a, "mu": mu, "n": n, "arrivals": "Erlang %d" % k}
                    compare(a, mu, n, s.parr, s.p, s.w, ctx, "Gamma")
            i += 1
    for kind in ("gamma", "pareto", "gamma", "pareto", "gamma", "pareto") + ("poly",) * (12 if THOROUGH else 6) + ("regular",) * (6 if THOROUGH else 3):
        n = r.choice([1, 2, 3]) if i % 2 else 1
        i += 1
        mu = logu(r, 0.3, 3)
        if kind == "gamma":
            al = rnd(r, 0.45, 3.5)
        if kind == "regular":
            al = logu(r, 60, 900)
            n = r.choice([1, 2, 3])
        if kind in ("gamma", "regular"):
            law = LawOf("gamma", alpha=al, mu=al * n * mu * rnd(r, 0.2, 0.65))
        elif kind == "poly":
            # more moments than a gamma law has parameters: those of a mixture of two gamma laws next to each other
            n = r.choice([1, 2, 3])
            al, rate = rnd(r, 0.7, 2.5), rnd(r, 0.2, 0.55) * n * mu
            q, z = rnd(r, 0.2, 0.8), rnd(r, 1.3, 2.2)
            m1, m2 = (LawOf("gamma", alpha=al, mu=al * rate * x).raw(4) for x in (1.0, z))
            mom = [q * x + (1 - q) * y for x, y in zip(m1, m2)][:r.choice([3, 4])]
            v = mom[0] / (mom[1] - mom[0] ** 2)
            law = LawOf("gamma", alpha=v * mom[0], mu=v).correct(mom)
        else:
            aa = rnd(r, 3.1, 7)
            # mean = a k / (a-1) = 1 / (ro n mu)
            law = LawOf("pareto", a=aa, k=(aa - 1) / aa / (rnd(r, 0.04, 0.65) * n * mu))
        a = mom if kind == "poly" else law.raw(3)
        pi = embed(emb, death_weights(law, mu, n, ecap))
        if pi[-1] > 1e-10:
            continue
        lam = 1 / a[0]
        p = [0.0] + [lam * pi[j - 1] / (min(j, n) * mu) for j in range(1, ecap + 1)]
        p[0] = 1.0 - sum(p)
        w = [0.0] * 3
        for j in range(n, ecap + 1):
            e = j - n + 1
            w[0] += pi[j] * e / (n * mu)
            w[1] += pi[j] * e * (e + 1) / (n * mu) ** 2
            w[2] += pi[j] * e * (e + 1) * (e + 2) / (n * mu) ** 3
        compare(a, mu, n, pi, p, w, {"a": a, "mu": mu, "n": n, "arrivals": kind, "law": law.p}, "Pa" if kind == "pareto" else "Gamma", num=20)
    cmp.controls(Sol(chs[0], {"lam": .5, "mu": 1.0}, False).p[1], [Sol(chs[len(ns)], {"lam": 1.0, "mu": 1.0}, False).p[1]], "arrival law")


# --------------------------------------------------------------------------- T07
def t07(rep, cmp, r):
    from scipy import stats
    from most_queue.theory.m_d_n_calc import M_D_n
    from most_queue.theory.ek_d_n_calc import Ek_D_n
    ns = [1, 2, 3, 4, 5] + ([7] if THOROUGH else [])
    ek = [(1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (2, 3), (3, 1)] + ([(4, 2), (3, 3), (2, 4)] if THOROUGH else [])
    cfgs = [{"kind": "mdn", "n": n, "k": 1, "cap": 110, "exc": False} for n in ns] + \
           [{"kind": "ekdn", "n": n, "k": k, "cap": 150, "exc": False} for k, n in ek]
    chs = emitted(rep, "Embedded", cfgs, EINV)
    for i, ch in enumerate(chs):
        for _ in range(4 if THOROUGH else 2):
            c = cfgs[i]
            n, k = c["n"], c["k"]
            b = logu(r, 0.2, 5)
            ro = rnd(r, 0.2, 0.8)
            l = ro * n * k / b            # rate of arrival phases
            p = embed(ch, {"q%d" % j: x for j, x in enumerate(stats.poisson.pmf(np.arange(c["cap"] + 2), l * b))})
            if p[-1] > 1e-12:
                continue
            if c["kind"] == "mdn":
                ctx = {"l": l, "b": b, "n": n}
                got = cmp.call("mdn.calc_p", ctx, lambda: M_D_n(l, b, n).calc_p())
                jobs = p
                nm = "mdn.calc_p"
            else:
                ctx = {"l": l, "k": k, "b": b, "n": n}
                got = cmp.call("ekdn.calc_p", ctx, lambda: Ek_D_n(l, k, b, n).calc_p())
                jobs = [p[j * k:(j + 1) * k].sum() for j in range(len(p) // k)]
                nm = "ekdn.calc_p"
            if got is not None:
                cmp.eq(nm, ctx, jobs[:n + 4], got, rel=1e-5, ab=1e-7)
                cmp.eq(nm + ".rest", ctx, jobs[n + 4:40], got[n + 4:40], rel=1e-2, ab=5e-4)
                cmp.eq(nm + ".sum", ctx, 1.0, float(sum(got)), rel=5e-3)
    a = embed(chs[0], {"q%d" % j: x for j, x in enumerate(stats.poisson.pmf(np.arange(120), 0.5))})
    if abs(a[0] - 0.5) > 1e-9:
        raise CheckError("M/D/1 reference")
    cmp.controls(a[1], [embed(chs[1], {"q%d" % j: x for j, x in enumerate(stats.poisson.pmf(np.arange(120), 1.0))})[1]], "servers")


# --------------------------------------------------------------------------- T08, T09
def h2_par(y, m, b):
    """The branch probabilities and rates (possibly complex) with the three moments b."""
    f = [b[0], b[1] / 2, b[2] / 6]
    if abs(b[1] / b[0] ** 2 - 2) < 1e-9:
        return {y + "1": 1.0 + 0j, y + "2": 0j, m + "1": 1 / f[0] + 0j, m + "2": 1 / f[0] + 0j}
    # 1/mu_1, 1/mu_2 are the roots of x^2 - c1 x + c0
    d = f[1] - f[0] ** 2
    if shifted(b):
        f[2] *= 1 + 1e-5j       # phases (nearly) coincide
    c1 = (f[2] - f[0] * f[1]) / d
    c0 = c1 * f[0] - f[1]
    q = (complex(c1 * c1 - 4 * c0)) ** 0.5
    x1, x2 = (c1 + q) / 2, (c1 - q) / 2
    y1 = (f[0] - x2) / (x1 - x2)
    return {y + "1": y1, y + "2": 1 - y1, m + "1": 1 / x1, m + "2": 1 / x2}


def some_moments(r, mean, cv=None):
    """Three moments of a hyper-exponential (cv > 1) or of an Erlang-like law (cv < 1)."""
    if cv is None:
        cv = r.choice(["hyper", "low", "hyper", "low", "erl2", "exp"])
    if cv == "hyper":
        y, a = rnd(r, 0.1, 0.9), logu(r, 2, 8)
        x = mean / (y + (1 - y) / a)
        m = [y * x ** k + (1 - y) * (x / a) ** k for k in (1, 2, 3)]
        return [m[0], 2 * m[1], 6 * m[2]]
    if cv == "exp":
        return [mean, 2 * mean ** 2, 6 * mean ** 3]
    al = 2.002 if cv == "erl2" else rnd(r, 1.3, 4.0)
    t = mean / al
    return [al * t, al * (al + 1) * t ** 2, al * (al + 1) * (al + 2) * t ** 3]


def tame(*pars, n=1):
    """Whether the parameters are moderate: complex rates far from the imaginary axis, and, for many servers, branch weights whose
    n-th powers (the weights of the states of n busy servers) stay moderate; the iteration of the solvers need not settle otherwise."""
    return all(all(v.real > 0.2 * abs(v) for k, v in p.items() if k[0] == "m")
               and (n < 4 or sum(abs(v) for k, v in p.items() if k[0] == "y") ** n < 1e3) for p in pars)


def shifted(*bs):
    """Whether a fit may move the third moment a little because the phases (nearly) coincide (Erlang-2 and the like)."""
    for b in bs:
        f1, f2, f3 = b[0], b[1] / 2, b[2] / 6
        z = f2 - f1 * f1
        if abs(z) < 2.1e-3 * f1 * f1:
            continue
        c0, c1 = (f1 * f3 - f2 * f2) / z, (f1 * f2 - f3) / z
        if abs(c1 * c1 / 4 - c0) < 1.01e-3 * abs(c0):
            return True
    return False


def queue_compare(rep, cmp, nm, ctx, s, m, b, num, cap, modes=(), wrel=1e-6, prel=1e-7, ab=1e-8, scale=1.0):
    """Probabilities, mode probabilities and waiting / sojourn moments of a solver against the chain s."""
    k = min(num, len(s.p))
    P = cmp.call(nm + ".get_p", ctx, m.get_p)
    if P is not None:
        cmp.eq(nm + ".get_p", ctx, s.p[:k], P, rel=prel, ab=ab)
        if cap is not None:
            cmp.eq(nm + ".get_p.rest", ctx, 0.0, abs(sum(P[cap + 1:])), ab=1e-12)
        cmp.eq(nm + ".get_p.sum", ctx, 1.0, sum(P), ab=1e-6)
    for mode, f in modes:
        v = cmp.call(nm + "." + f, ctx, getattr(m, f))
        if v is not None:
            cmp.eq(nm + "." + f, ctx, s.mode[mode], v, rel=prel * 10, ab=ab)
    w = cmp.call(nm + ".get_w", ctx, m.get_w)
    if w is not None:
        for i in range(3):
            cmp.eq(nm + ".get_w", dict(ctx, moment=i + 1), s.w[i], w[i], rel=wrel[i] if isinstance(wrel, (list, tuple)) else wrel, ab=ab * scale ** (i + 1))
    v = cmp.call(nm + ".get_v", ctx, m.get_v)
    if v is not None:
        e = conv(s.w, b)
        for i in range(3):
            cmp.eq(nm + ".get_v", dict(ctx, moment=i + 1), e[i], v[i], rel=wrel[i] if isinstance(wrel, (list, tuple)) else wrel, ab=ab * scale ** (i + 1))


SHIFT = dict(prel=2e-3, wrel=[2e-3, 5e-3, 1e-2], ab=1e-4)


def t08(rep, cmp, r):
    from most_queue.theory.mgn_tt import MGnCalc
    CAP = 120
    shapes = [(n, None) for n in (1, 2, 3, 5, 9)] + [(1, 0), (2, 0), (1, 1), (1, 3), (2, 1), (3, 2), (3, 8), (4, 5), (7, 12)]
    if THOROUGH:
        shapes += [(8, None), (12, None), (5, 0), (5, 20), (2, 40), (8, 3)]
    S = h2_ph("y", "m")
    chs = emitted(rep, "Markov", [mcfg(n=n, cap=CAP if q is None else n + q, svc=S) for n, q in shapes], MINV)
    for (n, q), ch in zip(shapes, chs):
        for i in range(8 if THOROUGH else 4 if n < 6 else 2):
            sc = logu(r, 0.2, 5)
            b = some_moments(r, sc * n, ["hyper", "low", "exp", "erl2"][i % 4])
            ro = rnd(r, 0.2, 0.75) if q is None else rnd(r, 0.2, 2.0)
            par = h2_par("y", "m", b)
            if not tame(par, n=n):
                continue
            par["lam"] = l = ro * n / b[0]
            s = Sol(ch, par)
            if q is None and abs(s.p[-1]) > 1e-9:
                continue
            ctx = {"n": n, "l": l, "b": b, "buffer": q}
            m = cmp.call("init", ctx, MGnCalc, n, l, b, buffer=q, accuracy=1e-13 if n < 6 else 1e-9)
            if m is None or cmp.call("run", ctx, lambda: m.run() or 1) is None:
                continue
            t = SHIFT if shifted(b) else {} if n < 6 else dict(prel=1e-6, wrel=1e-4, ab=1e-7)
            queue_compare(rep, cmp, "mgn", ctx, s, m, b, 60, None if q is None else n + q, scale=b[0], **t)
            m = cmp.call("init", ctx, MGnCalc, n, l, b, buffer=q)
            if m is not None and cmp.call("run", ctx, lambda: m.run() or 1) is not None:
                P = cmp.call("mgn.default", ctx, m.get_p)
                if P is not None:
                    cmp.eq("mgn.default.get_p", ctx, s.p[:40], P, rel=1e-3, ab=1e-3)
    a = Sol(chs[1], dict(h2_par("y", "m", [1., 3., 15.]), lam=1.0))
    cmp.controls(a.p[0], [Sol(chs[1], dict(h2_par("y", "m", [1., 2.999, 15.]), lam=1.0)).p[0], Sol(chs[2], dict(h2_par("y", "m", [1., 3., 15.]), lam=1.0)).p[0]], "moments, servers")


def t09(rep, cmp, r):
    from most_queue.theory.m_h2_h2warm import Mh2h2Warm
    from most_queue.theory.mmn_with_h2_cold_and_h2_warmup import MMn_H2warm_H2cold
    from most_queue.theory.mgn_with_h2_delay_cold_warm import MGnH2ServingColdWarmDelay
    CAP = 110
    S, W, Cd, De = h2_ph("y", "m"), h2_ph("yw", "mw"), h2_ph("yc", "mc"), h2_ph("yd", "md")
    kinds = []
    for n, q in [(1, None), (2, None), (3, None), (1, 0), (1, 2), (2, 0), (2, 3), (3, 1)] + ([(5, None), (5, 7), (4, 0)] if THOROUGH else []):
        for kind in ("warm", "first", "coldwarm", "delay"):
            kinds.append((kind, n, q))
    kinds += [("warm", 6, None), ("warm", 8, None), ("delay", 5, None), ("delay", 7, None), ("delay", 4, 6), ("coldwarm", 6, None)]
    cf = {"warm": dict(svc=S, warm=W), "first": dict(svc=S, first=W), "coldwarm": dict(warm=W, cold=Cd), "delay": dict(svc=S, warm=W, cold=Cd, delay=De)}
    chs = emitted(rep, "Markov", [mcfg(n=n, cap=CAP if q is None else n + q, **cf[kind]) for kind, n, q in kinds], MINV)
    for (kind, n, q), ch in zip(kinds, chs):
        for i in range(6 if THOROUGH else 3 if q is None else 2):
            sc = logu(r, 0.05, 20)
            b = some_moments(r, sc * n, "exp" if kind == "coldwarm" else ["hyper", "low", None][i % 3])
            l = (rnd(r, 0.2, 0.7) if q is None else rnd(r, 0.2, 1.6)) * n / b[0]
            bw, bc, bd = (some_moments(r, sc * logu(r, 0.3, 3)) for _ in range(3))
            pars = [h2_par(y, m, x) for y, m, x in (("y", "m", b), ("yw", "mw", bw), ("yc", "mc", bc), ("yd", "md", bd))]
            if not (tame(*pars) and (kind == "coldwarm" or tame(pars[0], n=n))):
                continue
            par = {"lam": l, "mu": 1 / b[0]}
            for x in pars:
                par.update(x)
            s = Sol(ch, par)
            if q is None and abs(s.p[-1]) > 1e-9:
                continue
            ctx = {"kind": kind, "n": n, "l": l, "b": b, "warm": bw, "buffer": q}
            kw = {"accuracy": 1e-13 if n < 6 else 1e-9, "buffer": q}
            if kind in ("warm", "first"):
                m = cmp.call("init", ctx, Mh2h2Warm, l, b, bw, n, is_only_first=kind == "first", **kw)
                modes = []
            elif kind == "coldwarm":
                ctx["cold"] = bc
                m = cmp.call("init", ctx, MMn_H2warm_H2cold, l, 1 / b[0], bw, bc, n, **kw)
                modes = [("warm", "get_warmup_prob"), ("cold", "get_cold_prob")]
            else:
                ctx["cold"], ctx["delay"] = bc, bd
                m = cmp.call("init", ctx, MGnH2ServingColdWarmDelay, l, b, bw, bc, bd, n, stable_w_pls=True, w_pls_dt=1e-3, **kw)
                modes = [("warm", "get_warmup_prob"), ("cold", "get_cold_prob"), ("delay", "get_cold_delay_prob")]
            if m is None or cmp.call("run", ctx, lambda: m.run() or 1) is None:
                continue
            t = dict(wrel=1e-6 if kind in ("first", "warm") else [1e-5, 1e-4, 5e-3])
            if n >= 6:
                t = dict(prel=1e-6, wrel=[1e-5, 1e-4, 5e-3], ab=1e-7)
            if shifted(*([bw, bc, bd] + ([] if kind == "coldwarm" else [b]))):
                t = SHIFT
            queue_compare(rep, cmp, kind, ctx, s, m, b, 60, None if q is None else n + q, modes, scale=sc, **t)
            if kind != "first" and t is not SHIFT and hasattr(m, "calc_w_pls"):        # transform of the wait, over the jobs that wait
                for z in (0.3 / sc, 4.0 / sc):
                    v = cmp.call(kind + ".calc_w_pls", ctx, m.calc_w_pls, z)
                    if v is not None:
                        cmp.eq(kind + ".calc_w_pls", dict(ctx, s=z), (s.wlst(z) - s.atom()).real, complex(v).real, rel=max(1e-6, t.get("prel", 0)), ab=t.get("ab", 1e-8))
            if kind == "delay":
                v = cmp.call("delay.get_idle_prob", ctx, m.get_idle_prob)
                if v is not None:
                    cmp.eq("delay.get_idle_prob", ctx, s.p[0] - s.mode["delay"] - s.cold0, v, rel=t.get("prel", 1e-7), ab=t.get("ab", 1e-9))
    j = kinds.index(("coldwarm", 1, None))
    P = {"lam": .5, "mu": 1.}
    for y, m, x in (("yw", "mw", [1., 3., 15.]), ("yc", "mc", [2., 9., 70.])):
        P.update(h2_par(y, m, x))
    Q = dict(P, **h2_par("yc", "mc", [2.001, 9., 70.]))
    cmp.controls(Sol(chs[j], P).mode["warm"], [Sol(chs[j], Q).mode["warm"], Sol(chs[j + 2], P).mode["warm"] if kinds[j + 2][0] == "coldwarm" else 0.0], "cooling time")


# --------------------------------------------------------------------------- T10, T11
PINV = ["TypeOK", "NoIdling", "Order", "Complete", "OneInterrupted", "Victim", "Alive"]


def pcfg(n, pol, svcs, cap):
    return {"n": n, "cap": cap, "pol": pol, "cls": [{"arr": ["l%d" % (j + 1)], "svc": v} for j, v in enumerate(svcs)]}


def own(kind, j):
    """A service law of the named shape whose parameters belong to class j."""
    return {"M": exp_ph("m%d_" % j), "H": h2_ph("y%d_" % j, "m%d_" % j), "E": erl_ph(2, "m%d_" % j), "E3": erl_ph(3, "m%d_" % j),
            "C": cox_ph("y%d_" % j, "m%d_" % j)}[kind]


def own_par(r, kind, j, mean):
    """Random parameters of own(kind, j) with the given mean."""
    a = "m%d_" % j
    if kind in ("M", "E", "E3"):
        return {a: {"M": 1, "E": 2, "E3": 3}[kind] / mean}
    y = rnd(r, 0.1, 0.9)
    q = logu(r, 2, 6) if r.random() < 0.5 else logu(r, 0.2, 0.5)
    p = {"y%d_1" % j: y, "y%d_2" % j: 1 - y}
    x = mean / (y + (1 - y) / q) if kind == "H" else mean / (1 + y / q)
    p[a + "1"], p[a + "2"] = 1 / x, q / x
    return p


class PSol:
    """A Prio.tla chain with numbers: stationary law, and the times of a tagged job of a class."""

    def __init__(self, ch, cfg, par, solve=True):
        self.ch, self.cfg = ch, cfg
        S = ch.states
        self.n = len(S)
        self.A, self.B, self.R = ch.rates(par)
        self.ev = ch.events()
        self.K = len(cfg["cls"])
        self.par = par
        self.srv = np.array([[sum(x) for x in s["x"]] for s in S])
        self.wt = np.array([[q + len(i) for q, i in zip(s["q"], s["it"])] for s in S])
        self.num = self.srv + self.wt
        self.lam = [np.prod([par[f] for f in c["arr"]]) for c in cfg["cls"]]
        if solve:
            self.pi = stationary(self.n, self.A, self.B, self.R)
            self.tail = self.pi[self.num.sum(axis=1) == cfg["cap"]].sum()

    def p(self, j):
        return np.bincount(self.num[:, j], weights=self.pi)

    def acc(self, j):
        e = self.ev == "arr%d" % (j + 1)
        w = self.pi[self.A[e]] * self.R[e]
        return w.sum()

    def mean(self, j):
        """Mean sojourn time of class j (Little's law)."""
        return (self.pi * self.num[:, j]).sum() / self.acc(j)

    def _sub(self, drop):
        """Edges without the arrivals of the classes >= drop."""
        k = np.ones(len(self.A), dtype=bool)
        for j in range(drop, self.K):
            k &= self.ev != "arr%d" % (j + 1)
        return k

    def _arrive(self, j):
        """(targets, weights) of the arrivals of class j in equilibrium."""
        e = self.ev == "arr%d" % (j + 1)
        w = self.pi[self.A[e]] * self.R[e]
        return self.A[e], self.B[e], w / w.sum()

    def np_wait(self, j, count=3):
        k = self._sub(j)
        A, B, R, ev = self.A[k], self.B[k].copy(), self.R[k], self.ev[k]
        B[(ev == "svc") & (self.wt[A][:, :j + 1].sum(axis=1) == 0)] = self.n
        ab = np.append(self.srv.sum(axis=1) < self.cfg["n"], True)
        m = absorb_moments(self.n + 1, A, B, R, ab, count)
        a, _, w = self._arrive(j)
        # a job arriving at several targets (initial stages) is the same job: its wait depends on the found state
        return [float((x[a] * w).sum()) for x in m]

    def _absorb(self, j, upto, count=3):
        k = self._sub(j)
        ab = self.num[:, :upto + 1].sum(axis=1) == 0
        return absorb_moments(self.n, self.A[k], self.B[k], self.R[k], ab, count)

    def pr_wait(self, j, count=3):
        m = self._absorb(j, j, count)
        a, _, w = self._arrive(j)
        return [float((x[a] * w).sum()) for x in m]

    def pr_sojourn(self, j, count=3):
        m = self._absorb(j, j, count)
        _, b, w = self._arrive(j)
        return [float((x[b] * w).sum()) for x in m]

    def _single(self, j):
        """(states, weights): a class-j job has just begun service in an empty system."""
        e = (self.ev == "arr%d" % (j + 1)) & (self.num[self.A].sum(axis=1) == 0)
        return self.B[e], self.R[e] / self.R[e].sum()

    def active(self, j, count=3):
        """First service start to completion."""
        m = self._absorb(j, j, count)
        b, w = self._single(j)
        return [float((x[b] * w).sum()) for x in m]

    def busy(self, j, count=3):
        """Busy period of the classes <= j, begun by one of them."""
        m = self._absorb(j + 1, j, count)
        out = [0.0] * count
        for i in range(j + 1):
            b, w = self._single(i)
            for c in range(count):
                out[c] += self.lam[i] / sum(self.lam[:j + 1]) * float((m[c][b] * w).sum())
        return out

    def pr_not_served(self, j, count=3):
        """Time of a class-j job out of service, interruptions included (one server)."""
        import scipy.sparse as sp
        import scipy.sparse.linalg as sl
        k = self._sub(j)
        A, B, R = self.A[k], self.B[k], self.R[k]
        t = self.num[:, :j + 1].sum(axis=1) > 0
        rew = np.where((self.num[:, j] == 1) & (self.srv[:, j] == 1), 0.0, 1.0)
        pos = np.cumsum(t) - 1
        m = int(t.sum())
        g = (A != B) & t[A]
        A, B, R = A[g], B[g], R[g]
        d = np.zeros(m)
        np.add.at(d, pos[A], R)
        k2 = t[B]
        lu = sl.splu(sp.csc_matrix(sp.diags(d) - sp.coo_matrix((R[k2], (pos[A][k2], pos[B][k2])), shape=(m, m)).tocsc()))
        _, b, w = self._arrive(j)
        prev, out = np.ones(m), []
        for c in range(1, count + 1):
            prev = c * lu.solve(rew[t] * prev)
            out.append(float((prev[pos[b]] * w).sum()))
        return out


def t10(rep, cmp, r):
    from most_queue.theory import priority_calc as P
    shapes = [("PR", "HE"), ("NP", "HE"), ("PR", "EC"), ("NP", "CM"), ("PR", "MHM"), ("NP", "EMH"), ("PR", "H"), ("NP", "MM"), ("PR", "MMM")]
    if THOROUGH:
        shapes += [("PR", "EHC"), ("NP", "HEC"), ("PR", "MMMM"), ("NP", "MMMM")]
    CAP = {1: 90, 2: 45, 3: 22, 4: 14}
    ROMAX = {1: 0.75, 2: 0.55, 3: 0.3, 4: 0.15}
    cfgs = [pcfg(1, pol, [own(k, j + 1) for j, k in enumerate(ks)], CAP[len(ks)]) for pol, ks in shapes]
    chs = emitted(rep, "Prio", cfgs, PINV, workers=8)
    for (pol, ks), cfg, ch in zip(shapes, cfgs, chs):
        K = len(ks)
        for i in range(6 if THOROUGH else 3):
            sc = logu(r, 0.02, 50)
            means = [sc * logu(r, 0.5, 2) for _ in ks]
            ro = rnd(r, 0.1, ROMAX[K])
            sh = [r.uniform(0.3, 1) for _ in ks]
            l = [ro * x / sum(sh) / m for x, m in zip(sh, means)]
            par = {}
            for j, k in enumerate(ks):
                par.update(own_par(r, k, j + 1, means[j]))
                par["l%d" % (j + 1)] = l[j]
            b = [ph_moments(cfg["cls"][j]["svc"], par, 6) for j in range(K)]
            s = PSol(ch, cfg, par)
            if s.tail > 1e-9:
                continue
            ctx = {"policy": pol, "l": l, "b": [x[:4] for x in b]}
            mix = [sum(l[j] * b[j][t] for j in range(K)) / sum(l) for t in range(3)]
            # the fit inside the multi-server solver needs a mixture it can represent
            fits = tame(h2_par("y", "m", mix)) and not shifted(mix)

            def mom(clause, exp, got, c, m=None):
                for t in range(len(exp)):
                    cmp.eq(clause, dict(ctx, cls=c + 1, moment=t + 1), exp[t], got[t] if got is not None and t < len(got) else float("nan"),
                           rel=1e-6 if s.tail < 1e-12 else 1e-5, ab=1e-9 * sc ** (t + 1))
            if pol == "PR":
                w1 = cmp.call("get_w1_pr", ctx, P.get_w1_pr, l, b)
                got = cmp.call("calc_pr1", ctx, P.calc_pr1, l, [x[:4] for x in b])
                inv = cmp.call("get_w_prty_invar.PR", ctx, P.get_w_prty_invar, l, [x[:4] for x in b], 1, "PR")
                cl = cmp.call("climov", ctx, P.climov_w_pr_calc, l, b)
                for j in range(K):
                    ns = s.pr_not_served(j)
                    v = s.pr_sojourn(j)
                    if w1 is not None:
                        mom("get_w1_pr", ns[:1], [w1[j]], j)
                    w = s.pr_wait(j)
                    if got is not None:
                        mom("calc_pr1.w", w, got["w"][j], j)
                        mom("calc_pr1.v", v, got["v"][j], j)
                        mom("calc_pr1.h", s.active(j), got["h"][j], j)
                        mom("calc_pr1.pnz", s.busy(j), got["pnz"][j], j)
                        # known: the second and third moments are those of v with b removed as if independent of the rest of v
                        g, d = got["w_with_pr"][j], deconv(v, b[j])
                        mom("calc_pr1.w_with_pr", ns[:1], g, j)
                        for t in (1, 2):
                            c = dict(ctx, cls=j + 1, moment=t + 1)
                            if j > 0 and abs(g[t] - d[t]) < 1e-5 * v[t] and abs(g[t] - ns[t]) > 1e-5 * v[t]:
                                rep.violate("calc_pr1.w_with_pr.deconvolved", "moments 2 and 3 of the waiting time with interruptions ignore that the interruptions depend on the service time (%s instead of %s)" % (g[t], ns[t]), {"ctx": c})
                            else:
                                cmp.eq("calc_pr1.w_with_pr", c, ns[t], g[t], rel=1e-5, ab=1e-5 * v[t])
                    if cl is not None:
                        mom("climov", w[:2], cl[j], j)
                if inv is not None and fits:
                    for j in range(K):
                        cmp.eq("get_w_prty_invar.PR1", dict(ctx, cls=j + 1), s.pr_not_served(j)[0], inv[j][0], rel=1e-3, ab=1e-6 * sc)
                L0 = l[0]
                pz = cmp.call("ppnz_calc", ctx, P.ppnz_calc, L0, b[0])
                mom("ppnz_calc", s.busy(0, 5), pz, 0)
                if K > 1 and pz is not None:
                    f = cmp.call("ppnz_calc_warm_up", ctx, P.ppnz_calc_warm_up, L0, b[1], s.busy(0, 5))
                    mom("ppnz_calc_warm_up", s.active(1, 5), f, 1)
            else:
                w1 = cmp.call("get_w1_np", ctx, P.get_w1_np, l, b)
                got = cmp.call("get_w_np", ctx, P.get_w_np, l, [x[:4] for x in b])
                gv = cmp.call("get_v_np", ctx, P.get_v_np, l, [x[:4] for x in b])
                inv = cmp.call("get_w_prty_invar.NP", ctx, P.get_w_prty_invar, l, [x[:4] for x in b], 1, "NP")
                for j in range(K):
                    w = s.np_wait(j)
                    if w1 is not None:
                        mom("get_w1_np", w[:1], [w1[j]], j)
                    mom("get_w_np", w, got and got[j], j)
                    mom("get_v_np", conv(w, b[j]), gv and gv[j], j)
                    if inv is not None and fits:
                        cmp.eq("get_w_prty_invar.NP1", dict(ctx, cls=j + 1), w[0], inv[j][0], rel=1e-3, ab=1e-6 * sc)
    # classes without priorities: one queue whose service law is the mixture of the classes
    mix = {"init": [[1, ["g1"]], [2, ["g2", "y2_1"]], [3, ["g2", "y2_2"]], [4, ["g3"]]],
           "out": [[[0, ["m1_"]]], [[0, ["m2_1"]]], [[0, ["m2_2"]]], [[5, ["m3_"]]], [[0, ["m3_"]]]]}
    # several servers, equal exponential classes: the conservation relation is exact
    mns = [2, 3, 6]
    mcf = [mcfg(n=1, cap=110, svc=mix)]
    (chm,) = emitted(rep, "Markov", mcf, MINV)
    nps = [pcfg(n, "NP", [exp_ph("mu"), exp_ph("mu")], 45) for n in mns]
    chn = emitted(rep, "Prio", nps, PINV)
    for i in range(6 if THOROUGH else 3):
        sc = logu(r, 0.02, 50)
        means = [sc * logu(r, 0.5, 2) for _ in range(3)]
        ro = rnd(r, 0.2, 0.75)
        sh = [r.uniform(0.3, 1) for _ in means]
        l = [ro * x / sum(sh) / m for x, m in zip(sh, means)]
        par = {"lam": sum(l)}
        for j, k in enumerate("MHE"):
            par.update(own_par(r, k, j + 1, means[j]))
            par["g%d" % (j + 1)] = l[j] / sum(l)
        b = [ph_moments(own(k, j + 1), par, 4) for j, k in enumerate("MHE")]
        s = Sol(chm, par)
        if abs(s.p[-1]) > 1e-9:
            continue
        mb = [sum(l[j] * b[j][t] for j in range(3)) / sum(l) for t in range(3)]
        fits = tame(h2_par("y", "m", mb)) and not shifted(mb)
        ctx = {"l": l, "b": b}
        w = cmp.call("get_w_mg1_bp", ctx, P.get_w_mg1_bp, l, b)
        v = cmp.call("get_v_mg1_bp", ctx, P.get_v_mg1_bp, l, b)
        wn = cmp.call("get_w_MxGn_no_pr", ctx, P.get_w_MxGn_no_pr, l, b, 1)
        vn = cmp.call("get_v_MxGn_no_pr", ctx, P.get_v_MxGn_no_pr, l, b, 1)
        for j in range(3):
            e = conv(s.w, b[j])
            for t in range(3):
                c = dict(ctx, cls=j + 1, moment=t + 1)
                for nm, x, g, q in (("get_w_mg1_bp", s.w, w, 1e-6), ("get_v_mg1_bp", e, v, 1e-6)) + ((("get_w_MxGn_no_pr", s.w, wn, 1e-3), ("get_v_MxGn_no_pr", e, vn, 1e-3)) if t < 2 and fits else ()):
                    if g is not None:
                        cmp.eq(nm, c, x[t], g[j][t], rel=q, ab=1e-9 * sc ** (t + 1))
        for n, cfg, ch in zip(mns, nps, chn):
            ro = rnd(r, 0.2, 0.5)
            mu = 1 / sc
            q = rnd(r, 0.2, 0.8)
            par = {"mu": mu, "l1": ro * n * mu * q, "l2": ro * n * mu * (1 - q)}
            ps = PSol(ch, cfg, par)
            if ps.tail > 1e-9:
                continue
            bb = [[sc, 2 * sc ** 2, 6 * sc ** 3, 24 * sc ** 4]] * 2
            ctx = {"n": n, "l": [par["l1"], par["l2"]], "mu": mu}
            w = cmp.call("get_w_prty_invar.n", ctx, P.get_w_prty_invar, ctx["l"], bb, n, "NP")
            v = cmp.call("get_v_prty_invar.n", ctx, P.get_v_prty_invar, ctx["l"], bb, n, "NP")
            for j in range(2):
                e = ps.np_wait(j)
                for t in range(3):
                    for nm, x, g in (("get_w_prty_invar.n", e, w), ("get_v_prty_invar.n", conv(e, bb[j]), v)):
                        if g is not None:
                            cmp.eq(nm, dict(ctx, cls=j + 1, moment=t + 1), x[t], g[j][t], rel=0.1, ab=1e-6 * sc ** (t + 1))
    cfg = pcfg(1, "PR", [own("H", 1), own("E", 2)], CAP[2])
    par = dict(own_par(r, "H", 1, 1.0), **own_par(r, "E", 2, 1.0), l1=0.2, l2=0.2)
    a, c = PSol(chs[0], cfgs[0], par), PSol(chs[1], cfgs[1], par)
    cmp.controls(a.pr_wait(0)[0], [c.np_wait(0)[0], a.pr_not_served(1)[0], a.pr_wait(1)[0]], "policy, interruptions, class")


def t11(rep, cmp, r):
    from most_queue.theory.mmn_prty_pnz_approx import MMn_PRTY_PNZ_Cox_approx
    from most_queue.theory.mmn3_pnz_cox_approx import Mmn3_pnz_cox
    from most_queue.theory.m_ph_n_prty import m_ph_n_prty
    shapes = [(1, "MM", 100), (2, "MM", 90), (3, "MM", 80), (5, "MM", 60), (2, "MMM", 26), (1, "CM", 50), (2, "CM", 50), (3, "CM", 40), (8, "MM", 60)]
    if THOROUGH:
        shapes += [(12, "MM", 70), (4, "CM", 36), (2, "MMM", 34)]
    cfgs = [pcfg(n, "PR", [own(k, j + 1) for j, k in enumerate(ks)], cap) for n, ks, cap in shapes]
    chs = emitted(rep, "Prio", cfgs, PINV, workers=8)
    for (n, ks, cap), cfg, ch in zip(shapes, cfgs, chs):
        K = len(ks)
        done = 0
        for i in range(18):
            if done >= (6 if THOROUGH else 3):
                break
            sc = logu(r, 0.02, 50)
            means = [sc * n * logu(r, 0.5, 2) for _ in ks]
            ro = rnd(r, 0.15, 0.78 if ks == "MM" else 0.6 if K == 2 else 0.3 if cap < 30 else 0.4)
            sh = [r.uniform(0.2, 1) for _ in ks]
            l = [n * ro * x / sum(sh) / m for x, m in zip(sh, means)]
            par = {}
            for j, k in enumerate(ks):
                par.update(own_par(r, k, j + 1, means[j]))
                par["l%d" % (j + 1)] = l[j]
            s = PSol(ch, cfg, par)
            if abs(s.tail) > 1e-8:
                continue
            ctx = {"n": n, "l": l, "par": par}
            if ks == "MM":
                nm, mk, vf = "mmn_prty", lambda: MMn_PRTY_PNZ_Cox_approx(n, par["m2_"], par["m1_"], l[1], l[0]), "get_second_class_v1"
            elif ks == "MMM":
                nm, mk, vf = "mmn3", lambda: Mmn3_pnz_cox(par["m3_"], par["m2_"], par["m1_"], l[2], l[1], l[0]), "get_low_class_v1"
            else:
                nm, mk, vf = "mphn", lambda: m_ph_n_prty(par["m2_"], par["m1_1"], par["m1_2"], par["y1_1"], l[1], l[0], n, max_iter=3000, verbose=False, is_cox=cox), "get_low_class_v1"
            cox = done % 2 == 0 if ks == "CM" else True
            nm += "" if cox else ".h2"
            m = cmp.call(nm, ctx, mk)
            if m is None:
                continue
            if any(not (fits_cox if cox else fits_h2)(x) for x in getattr(m, "busy_periods", [])):
                continue            # a conditional busy period that no second-order Cox law has
            if cmp.call(nm + ".run", ctx, lambda: m.run() or 1) is None:
                continue
            done += 1
            p = s.p(K - 1)
            up = 1 - l[K - 1] * means[K - 1] / n / ro if ro else 0
            near = (1e-3 if ks == "CM" else 1e-4) + 0.12 * (ro * up) ** 4 / n             # the busy period enters by its three moments only
            P = cmp.call(nm + ".get_p", ctx, m.get_p)
            if P is not None:
                cmp.eq(nm + ".get_p", ctx, p[:30], P, rel=0, ab=near)
                cmp.eq(nm + ".get_p.sum", ctx, 1.0, sum(P), ab=1e-5)
            v = cmp.call(nm + "." + vf, ctx, getattr(m, vf))
            if v is not None:
                cmp.eq(nm + "." + vf, ctx, s.mean(K - 1), v, rel=5e-4)
    par = {"l1": 0.3, "l2": 0.3, "m1_": 1.0, "m2_": 1.0}
    a = PSol(chs[1], cfgs[1], par)
    cmp.controls(a.mean(1), [a.mean(0), PSol(chs[0], cfgs[0], par).mean(1), PSol(chs[1], cfgs[1], dict(par, l1=0.301)).mean(1)], "class, servers, rate", rel=1e-4)


def fits_cox(m):
    """Whether a second-order Cox law with well-behaved rates has these three moments."""
    f = [complex(m[0]), complex(m[1]) / 2, complex(m[2]) / 6]
    if abs(f[0]) < 1e-12 or abs(f[1] / f[0] ** 2 - 1) < 2e-3:
        return False
    try:
        d = ((f[2] - f[0] * f[1]) ** 2 - 4 * (f[1] - f[0] ** 2) * (f[0] * f[2] - f[1] ** 2)) ** 0.5
        m2 = (f[0] * f[1] - f[2] + d) / (2 * (f[1] ** 2 - f[0] * f[2]))
        m1 = (m2 * f[0] - 1) / (m2 * f[1] - f[0])
        y = (m1 * f[0] - 1) * m2 / m1
    except ZeroDivisionError:
        return False
    return all(x.real > 0.2 * abs(x) for x in (m1, m2)) and abs(y) < 3


def fits_h2(m):
    """Whether a hyperexponential law with real, well separated stages has these three moments."""
    if any(abs(complex(x).imag) > 1e-9 * abs(x) for x in m):
        return False
    f = [complex(x).real / d for x, d in zip(m, (1, 2, 6))]
    if f[0] <= 0 or f[1] / f[0] ** 2 < 1.05:
        return False
    # the stage means are the roots of x^2 - c x + d
    d = (f[0] * f[2] - f[1] ** 2) / (f[1] - f[0] ** 2)
    c = (f[2] - f[0] * f[1]) / (f[1] - f[0] ** 2)
    return d > 1e-3 * c * c and c * c - 4 * d > 1e-2 * c * c


# --------------------------------------------------------------------------- T12
def t12(rep, cmp, r):
    from most_queue.theory.utils.passage_time import passage_time_calc
    CAP = 60
    shapes = [(1, dict(svc=h2_ph("y", "m"))), (2, dict(svc=h2_ph("y", "m"))), (3, dict(svc=cox_ph("y", "m"))), (1, dict(svc=erl_ph(3, "mu"))),
              (2, dict(svc=erl_ph(2, "mu"), arr=h2_ph("u", "v"))), (1, dict(svc=cox_ph("y", "m"), arr=erl_ph(2, "lam"))), (3, dict(svc=exp_ph("mu"))),
              (2, dict(svc=cox_ph("y", "m"), arr=cox_ph("u", "v")))]
    shapes += [(1, dict(svc=exp_ph("mu"))), (1, dict(svc=exp_ph("mu"), arr=h2_ph("u", "v"))), (2, dict(svc=exp_ph("mu"), arr=erl_ph(2, "lam")))]
    if THOROUGH:
        shapes += [(4, dict(svc=h2_ph("y", "m"))), (3, dict(svc=erl_ph(3, "mu"))), (3, dict(svc=cox_ph("y", "m"), arr=h2_ph("u", "v")))]
    chs = emitted(rep, "Markov", [mcfg(n=n, cap=CAP, **k) for n, k in shapes], MINV, workers=8)
    for (n, kw), ch in zip(shapes, chs):
        S = ch.states
        lev = np.array([s["k"] for s in S])
        idx = [np.flatnonzero(lev == k) for k in range(CAP + 1)]
        # the same order of the states within every level from n on
        idx = [np.array(sorted(ix, key=lambda i: (S[i]["a"], S[i]["x"]))) for ix in idx]
        for it in range(5 if THOROUGH else 3):
            sc = logu(r, 0.02, 50)
            mean = sc * n
            ro = rnd(r, 0.2, 0.65)
            par = {"mu": mean and {"exp": 1, "e2": 2, "e3": 3}[{1: "exp", 2: "e2", 3: "e3"}[len(kw["svc"]["out"])]] / mean}
            for ph, y, m_, mm in ((kw["svc"], "y", "m", mean), (kw.get("arr", {"out": [0]}), "u", "v", mean / n / ro)):
                if len(ph["out"]) == 2 and "1" in str(ph["out"]):
                    q, z = rnd(r, 0.1, 0.9), logu(r, 0.3, 4)
                    par.update({y + "1": q, y + "2": 1 - q})
                    x = mm / (q + (1 - q) / z) if len(ph["init"]) == 2 else mm / (1 + q / z)
                    par.update({m_ + "1": 1 / x, m_ + "2": z / x})
            par["lam"] = ro * n / mean * (2 if kw.get("arr") == erl_ph(2, "lam") else 1)
            A, B, R = ch.rates(par)
            G = np.zeros((len(S), len(S)))
            np.add.at(G, (A, B), R)
            np.fill_diagonal(G, 0.0)
            out = G.sum(axis=1)
            # levels from which on the matrices repeat (one earlier when the service has a single stage)
            top = n + (1 if len(kw["svc"]["out"]) == 1 and it % 3 != 1 else 2)
            extra = r.choice([0, 0, 2])
            Ab = [G[np.ix_(idx[k], idx[k + 1])] for k in range(top + extra)]
            Bb = [G[np.ix_(idx[k], idx[k - 1])] if k else np.zeros((len(idx[0]), 1)) for k in range(top + extra)]
            Cb = [G[np.ix_(idx[k], idx[k])] for k in range(top + extra)]
            Db = [np.diag(out[idx[k]]) for k in range(top + extra)]
            clx = it % 2 == 0
            if clx:
                Ab, Bb, Cb, Db = ([x.astype(complex) for x in X] for X in (Ab, Bb, Cb, Db))
            ctx = {"n": n, "par": par, "complex": clx, "structure": {k: len(v["out"]) for k, v in kw.items()}}
            lt = {"l_tilda": top - 1} if extra and top > 1 else {}
            ctx["levels"] = dict(lt, given=top + extra)
            c = cmp.call("passage", ctx, passage_time_calc, Ab, Bb, Cb, Db, is_clx=clx, **lt)
            if c is None or cmp.call("passage.calc", ctx, lambda: c.calc() or 1) is None:
                continue
            # first passage from the states at levels >= k to level k - 1
            def passage(hi, lo):
                tr = np.concatenate([idx[k] for k in range(lo + 1, CAP + 1)])
                T = np.diag(out[tr]) - G[np.ix_(tr, tr)]
                import scipy.linalg as sl
                lu = sl.lu_factor(T)
                m = sl.lu_solve(lu, G[np.ix_(tr, idx[lo])])
                pos = {s: i for i, s in enumerate(tr)}
                rows = [pos[i] for i in idx[hi]]
                res = [m[rows]]
                for q in (1, 2, 3):
                    m = q * sl.lu_solve(lu, m)
                    res.append(m[rows])
                return res
            for k in range(1, top):
                e = passage(k, k - 1)
                cmp.eq("passage.G", dict(ctx, level=k), e[0].ravel(), np.ravel(c.G[k]), rel=2e-6, ab=2e-6)
                for q in (1, 2, 3):
                    scale = abs(e[q]).max()
                    cmp.eq("passage.Gr", dict(ctx, level=k, moment=q), e[q].ravel(), np.ravel(c.Gr[k][q - 1]), rel=2e-5, ab=2e-6 * scale)
                    ok = e[0] > 1e-3
                    cmp.eq("passage.Z", dict(ctx, level=k, moment=q), (e[q] / np.where(ok, e[0], 1))[ok].ravel(), np.asarray(c.Z[k][q - 1])[ok].ravel(),
                           rel=1e-4, ab=1e-4 * scale)
            for hi, lo in ((n + 3, 0), (n + 1, n - 1), (n, 0), (n + 4, n + 1)):
                e = passage(hi, lo)
                g = cmp.call("passage.G_gap", ctx, c.G_gap_calc, hi, lo)
                gr = cmp.call("passage.Gr_gap", ctx, c.Gr_gap_calc, hi, lo)
                if g is not None:
                    cmp.eq("passage.G_gap", dict(ctx, gap=(hi, lo)), e[0].ravel(), np.ravel(g), rel=2e-5, ab=2e-5)
                if gr is not None:
                    for q in (1, 2, 3):
                        cmp.eq("passage.Gr_gap", dict(ctx, gap=(hi, lo), moment=q), e[q].ravel(), np.ravel(gr[q - 1]), rel=1e-4, ab=1e-5 * abs(e[q]).max())
                z = cmp.call("passage.Z_gap", ctx, c.Z_gap_calc, hi, lo)
                if z is not None:
                    ok = e[0] > 1e-3
                    for q in (1, 2, 3):
                        cmp.eq("passage.Z_gap", dict(ctx, gap=(hi, lo), moment=q), (e[q] / np.where(ok, e[0], 1))[ok].ravel(), np.asarray(z[q - 1])[ok].ravel(),
                               rel=1e-3, ab=1e-4 * abs(e[q]).max())
    a = float(e[1].sum())
    cmp.controls(a, [a * 1.001, float(passage(hi + 1, lo)[1].sum())], "levels", rel=1e-4)


# --------------------------------------------------------------------------- T13
FINV = ["TypeOK", "Ordered", "NoneOverdue", "OldestFirst", "Busy", "Progress"]


def t13(rep, cmp, r):
    from most_queue.theory import fj_calc as F
    from most_queue.theory.mg1_calc import get_v as mg1_v
    # moments of the maximum of n independent service times (exponential, Erlang, hyperexponential)
    ns = (1, 2, 3, 5) + ((4, 8) if THOROUGH else ())
    kinds = [("exp", exp_ph("m")), ("e2", erl_ph(2, "m")), ("e3", erl_ph(3, "m")), ("e5", erl_ph(5, "m")), ("h2", h2_ph("y", "m"))]
    jobs = [(k, ph, n) for k, ph in kinds for n in ns if not (n > 5 and k != "exp") and not (n == 5 and k in ("e3", "e5")) and not (n > 3 and k == "e5")]
    chs = stages(rep, [([ph] * n, "par", n) for k, ph, n in jobs])
    for (k, ph, n), ch in zip(jobs, chs):
        for _ in range(4 if THOROUGH else 2):
            sc = logu(r, 0.02, 50)
            par = own_law(r, k, sc)
            b = ph_moments(ph, par, 4)
            e = Duration(ch, par).moments(4)
            ctx = {"law": k, "n": n, "par": par}
            tol = {"e3": 1e-5, "e5": 1e-4, "e2": 1e-5}.get(k, 1e-6)
            for num in (4, 3):
                g = cmp.call("getMaxMoments", ctx, F.getMaxMoments, n, b, num)
                if g is not None:
                    cmp.eq("getMaxMoments", dict(ctx, num=num), e[:num], g, rel=tol, ab=0)
            if k != "h2":       # two moments determine the same law
                g = cmp.call("getMaxMoments.gamma", ctx, F.getMaxMoments, n, b[:2])
                if g is not None:
                    cmp.eq("getMaxMoments.gamma", ctx, e[:2], g, rel=tol, ab=0)
                g = cmp.call("getMaxMomentsDelta", ctx, F.getMaxMomentsDelta, n, b, 4)
                if g is not None:
                    cmp.eq("getMaxMomentsDelta.zero", ctx, e, g, rel=tol, ab=0)
            g = cmp.call("get_lambda_max", ctx, F.get_1ambda_max, b, n, 0.7)
            if g is not None:
                cmp.eq("get_lambda_max", ctx, 0.7 / e[0], g, rel=tol, ab=0)
            if k == "h2":
                one = Duration(chs[jobs.index((k, ph, 1))], par)
                a = [par["y1"], par["m1"], par["m2"]]
                dl = r.choice([None, sc * rnd(r, 0.05, 0.4)])
                for x in (0.2 * sc, sc * n * 0.7, sc * rnd(r, 1, 4)):
                    cdf = math.prod(one.cdf(x - i * (dl or 0)) if x > i * (dl or 0) else 0.0 for i in range(n))
                    q = cmp.call("dfr_H2_Mult", dict(ctx, delta=dl, t=x), F.dfr_H2_Mult, a, x, n, dl)
                    if q is not None:
                        cmp.eq("dfr_H2_Mult", dict(ctx, delta=dl, t=x), 1 - cdf, q, rel=1e-6, ab=1e-9)
            # a fixed delay per server: server i starts i delays later
            if k != "h2" and n > 1:
                one = Duration(chs[jobs.index((k, ph, 1))], par)
                dl = sc * rnd(r, 0.05, 0.4)
                ref = shifted_max(one, n, dl, sc)
                for f, a in ((F.dfr_Gamma_Mult, rd_gamma(b)),) + (((F.dfr_Erl_Mult, ({"exp": 1, "e2": 2, "e3": 3, "e5": 5}[k], par["m"])),)):
                    for x in (0.3 * dl, dl * (n - 0.5), dl * n + sc * rnd(r, 0.1, 2)):
                        cdf = math.prod(one.cdf(x - i * dl) if x > i * dl else 0.0 for i in range(n))
                        q = cmp.call(f.__name__, dict(ctx, delta=dl, t=x), f, a, x, n, dl)
                        if q is not None:
                            cmp.eq(f.__name__ + ".delta", dict(ctx, delta=dl, t=x), 1 - cdf, q, rel=1e-6, ab=1e-9)
                        q = cmp.call(f.__name__, dict(ctx, t=x), f, a, x, n)
                        if q is not None:
                            cmp.eq(f.__name__, dict(ctx, t=x), 1 - one.cdf(x) ** n, q, rel=1e-6, ab=1e-9)
                g = cmp.call("getMaxMomentsDelta", ctx, F.getMaxMomentsDelta, n, b, 3, dl)
                if g is not None:
                    cmp.eq("getMaxMomentsDelta.fixed", dict(ctx, delta=dl), ref, g, rel=5e-3, ab=0)
    # random delays: sums of stages of one rate
    jobs = [(n, ks, kd) for n in (2, 3) for ks, kd in ((1, 1), (2, 1))] + ([(4, 1, 2), (3, 2, 2)] if THOROUGH else [])
    chs = stages(rep, [([erl_ph(ks + i * kd, "m") for i in range(n)], "par", n) for n, ks, kd in jobs])
    for (n, ks, kd), ch in zip(jobs, chs):
        for _ in range(2):
            m = logu(r, 0.02, 50)
            e = Duration(ch, {"m": m}).moments(4)
            ctx = {"n": n, "stages": [ks, kd], "rate": m}
            g = cmp.call("getMaxMomentsDelta", ctx, F.getMaxMomentsDelta, n, ph_moments(erl_ph(ks, "m"), {"m": m}, 4), 4, ph_moments(erl_ph(kd, "m"), {"m": m}, 3))
            if g is not None:
                cmp.eq("getMaxMomentsDelta.random", ctx, e, g, rel=1e-4, ab=0)
    # split-join: M/G/1 with the maximum as service
    for n in (2, 3):
        ph = {"init": [[1, []]], "out": [[[i + 2 if i + 1 < n else 0, ["m%d" % (i + 1)]]] for i in range(n)]}
        ch = emitted(rep, "Markov", [mcfg(n=1, cap=90, svc=ph)], MINV)[0]
        for _ in range(2):
            mu = logu(r, 0.05, 20)
            par = {"m%d" % (i + 1): (n - i) * mu for i in range(n)}
            mean = sum(1 / par["m%d" % (i + 1)] for i in range(n))
            par["lam"] = rnd(r, 0.1, 0.6) / mean
            s = Sol(ch, par)
            ctx = {"n": n, "par": par}
            bm = cmp.call("split-join", ctx, F.getMaxMoments, n, [math.factorial(i) / mu ** i for i in (1, 2, 3, 4)])
            if bm is not None:
                v = cmp.call("split-join", ctx, mg1_v, par["lam"], bm)
                if v is not None:
                    cmp.eq("split-join.mean", ctx, s.N / par["lam"], v[0], rel=1e-5, ab=0)
    # order statistics of exponential times: the fork-join approximations in light traffic
    nk = [(n, k) for n in (1, 2, 3, 4) for k in range(1, n + 1)]
    chs = stages(rep, [([exp_ph("m")] * n, "par", k) for n, k in nk])
    light = {}
    for (n, k), ch in zip(nk, chs):
        mu = logu(r, 0.02, 50)
        e = Duration(ch, {"m": mu}).moments(1)[0]
        light[n, k] = e * mu
        l = mu * 1e-9
        ctx = {"n": n, "k": k, "mu": mu, "l": l}
        fs = [("get_v1_varma_nk", (l, mu, n, k)), ("get_v1_fj_nelson_nk", (l, mu, n, k))]
        if n == k:
            fs += [(f, (l, mu, n)) for f in ("get_v1_fj_varma", "get_v1_fj_varki_merchant")]
            fs += [("get_v1_fj_nelson_tantawi", (l, mu, n))] if n > 1 else []
        for f, a in fs:
            g = cmp.call(f, ctx, getattr(F, f), *a)
            if g is not None:
                cmp.eq(f + ".light", ctx, e, g, rel=1e-6, ab=0)
    # fork-join queues
    shapes = [(2, 2, 45), (2, 1, 45), (3, 1, 20), (3, 2, 20), (3, 3, 20), (4, 1, 12), (4, 2, 12), (4, 3, 12), (4, 4, 12)]
    if THOROUGH:
        shapes = [(n, k, {2: 70, 3: 28, 4: 16}[n]) for n, k, _ in shapes] + [(5, 5, 12), (5, 3, 12)]
    chs = emitted(rep, "FJChain", [dict(n=n, k=k, purge=0, cap=c) for n, k, c in shapes], FINV, workers=8)
    mmn = {n: emitted(rep, "Markov", [mcfg(n=n, cap=100 + n)], MINV)[0] for n in (2, 3, 4)}
    ctl = []
    for (n, k, cap), ch in zip(shapes, chs):
        for _ in range(4 if THOROUGH else 3):
            mu = logu(r, 0.02, 50)
            ro = rnd(r, 0.02, {2: 0.6, 3: 0.35, 4: 0.25, 5: 0.2}[n])
            l = ro * mu
            p = stationary(len(ch.states), *ch.rates({"lam": l, "mu": mu})[:3])
            full = sum(q for q, s in zip(p, ch.states) if s["m"] == cap)
            v = sum(q * s["open"] for q, s in zip(p, ch.states)) / l / (1 - full)
            ctx = {"n": n, "k": k, "l": l, "mu": mu}
            ctl.append(v * mu)
            # documented approximations: (function, arguments, relative accuracy)
            fs = [("get_v1_varma_nk", (l, mu, n, k), 1e-6 if n == k == 2 else 0.01), ("get_v1_fj_nelson_nk", (l, mu, n, k), 1e-6 if n == k == 2 else 0.015 if n == k else 0.1)]
            if n == k:
                fs += [("get_v1_fj_nelson_tantawi", (l, mu, n), 1e-6 if n == 2 else 0.015), ("get_v1_fj_varma", (l, mu, n), 1e-6 if n == 2 else 0.005),
                       ("get_v1_fj_varki_merchant", (l, mu, n), 0.03)]
                fs += [("get_v_fj_max", (l, [math.factorial(i) / mu ** i for i in (1, 2, 3, 4)], n), 0.12)]
            if n == k == 2:
                fs += [("get_v1_fj2", (l, mu), 1e-6), ("get_v1_fj_invar", (l, mu, 2), 1e-6), ("get_v1_fj_invar_sj", (l, mu, 2), 1e-6) if ro < 0.3 else ("get_v1_fj2", (l, mu), 1e-6),
                       ("get_v_fj_invar_tt", (l, [math.factorial(i) / mu ** i for i in (1, 2, 3)], 2), 1e-6)]
                for m in (3, 4):
                    x = {q: Sol(mmn[q], {"lam": l, "mu": mu / q}) for q in (2, m)}
                    g = cmp.call("get_v1_fj_invar", dict(ctx, n=m), F.get_v1_fj_invar, l, mu, m)
                    if g is not None:
                        cmp.eq("get_v1_fj_invar", dict(ctx, n=m), v * x[m].N / x[2].N, g, rel=1e-6, ab=0)
                    w = {q: x[q].N - l * q / mu for q in x}
                    g = cmp.call("get_v_fj_invar_tt", dict(ctx, n=m), F.get_v_fj_invar_tt, l, [math.factorial(i) / mu ** i for i in (1, 2, 3)], m)
                    if g is not None and ro > 0.15:
                        cmp.eq("get_v_fj_invar_tt", dict(ctx, n=m), v * w[m] / w[2], np.real(g[0]), rel=6e-2, ab=0)
            for f, a, tol in fs:
                g = cmp.call(f, ctx, getattr(F, f), *a)
                if g is not None:
                    g = np.real(g[0]) if hasattr(g, "__len__") else g
                    cmp.eq(f, ctx, v, g, rel=tol, ab=0)
    cmp.controls(light[3, 3], [light[3, 2], light[4, 4]], "order statistics", rel=1e-6)
    cmp.controls(light[4, 2], [light[4, 3], light[3, 2]], "order statistics", rel=1e-2)
    # k-of-n with cancellation of the rest is a different system
    ch = emitted(rep, "FJChain", [dict(n=3, k=2, purge=1, cap=30), dict(n=3, k=2, purge=0, cap=20)], FINV)
    x = []
    for c in ch:
        p = stationary(len(c.states), *c.rates({"lam": 0.3, "mu": 1.0})[:3])
        x.append(float(sum(q * s["open"] for q, s in zip(p, c.states))))
    cmp.controls(x[0], [x[1]], "cancellation", rel=1e-2)


def rd_gamma(b):
    """Rate and shape of the gamma law with these first two moments."""
    v = b[0] / (b[1] - b[0] ** 2)
    return v, v * b[0]


def own_law(r, kind, mean):
    """Parameters m (or y1, y2, m1, m2) of an exponential, Erlang or H2 law with this mean."""
    if kind == "h2":
        q, z = rnd(r, 0.15, 0.85), logu(r, 1.5, 6)
        x = mean * 1 / (q + (1 - q) * z)
        return {"y1": q, "y2": 1 - q, "m1": 1 / x, "m2": 1 / (x * z)}
    return {"m": {"exp": 1, "e2": 2, "e3": 3, "e5": 5}[kind] / mean}


def shifted_max(one, n, delta, sc):
    """Three moments of max over i < n of (X_i + i delta), X_i distributed as the duration."""
    edges = [0.0] + [i * delta for i in range(1, n)]
    end = edges[-1] + 40 * sc
    gx, gw = np.polynomial.legendre.leggauss(24)
    pts = []
    cuts = edges + list(np.linspace(edges[-1], end, 24)[1:])
    for a, b in zip(cuts[:-1], cuts[1:]):
        pts += [((a + b) / 2 + (b - a) / 2 * x, w * (b - a) / 2) for x, w in zip(gx, gw)]
    out = [0.0] * 3
    for t, w in pts:
        f = 1.0
        for i in range(n):
            f *= one.cdf(t - i * delta) if t > i * delta else 0.0
        for q in range(3):
            out[q] += w * (q + 1) * t ** q * (1 - f)
    return out


# --------------------------------------------------------------------------- T14, T15
RINV = ["TypeOK", "NeverBack", "Listed", "Alive"]


def law_params(r, kind, mean):
    """(library parameters, chain parameters under the prefix p) of a law of the notation with this mean."""
    if kind == "M":
        return 1 / mean
    if kind in ("H", "C"):
        q, z = rnd(r, 0.1, 0.9), logu(r, 0.25, 4)
        x = mean / (q + (1 - q) / z) if kind == "H" else mean / (1 + q / z)
        return [q, 1 / x, z / x]
    if kind == "E":
        k = r.choice([2, 3])
        return [k, k / mean]
    if kind == "Gamma":
        a = logu(r, 0.3, 6)
        return [a / mean, a]
    if kind == "D":
        return mean
    if kind in ("Uniform", "Norm"):
        return [mean, mean * rnd(r, 0.02, 0.9 if kind == "Uniform" else 0.2)]
    a = logu(r, 1.3, 5)
    return [a, mean * (a - 1) / a]


def law_shape(kind, params, y, m):
    """Phase-type shape and chain parameters, or None when the law has no stages."""
    if kind == "M":
        return exp_ph(m), {m: params}
    if kind in ("H", "C"):
        return (h2_ph if kind == "H" else cox_ph)(y, m), {y + "1": params[0], y + "2": 1 - params[0], m + "1": params[1], m + "2": params[2]}
    if kind == "E":
        return erl_ph(params[0], m), {m: params[1]}
    return None


def t14(rep, cmp, r):
    from most_queue.sim.utils.distribution_utils import calc_qs_load
    from most_queue.sim.qs_sim import QueueingSystemSimulator
    from most_queue.sim.batch_sim import QueueingSystemBatchSim
    from most_queue.sim.priority_queue_sim import PriorityQueueSimulator
    from most_queue.theory.network_calc import network_prty_calc, balance_equation
    stg = ["M", "H", "E", "C"]
    allk = stg + ["Gamma", "D", "Uniform", "Norm", "Pa"]
    # the load is the fraction of time a server works (all pairs of laws with stages)
    jobs = []
    for a in stg:
        for s in stg:
            for _ in range(3 if THOROUGH else 1):
                n = r.choice([1, 2, 3])
                mean, ro = logu(r, 0.02, 50), rnd(r, 0.1, 0.55)
                pa, ps = law_params(r, a, mean / (n * ro)), law_params(r, s, mean)
                jobs.append((n, a, s, pa, ps, law_shape(a, pa, "u", "v"), law_shape(s, ps, "y", "m")))
    chs = emitted(rep, "Markov", [mcfg(n=n, cap=60 + n, arr=x[0], svc=y[0]) for n, a, s, pa, ps, x, y in jobs], MINV, workers=8)
    ctl = []
    for (n, a, s, pa, ps, x, y), ch in zip(jobs, chs):
        S = Sol(ch, dict(x[1], **y[1]), wmoms=False)
        ref = float(sum(p * min(b, n) for p, b in zip(np.real(S.pi), S.busy))) / n
        ctx = {"n": n, "source": [a, pa], "service": [s, ps]}
        g = cmp.call("calc_qs_load", ctx, calc_qs_load, a, pa, s, ps, n)
        if g is not None:
            cmp.eq("calc_qs_load", ctx, ref, g, rel=1e-6, ab=0)
        q = QueueingSystemSimulator(n, verbose=False)
        q.set_sources(pa, a)
        q.set_servers(ps, s)
        g = cmp.call("sim.calc_load", ctx, q.calc_load)
        if g is not None:
            cmp.eq("sim.calc_load", ctx, ref, g, rel=1e-6, ab=0)
        ctl.append((ref, n))
    # every law against every other, by the means of the laws
    for a in allk:
        for s in allk:
            n = r.choice([1, 2, 4])
            ma, ms = logu(r, 0.02, 50), logu(r, 0.02, 50)
            pa, ps = law_params(r, a, ma), law_params(r, s, ms)
            ctx = {"n": n, "source": [a, pa], "service": [s, ps]}
            g = cmp.call("calc_qs_load", ctx, calc_qs_load, a, pa, s, ps, n)
            if g is not None:
                cmp.eq("calc_qs_load.means", ctx, ms / ma / n, g, rel=1e-9, ab=0)
    # batches
    jobs = []
    for _ in range(4):
        w = [r.uniform(0.1, 1) for _ in range(r.choice([1, 2, 3]))]
        pb = [x / sum(w) for x in w]
        n, mu = r.choice([1, 2]), logu(r, 0.02, 50)
        jobs.append((n, pb, mu, rnd(r, 0.1, 0.5) * n * mu / sum((i + 1) * p for i, p in enumerate(pb))))
    chs = emitted(rep, "Markov", [mcfg(n=n, cap=110, batch=[[i + 1, ["b%d" % (i + 1)]] for i in range(len(pb))], svc=exp_ph("mu")) for n, pb, mu, l in jobs], MINV)
    for (n, pb, mu, l), ch in zip(jobs, chs):
        S = Sol(ch, dict({"lam": l, "mu": mu}, **{"b%d" % (i + 1): p for i, p in enumerate(pb)}), wmoms=False)
        ref = float(sum(p * min(b, n) for p, b in zip(np.real(S.pi), S.busy))) / n
        q = QueueingSystemBatchSim(n, pb, verbose=False)
        q.set_sources(l, "M")
        q.set_servers(mu, "M")
        ctx = {"n": n, "batch": pb, "l": l, "mu": mu}
        g = cmp.call("batch.calc_load", ctx, q.calc_load)
        if g is not None:
            cmp.eq("batch.calc_load", ctx, ref, g, rel=1e-6, ab=0)
    # several classes: the busy servers of the priority system
    cfgs, jobs = [], []
    for K, n, pol in ((2, 1, "PR"), (2, 2, "NP"), (3, 1, "NP"), (2, 3, "PR")):
        kinds = [r.choice(["M", "H", "E"]) if n < 3 else "M" for _ in range(K)]
        if K == 3:
            kinds = ["M", "M", "H"]
        mean = logu(r, 0.05, 20)
        par, srcs, srvs = {}, [], []
        for j in range(K):
            mj = mean * rnd(r, 0.5, 2)
            pj = own_par(r, kinds[j], j, mj)
            par.update(pj)
            l = rnd(r, 0.06, 0.2) * n / mj
            par["l%d" % (j + 1)] = l
            srcs.append({"type": "M", "params": l})
            srvs.append({"type": kinds[j], "params": {"M": lambda: pj["m%d_" % j], "E": lambda: [2, pj["m%d_" % j]],
                                                      "H": lambda: [pj["y%d_1" % j], pj["m%d_1" % j], pj["m%d_2" % j]]}[kinds[j]]()})
        cfgs.append(pcfg(n, pol, [own(k, j) for j, k in enumerate(kinds)], 24 if K == 2 else 16))
        jobs.append((K, n, pol, par, srcs, srvs))
    for (K, n, pol, par, srcs, srvs), cfg, ch in zip(jobs, cfgs, emitted(rep, "Prio", cfgs, PINV, workers=8)):
        S = PSol(ch, cfg, par)
        ref = float((S.pi * S.srv.sum(axis=1)).sum()) / n / (1 - S.tail)
        q = PriorityQueueSimulator(n, K, pol)
        q.set_sources(srcs)
        q.set_servers(srvs)
        ctx = {"n": n, "pol": pol, "sources": srcs, "servers": srvs}
        g = cmp.call("priority.calc_load", ctx, q.calc_load)
        if g is not None:
            cmp.eq("priority.calc_load", ctx, ref, g, rel=1e-4 + 20 * S.tail, ab=0)
    cmp.controls(ctl[0][0], [ctl[0][0] * (ctl[0][1] + 1) / ctl[0][1], ctl[0][0] + 1e-4], "load", rel=1e-6)
    # networks: flows by the expected visits of a job, loads by flows
    for N, rows, cls, ch, pr in networks(rep, r, 10 if THOROUGH else 5):
        K = len(cls)
        lam = [c["L"] for c in cls]
        visits = [c["visits"] for c in cls]
        ns = [r.choice([1, 2, 3]) for _ in range(N)]
        b = [[[math.factorial(q) * c["mean"][i] ** q for q in (1, 2, 3, 4)] for i in range(N)] for c in cls]
        load = [sum(lam[k] * visits[k][i] * b[k][i][0] for k in range(K)) / ns[i] for i in range(N)]
        big = max(load) / rnd(r, 0.3, 0.8)
        lam = [x / big for x in lam]
        load = [x / big for x in load]
        R = [c["R"] for c in cls]
        ctx = {"nodes": N, "n": ns, "R": [x.tolist() for x in R], "L": lam}
        for k in range(K):
            g = cmp.call("balance_equation", ctx, balance_equation, lam[k], R[k])
            if g is not None:
                cmp.eq("balance_equation", dict(ctx, cls=k), [lam[k] * v for v in visits[k]], g, rel=1e-8, ab=1e-12 * lam[k])
        order = [r.sample(range(K), K) for _ in range(N)]
        g = cmp.call("network.loads", ctx, network_prty_calc, R, b, ns, lam, [r.choice(["PR", "NP"]) for _ in range(N)], order)
        if g is not None:
            cmp.eq("network.loads", ctx, load, g["loads"], rel=1e-8, ab=1e-12)


def networks(rep, r, count):
    """Random open networks: (N, rows of the first class, classes, chains, parameters), visits by Route.tla."""
    plans, cfgs = [], []
    for q in range(count):
        N, K = 1 if q % 5 == 3 else r.choice([2, 3, 4]), r.choice([1, 2, 3])
        cls = []
        lost = r.randrange(N) if q % 3 == 2 and N > 1 else None          # a node no class of this network reaches
        for k in range(K):
            if q % 3 == 1 and N > 1:
                lost = r.randrange(N)                             # a node this class does not reach
            rows, R = [], np.zeros((N + 1, N + 1))
            for i in range(N + 1):
                to = [j for j in range(1, N + 2) if j - 1 != lost and (r.random() < 0.6 or (i and j == N + 1) or N == 1) and not (i == 0 and j == N + 1)]
                if i == 0 and not to:
                    to = [j for j in range(1, N + 1) if j - 1 != lost]
                w = [r.uniform(0.2, 1) for _ in to]
                for j, x in zip(to, w):
                    R[i, j - 1] = x / sum(w)
                rows.append([[j, "r%d_%d" % (i, j)] for j in to])
            mean = [logu(r, 0.2, 5) for _ in range(N)]
            par = {"r%d_%d" % (i, j): R[i, j - 1] for i in range(N + 1) for j in range(1, N + 2)}
            for i in range(N):
                par.update({"y%d_1" % (i + 1): 0.5, "y%d_2" % (i + 1): 0.5, "v%d_1" % (i + 1): 1 / mean[i], "v%d_2" % (i + 1): 1 / mean[i]})
            cls.append({"R": R, "mean": mean, "par": par, "L": logu(r, 0.1, 2)})
            cfgs.append({"rows": rows, "nodes": [h2_ph("y%d_" % (i + 1), "v%d_" % (i + 1)) for i in range(N)]})
        plans.append((N, cls))
    chs = emitted(rep, "Route", cfgs, RINV)
    out, at = [], 0
    for N, cls in plans:
        for c in cls:
            c["ch"] = chs[at]
            at += 1
            c["time"] = route_times(c["ch"], c["par"], N)
            c["visits"] = [t / m for t, m in zip(c["time"], c["mean"])]
        out.append((N, None, cls, None, None))
    return out


def route_times(ch, par, N):
    """Expected total time a job spends at every node."""
    S = ch.states
    n = len(S)
    A, B, R = ch.rates(par)
    G = np.zeros((n, n))
    for a, b, w in zip(A, B, R):
        if S[a]["i"] > 0:
            G[a, b] += w
            G[a, a] -= w
    start = np.zeros(n)
    for a, b, w in zip(A, B, R):
        if S[a]["i"] == 0:
            start[b] += w
    tr = [i for i in range(n) if S[i]["i"] > 0]
    t = np.linalg.solve(-G[np.ix_(tr, tr)].T, start[tr])
    out = [0.0] * N
    for i, x in zip(tr, np.real(t)):
        out[S[i]["i"] - 1] += float(x)
    return out


def route_moments(ch, par):
    """Three moments of the time from entry to exit."""
    S = ch.states
    A, B, R = ch.rates(par)
    k = np.array([S[a]["i"] != 0 for a in A])
    m = absorb_moments(len(S), A[k], B[k], R[k], [s["i"] <= 0 for s in S])
    e = ~k
    return [float((x[B[e]] * R[e]).sum()) for x in m]


def h2_of(m):
    """The (possibly complex) two-branch hyperexponential law with the given three moments: (y, rate 1, rate 2)."""
    f1, f2, f3 = m[0], m[1] / 2, m[2] / 6
    z = f2 - f1 * f1
    if abs(z) < 1e-9 * f1 * f1:
        return None
    c0, c1 = (f1 * f3 - f2 * f2) / z, (f1 * f2 - f3) / z
    d = cmath.sqrt(c1 * c1 / 4 - c0)
    x1, x2 = -c1 / 2 + d, -c1 / 2 - d
    if abs(x1 - x2) < 1e-6 * abs(x1):
        return None
    y = (f1 - x2) / (x1 - x2)
    return y, 1 / x1, 1 / x2


def t15(rep, cmp, r):
    from most_queue.theory.network_calc import network_prty_calc
    last = None
    for N, _, cls, _, _ in networks(rep, r, 30 if THOROUGH else 14):
        K = len(cls)
        ns = [r.choice([1, 1, 2]) for _ in range(N)]
        sc = logu(r, 0.02, 50)
        b = [[[math.factorial(q) * (sc * c["mean"][i]) ** q for q in (1, 2, 3, 4)] for i in range(N)] for c in cls]
        lam = [c["L"] for c in cls]
        load = [sum(lam[k] * cls[k]["visits"][i] * b[k][i][0] for k in range(K)) / ns[i] for i in range(N)]
        big = max(load) / rnd(r, 0.3, 0.6)
        lam = [x / big for x in lam]
        R = [c["R"] for c in cls]
        pol = [r.choice(["PR", "NP"]) for _ in range(N)]
        order = [r.sample(range(K), K) for _ in range(N)]
        ctx = {"nodes": N, "n": ns, "R": [x.tolist() for x in R], "L": lam, "policy": pol, "order": order, "mean": [[x[0] for x in y] for y in b]}
        g = cmp.call("network", ctx, network_prty_calc, R, b, ns, lam, pol, order)
        if g is None:
            continue
        flow = [[lam[k] * cls[k]["visits"][i] for i in range(N)] for k in range(K)]
        for k in range(K):
            # the way of a job whose visits have the reported moments
            par = dict(cls[k]["par"])
            fit = [h2_of(g["v_node"][i][k][:3]) for i in range(N)]
            if None in fit:
                continue
            for i, (y, x1, x2) in enumerate(fit):
                par.update({"y%d_1" % (i + 1): y, "y%d_2" % (i + 1): 1 - y, "v%d_1" % (i + 1): x1, "v%d_2" % (i + 1): x2})
            e = route_moments(cls[k]["ch"], par)
            cmp.eq("network.v", dict(ctx, cls=k), e, g["v"][k][:3], rel=1e-6, ab=0)
            last = (e, route_moments(cls[k]["ch"], dict(par, **{x: v * 1.01 for x, v in par.items() if x[0] == "v"})))
        for i in range(N):
            if K == 1:
                if flow[0][i] == 0:
                    continue
                ch = emitted(rep, "Markov", [mcfg(n=ns[i], cap=80)], MINV)[0]
                S = Sol(ch, {"lam": flow[0][i], "mu": 1 / b[0][i][0]})
                cmp.eq("network.v_node.fifo", dict(ctx, node=i), S.w[0] + b[0][i][0], g["v_node"][i][0][0], rel=1e-5, ab=0)
                continue
            if ns[i] > 1 or (K == 3 and sum(flow[k][i] * b[k][i][0] for k in range(K)) > 0.45):
                continue
            at = [order[i].index(q) for q in range(K)]              # the class of every priority
            cfg = pcfg(1, pol[i], [exp_ph("m%d_" % j) for j in range(K)], 60 if K == 2 else 22)
            ch = emitted(rep, "Prio", [cfg], PINV)[0]
            par = {}
            for j, k in enumerate(at):
                par["l%d" % (j + 1)], par["m%d_" % j] = flow[k][i], 1 / b[k][i][0]
            S = PSol(ch, cfg, par)
            for j, k in enumerate(at):
                cmp.eq("network.v_node", dict(ctx, node=i, cls=k), S.mean(j), g["v_node"][i][k][0], rel=2e-2 + 2000 * S.tail, ab=0)
    cmp.controls(last[0][0], [last[1][0]], "visit time", rel=1e-6)
    cmp.controls(last[0][2], [last[1][2]], "visit time", rel=1e-6)


# --------------------------------------------------------------------------- driver
def main(pid):
    rep = Report(pid)
    cmp = Cmp(rep)
    globals()[pid.lower()](rep, cmp, rng(pid))
    rep.traces = cmp.points()
    rep.cov["comparisons"] = cmp.n
    rep.cov["worst_deviation_over_tolerance"] = {k: round(v, 4) for k, v in sorted(cmp.worst.items())}
    if cmp.n < 20 or not rep.cov.get("negative_controls"):
        raise CheckError("the check compared too little")
    rep.assumptions = ["the numerical solution (scipy sparse LU, Gauss-Legendre quadrature) of the chains enumerated by TLC is exact to the tolerances used",
                       "infinite systems are truncated where the remaining probability is below 1e-9"]
    return rep.finish()
