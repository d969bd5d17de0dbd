"""Chains emitted by the TLA+ specifications, and their numerical solution."""
import json, os
import numpy as np
from common import *


def key(s):
    return json.dumps(s, sort_keys=True)


class Chain:
    """One emitted chain: states, labelled edges (event, multiplicity, factor names)."""

    def __init__(self):
        self.states, self.index, self.edges = [], {}, []

    def sid(self, s):
        k = key(s)
        if k not in self.index:
            self.index[k] = len(self.states)
            self.states.append(s)
        return self.index[k]

    def rates(self, par):
        """(from, to, rate, event) with the symbolic factors replaced by numbers."""
        n = len(self.edges)
        A = np.empty(n, dtype=int)
        B = np.empty(n, dtype=int)
        R = np.empty(n, dtype=complex if any(isinstance(v, complex) for v in par.values()) else float)
        for i, (a, b, m, f, ev) in enumerate(self.edges):
            r = m
            for x in f:
                r *= par[x]
            A[i], B[i], R[i] = a, b, r
        return A, B, R

    def events(self):
        return np.array([e[4] for e in self.edges])


def emit(module, cfgs, invs, workers=4, timeout=800, heap="3g"):
    """Enumerate the chains of several configurations with TLC; returns (list of Chain, TlcResult)."""
    path = os.path.join(scratch(), "cfgs_%d.json" % len(os.listdir(scratch())))
    with open(path, "w") as fh:
        json.dump(cfgs, fh)
    r = tlc(module, "SPECIFICATION Spec\n" + "".join("INVARIANT %s\n" % i for i in list(invs) + ["Emit"]),
            env={"CFGS": path}, workers=workers, timeout=timeout, heap=heap)
    if not r.ok:
        raise CheckError("chain enumeration failed (%s)\n%s" % (module, r.out[-3000:]))
    out = [Chain() for _ in cfgs]
    for x in r.lines("ST"):
        ch = out[x["c"] - 1]
        a = ch.sid(x["s"])
        for e in x["out"]:
            ch.edges.append((a, ch.sid(e["t"]), e["m"], e["f"], e["ev"]))
    return out, r


def stationary(n, A, B, R):
    import scipy.sparse as sp
    import scipy.sparse.linalg as sl
    keep = A != B
    A, B, R = A[keep], B[keep], R[keep]
    Q = sp.csr_matrix(sp.coo_matrix((R, (B, A)), shape=(n, n)))      # transposed generator
    d = np.zeros(n, dtype=R.dtype)
    np.add.at(d, A, R)
    Q = (Q - sp.diags(d)).tolil()
    Q[0, :] = 1.0
    b = np.zeros(n, dtype=R.dtype)
    b[0] = 1.0
    p = sl.spsolve(sp.csc_matrix(Q), b)
    return p


def absorb_moments(n, A, B, R, absorbing, count=3):
    """Raw moments of the time to reach the absorbing set, per starting state."""
    import scipy.sparse as sp
    import scipy.sparse.linalg as sl
    trans = np.array([not absorbing[i] for i in range(n)])
    pos = -np.ones(n, dtype=int)
    pos[trans] = np.arange(trans.sum())
    m = int(trans.sum())
    keep = (A != B) & trans[A]
    A, B, R = A[keep], B[keep], R[keep]
    d = np.zeros(m, dtype=R.dtype)
    np.add.at(d, pos[A], R)
    k2 = trans[B]
    T = sp.coo_matrix((R[k2], (pos[A][k2], pos[B][k2])), shape=(m, m)).tocsc() - sp.diags(d)
    lu = sl.splu(sp.csc_matrix(-T))
    prev = np.ones(m)
    out = []
    for k in range(1, count + 1):
        cur = k * lu.solve(prev)
        full = np.zeros(n, dtype=R.dtype)
        full[trans] = cur
        out.append(full)
        prev = cur
    return out


def absorb_lst(n, A, B, R, absorbing, s):
    """Laplace-Stieltjes transform at s of the time to reach the absorbing set, per starting state."""
    import scipy.sparse as sp
    import scipy.sparse.linalg as sl
    trans = np.array([not absorbing[i] for i in range(n)])
    keep = (A != B) & trans[A]
    A, B, R = A[keep], B[keep], R[keep]
    d = np.full(n, complex(s))
    np.add.at(d, A, R)
    d[~trans] = 1.0
    M = sp.diags(d) - sp.coo_matrix((R, (A, B)), shape=(n, n)).tocsr()
    return sl.spsolve(sp.csc_matrix(M), np.array(~trans, dtype=complex))


# ------------------------------------------------------------------ building blocks
def exp_ph(name):
    return {"init": [[1, []]], "out": [[[0, [name]]]]}


def h2_ph(y, m):
    """y, m: name prefixes: probabilities y+'1', y+'2', rates m+'1', m+'2'."""
    return {"init": [[1, [y + "1"]], [2, [y + "2"]]], "out": [[[0, [m + "1"]]], [[0, [m + "2"]]]]}


def erl_ph(k, name):
    return {"init": [[1, []]], "out": [[[i + 2 if i + 1 < k else 0, [name]]] for i in range(k)]}


def cox_ph(y, m):
    """continue to the second stage with probability y+'1'."""
    return {"init": [[1, []]], "out": [[[2, [m + "1", y + "1"]], [0, [m + "1", y + "2"]]], [[0, [m + "2"]]]]}


NONE = {"init": [], "out": []}


def mcfg(n=1, cap=20, arr=None, svc=None, batch=None, src=0, imp="", warm=None, cold=None, delay=None, first=None):
    return {"n": n, "cap": cap, "arr": arr or exp_ph("lam"), "svc": svc or exp_ph("mu"), "batch": batch or [[1, []]],
            "src": src, "imp": imp, "warm": warm or NONE, "cold": cold or NONE, "delay": delay or NONE,
            "first": first or NONE}


MINV = ["TypeOK", "NoIdling", "Vacation", "WarmHasWork", "DelayEmpty", "FirstHasWork", "Alive"]


class Sol:
    """Stationary solution of a Markov.tla chain."""

    def __init__(self, ch, par, wmoms=True):
        self.ch = ch
        S = ch.states
        n = len(S)
        A, B, R = ch.rates(par)
        ev = ch.events()
        self.pi = pi = stationary(n, A, B, R)
        self.k = np.array([s["k"] for s in S])
        self.busy = np.array([sum(s["x"]) + (s["v"][0] == "first") for s in S])
        cap = max(self.k)
        self.p = np.array([pi[self.k == j].sum() for j in range(cap + 1)])
        self.N = re((self.p * np.arange(cap + 1)).sum())
        self.Q = re((pi * (self.k - self.busy)).sum())
        self.mode = {m: re(sum(pi[i] for i, s in enumerate(S) if s["v"][0] == m)) for m in ("warm", "cold", "delay", "first")}
        self.cold0 = re(sum(pi[i] for i, s in enumerate(S) if s["v"][0] == "cold" and s["k"] == 0))
        arr = ev == "arr"
        fl = pi[A[arr]] * R[arr]
        self.flow = fl.sum()
        # states found and entered by arriving jobs (single arrivals)
        acc = self.k[B[arr]] > self.k[A[arr]]
        self.accepted = re(fl[acc].sum())
        self.loss = 1.0 - self.accepted / re(self.flow)
        self.parr = np.array([fl[self.k[A[arr]] == j].sum() for j in range(cap + 1)]) / self.flow
        self.w = None
        na = (ev != "arr") & (ev != "aphase")
        self._abs = (n, A[na], B[na], R[na], (self.k - self.busy) == 0)
        self._tgt, self._wt = B[arr][acc], fl[acc] / fl[acc].sum()
        if wmoms:
            self.w = [re((m[self._tgt] * self._wt).sum()) for m in absorb_moments(*self._abs)]
        self.p, self.parr, self.flow = self.p.real, self.parr.real, re(self.flow)


    def wlst(self, s):
        """Transform of the waiting time of an accepted job."""
        return complex((absorb_lst(*self._abs, s)[self._tgt] * self._wt).sum())

    def atom(self):
        """Part of the accepted jobs that do not wait."""
        return complex((self._abs[4][self._tgt] * self._wt).sum())


def re(x):
    return float(np.real(x))


def ph_moments(ph, par, count=4):
    m = len(ph["out"])
    cx = complex if any(isinstance(v, complex) for v in par.values()) else float
    T = np.zeros((m, m), dtype=cx)
    for i, o in enumerate(ph["out"]):
        for to, f in o:
            r = 1.0
            for x in f:
                r *= par[x]
            T[i, i] -= r
            if to:
                T[i, to - 1] += r
    a = np.zeros(m, dtype=cx)
    for ph_, f in ph["init"]:
        r = 1.0
        for x in f:
            r *= par[x]
        a[ph_ - 1] += r
    out, v = [], np.ones(m)
    for k in range(1, count + 1):
        v = k * np.linalg.solve(-T, v)
        out.append(re(a @ v))
    return out


def conv(a, b):
    return [a[0] + b[0], a[1] + 2 * a[0] * b[0] + b[1], a[2] + 3 * a[1] * b[0] + 3 * a[0] * b[1] + b[2]]


def deconv(v, b):
    w1 = v[0] - b[0]
    w2 = v[1] - 2 * w1 * b[0] - b[1]
    return [w1, w2, v[2] - 3 * w2 * b[0] - 3 * w1 * b[1] - b[2]]
