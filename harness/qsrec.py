"""Recording histories of the single-class simulators for spec/QSTrace.tla."""
import json, os
from common import *
import scripted
from scripted import Script, Ids, BIG, as_int, tm, moms, quiet

KEY = {"arr": 1001.0, "svc": 1002.0, "warm": 1003.0, "cold": 1004.0, "delay": 1005.0, "imp": 1006.0}
SCALES = [1.0, 1.0, 0.125, 2.0 ** -10, 64.0, 2.0 ** 22, 2.0 ** 31, 2.0 ** -40]
NAME = {v: k for k, v in KEY.items()}
STREAMS = ["arr", "svc", "warm", "cold", "delay", "imp"]


def build(cfg, container="list"):
    """A simulator for configuration cfg; the current Script must be set."""
    buf = None if cfg["buf"] < 0 else cfg["buf"]
    k = cfg["kind"]
    if k == "plain":
        from most_queue.sim.qs_sim import QueueingSystemSimulator
        q = QueueingSystemSimulator(cfg["n"], buffer=buf, buffer_type=container)
    elif k == "imp":
        from most_queue.sim.impatient_queue_sim import ImpatientQueueSim
        q = ImpatientQueueSim(cfg["n"], buffer=buf)
    elif k == "batch":
        from most_queue.sim.batch_sim import QueueingSystemBatchSim
        q = QueueingSystemBatchSim(cfg["n"], cfg.get("probs") or [1.0], buffer=buf)
    else:
        from most_queue.sim.queue_finite_source_sim import QueueingFiniteSourceSim
        q = QueueingFiniteSourceSim(cfg["n"], cfg["m"], buffer=buf)
    q.set_sources(KEY["arr"], "D")
    q.set_servers(KEY["svc"], "D")
    if cfg["warm"]:
        q.set_warm(KEY["warm"], "D")
    if cfg["cold"]:
        q.set_cold(KEY["cold"], "D")
    if cfg["delay"]:
        q.set_cold_delay(KEY["delay"], "D")
    if k == "imp":
        q.set_impatiens(KEY["imp"], "D")
    return q


def arrs(q, cfg):
    if cfg["kind"] == "finite":
        return sorted(tm(a) for a in q.arrival_times if a / Script.scale < BIG)
    return [tm(q.arrival_time)]


def phases(q):
    act = [(n, p) for n, p in (("warm", q.warm_phase), ("cold", q.cold_phase), ("delay", q.cold_delay_phase))
           if p.is_start]
    if not act:
        # a phase that is not running must have no end scheduled
        for n, p in (("warm", q.warm_phase), ("cold", q.cold_phase), ("delay", q.cold_delay_phase)):
            if p.end_time / Script.scale < BIG:
                return "ghost-" + n, tm(p.end_time)
        return "none", 0
    if len(act) > 1:
        return "+".join(n for n, _ in act), 0
    return act[0][0], tm(act[0][1].end_time)


def project(q, cfg, ids, cap):
    busy = [(s.tsk_on_service, s.time_to_end_service) for s in q.servers if not s.is_free]
    line = list(q.queue.queue)
    ids.see([t for t, _ in busy] + line)
    ph, pend = phases(q)
    seen = len(ids)
    wc = seen - len(line)
    vc = seen - len(line) - len(busy)
    top = [tm(x) for x in q.p[:cap + 1]]
    while top and top[-1] == 0:
        top.pop()
    return {"now": tm(q.ttek), "arrs": arrs(q, cfg), "q": [ids[t] for t in line],
            "busy": [[ids[t], tm(e)] for t, e in busy], "ph": ph, "pend": pend,
            "arrived": q.arrived, "served": q.served, "dropped": q.dropped, "taken": q.taked,
            "insys": q.in_sys, "free": q.free_channels, "seen": seen, "wc": wc, "vc": vc,
            "w": moms(q.w, wc), "v": moms(q.v, vc),
            "bp": moms(q.ppnz, q.ppnz_moments), "bc": q.ppnz_moments,
            "p": top,
            "zerow": q.zero_wait_arrivals_num if cfg["kind"] == "plain" else -1,
            "pht": [tm(q.warm_phase.prob), tm(q.cold_phase.prob), tm(q.cold_delay_phase.prob)],
            "phn": [q.warm_phase.starts_times, q.cold_phase.starts_times, q.cold_delay_phase.starts_times,
                    q.warm_after_cold_starts]}


def crash_o(prev):
    o = {k: (-1 if isinstance(v, int) else v) for k, v in prev.items()}
    o["ph"] = "crash"
    return o


def record(cfg, script, nsteps, container="list", batches=None, final=True):
    """Run nsteps steps; returns (trace, error or None)."""
    scripted.install()
    Script.current = sc = Script({KEY[k]: v for k, v in script.items() if k in KEY}, default=40, scale=cfg.get("scale", 1.0))
    err = None
    cap = nsteps * max(1, len(cfg.get("probs") or [1])) + cfg.get("m", 0) + 2
    tr = {"cfg": {k: cfg[k] for k in ("kind", "n", "buf", "warm", "cold", "delay", "m")}, "cap": cap, "steps": []}
    with quiet():
        try:
            q = build(cfg, container)
        except Exception as e:  # noqa: a legal configuration must be accepted
            return tr, "construction: %s: %s" % (type(e).__name__, e)
        tr["d0"] = sorted(int(x) for key, x in sc.take() if key == KEY["arr"])
        tr["arrs"] = arrs(q, cfg)
        ids = Ids()
        o = project(q, cfg, ids, cap)
        for i in range(nsteps):
            a0 = q.arrived
            try:
                with time_limit(20):
                    q.run_one_step()
                o = project(q, cfg, ids, cap)
            except Exception as e:  # noqa: the implementation failed on a legal history
                err = "%s: %s" % (type(e).__name__, e)
                o = crash_o(o)
            d = {k: [] for k in STREAMS}
            for key, x in sc.take():
                d[NAME[key]].append(int(x))
            d["b"] = q.arrived - a0
            fin = []
            if (i == nsteps - 1) and err is None and final and q.ttek > 0:
                full = q.get_p()
                gp = [tm(x * q.ttek) for x in full[:cap + 1]] + ([-1] if any(full[cap + 1:]) else [])
                while gp and gp[-1] == 0:
                    gp.pop()
                fin = [gp, [tm(q.get_warmup_prob() * q.ttek), tm(q.get_cold_prob() * q.ttek),
                            tm(q.get_cold_delay_prob() * q.ttek)]]
            tr["steps"].append({"d": d, "o": o, "fin": fin, "run": []})
            if err:
                break
    # no more jobs than have arrived can be present
    tr["cap"] = min(cap, max(40, sum(max(1, e["d"]["b"]) for e in tr["steps"]) + 2))
    Script.current = None
    return tr, err


def record_run(cfg, script, total, mode, container="list", first=0, limit=400):
    """The same script stepwise and through run(total); the last step carries run()'s final state."""
    scripted.install()
    sc0 = {KEY[k]: v for k, v in script.items() if k in KEY}
    err = None
    with quiet():
        Script.current = Script(sc0, default=40, scale=cfg.get("scale", 1.0))
        try:
            qa = build(cfg, container)
            with time_limit(20):
                if first:           # run() may be called again to carry on
                    qa.run(first, is_real_served=bool(mode))
                qa.run(total - (0 if mode else first), is_real_served=bool(mode))
        except Exception as e:  # noqa
            err = "%s: %s" % (type(e).__name__, e)
        Script.current = Script(sc0, default=40, scale=cfg.get("scale", 1.0))
        n = 0
        try:
            qb = build(cfg, container)
            while n < limit and (qb.served < total if mode else n < total):
                with time_limit(20):
                    qb.run_one_step()
                n += 1
        except Exception:  # noqa: recorded as a crash below
            n += 1
    tr, err2 = record(cfg, script, n, container, final=False)
    if err2 or not tr["steps"]:
        return tr, err2 or err
    o = tr["steps"][-1]["o"]
    if err:
        tr["steps"][-1]["o"] = crash_o(o)
        return tr, err
    ids = Ids()
    x = project(qa, cfg, ids, tr["cap"])
    x["w"] = moms(qa.w, o["wc"])
    x["v"] = moms(qa.v, o["vc"])
    x["mode"], x["total"] = mode, total
    tr["steps"][-1]["run"] = [{k: x[k] for k in ("now", "arrs", "arrived", "served", "dropped", "taken", "insys",
                                                "w", "v", "p", "mode", "total")}]
    return tr, None


def cfg_(kind="plain", n=1, buf=-1, warm=False, cold=False, delay=False, m=0, probs=None):
    c = dict(kind=kind, n=n, buf=buf, warm=warm, cold=cold, delay=delay, m=m)
    if probs:
        c["probs"] = probs
    return c


def rand_script(r, cfg, steps, load=None):
    """Random integer streams; the load is varied so that lines form and empty."""
    n = cfg["n"]
    amax = r.choice([1, 2, 3, 4, 6])
    smax = max(1, int(amax * n * (load or r.choice([0.4, 0.8, 1.0, 1.3, 2.0]))))
    smax = min(smax, 9)
    L = steps * 4 + 10
    s = {"arr": [r.randint(1, amax) for _ in range(L)], "svc": [r.randint(1, smax) for _ in range(L)]}
    # bursts: now and then a long gap lets the system empty
    if cfg["kind"] != "finite":
        for k in range(0, L, r.randint(4, 9)):
            s["arr"][k] = r.randint(amax, amax + smax + 4)
    else:
        amax2 = amax * cfg["m"]
        s["arr"] = [r.randint(1, amax2) for _ in range(L)]
    for ph in ("warm", "cold", "delay"):
        mx = r.choice([1, 3, 7])
        s[ph] = [r.randint(1, mx) for _ in range(L)]
    mx = r.choice([1, 3, 6, 12])
    s["imp"] = [r.randint(1, mx) for _ in range(L)]
    return s


# ------------------------------------------------------------------ families
def rand_cfg(r, fam):
    if fam == "fifo":
        return cfg_(n=r.choice([1, 1, 2, 3, 4, 6, 1, 2, 3, 12]))
    if fam == "loss":
        return cfg_(n=r.choice([1, 2, 3]), buf=r.choice([0, 1, 1, 2, 3]))
    if fam == "vac":
        w, c, d = r.choice([(1, 0, 0), (1, 1, 0), (1, 1, 1), (0, 1, 0), (0, 1, 1), (1, 1, 1)])
        return cfg_(n=r.choice([1, 2, 3]), buf=r.choice([-1, -1, -1, 1, 2, 3]), warm=bool(w), cold=bool(c), delay=bool(d))
    if fam == "imp":
        return cfg_("imp", n=r.choice([1, 1, 2, 3]), buf=r.choice([-1, -1, 1, 2, 3]))
    if fam == "batch":
        k = r.choice([1, 2, 3, 4])
        ps = [r.random() for _ in range(k)]
        t = sum(ps)
        ps = [x / t for x in ps]
        ps[-1] = max(0.0, 1.0 - sum(ps[:-1])) + 1e-9
        return cfg_("batch", n=r.choice([1, 2, 3]), buf=r.choice([-1, -1, 0, 1, 3]), probs=ps)
    if fam == "finite":
        n = r.choice([1, 1, 2, 3])
        return cfg_("finite", n=n, m=r.randint(1, 6), buf=r.choice([-1, -1, 0, 1, 2]))
    raise ValueError(fam)


def make_traces(r, fam, count, steps):
    out = []
    for i in range(count):
        cfg = rand_cfg(r, fam)
        cfg["scale"] = r.choice(SCALES)
        sc = rand_script(r, cfg, steps)
        cont = "deque" if (i % 3 == 2 and cfg["kind"] == "plain") else "list"
        tr, err = record(cfg, sc, steps, cont)
        tr["meta"] = {"fam": fam, "container": cont, "err": err, "script": {k: v[:60] for k, v in sc.items()}}
        out.append(tr)
    return out


def deep_script(r, cfg, steps):
    """Overload: the line grows past any small constant, then (longer gaps) drains again."""
    L = steps * 4 + 10
    n = cfg["n"]
    up = r.randint(steps // 2, 3 * steps // 5)
    hi = r.choice([5, 7, 9]) * n
    s = {"arr": [1 if k < up else r.randint(2, 40) for k in range(L)],
         "svc": [r.randint(max(1, hi - 2), hi) if k < up // 6 else r.randint(1, 2) for k in range(L)]}
    if cfg["kind"] == "finite":
        s["arr"] = [r.randint(1, 3) for _ in range(L)]
        s["svc"] = [r.randint(1, 2) if k % 3 else r.randint(3, 6) for k in range(L)]
    for ph in ("warm", "cold", "delay"):
        mx = r.choice([3, 40, 70])
        s[ph] = [r.randint(1, mx) for _ in range(L)]
    lo = r.choice([2, 60, 90])
    s["imp"] = [r.randint(lo, 130) if r.random() < 0.9 else r.randint(1, 12) for _ in range(L)]
    return s


def deep_traces(r, fam, count, steps=240):
    """Histories with lines of dozens to hundreds of jobs, large buffers and many sources."""
    out = []
    if fam == "batch":
        steps //= 2
    for i in range(count):
        cfg = rand_cfg(r, fam)
        if cfg["buf"] >= 0:
            cfg["buf"] = r.choice([-1 if cfg["kind"] != "plain" else 60, r.randint(30, 80), 100])
        if cfg["kind"] == "finite":
            cfg["m"] = r.randint(30, 80)
            cfg["buf"] = r.choice([-1, 20, 50])
        cfg["n"] = r.choice([1, 1, 2, 3, 10 if fam in ("fifo", "loss") else 5])
        cfg["scale"] = r.choice(SCALES)
        sc = deep_script(r, cfg, steps)
        cont = "deque" if (i % 3 == 2 and cfg["kind"] == "plain") else "list"
        tr, err = record(cfg, sc, steps, cont)
        tr["meta"] = {"fam": fam, "container": cont, "err": err, "script": {k: v[:steps] for k, v in sc.items()}}
        out.append(tr)
    return out


def long_traces(r, fam, count, steps=1200):
    """Long histories under a moderate load: statistics over many hundreds of jobs."""
    out = []
    for i in range(count):
        cfg = rand_cfg(r, fam)
        cfg["n"] = r.choice([1, 2, 3, 12])
        cfg["scale"] = r.choice(SCALES[:5])
        sc = rand_script(r, cfg, steps, load=r.choice([0.5, 0.8]))
        if cfg["n"] > 3 and cfg["kind"] != "finite":
            hi = int(1.6 * cfg["n"] * sum(sc["arr"]) / len(sc["arr"]))
            sc["svc"] = [r.randint(1, hi) for _ in sc["svc"]]
        elif cfg["kind"] == "finite":
            cfg["m"] = r.choice([2, 6, 30])
            sc["arr"] = [r.randint(1, 4 * cfg["m"]) for _ in sc["arr"]]
        tr, err = record(cfg, sc, steps)
        tr["cap"] = max(40, 2 * max(len(e["o"]["q"]) + len(e["o"]["busy"]) for e in tr["steps"])) if tr["steps"] else 40
        tr["meta"] = {"fam": fam, "container": "list", "err": err, "script": {k: v[:steps] for k, v in sc.items()}}
        out.append(tr)
    return out


def surge_traces(r, fam, count, steps=700):
    """Line after line of dozens of jobs: overload with a small waiting room, or surges (under long vacations, if there are any)
    that each time drain away again."""
    out = []
    for i in range(count):
        cfg = rand_cfg(r, fam)
        cfg["n"] = r.choice([1, 2, 3, 5])
        cfg["scale"] = r.choice(SCALES[:5])
        L = steps + 10
        full = cfg["buf"] >= 0 or (fam in ("loss", "batch", "finite", "imp") and r.random() < 0.5)
        if full:
            cfg["buf"] = r.choice([1, 2, 8, 25])
            amax = r.choice([2, 4])
            smax = int(1.6 * (amax + 1) * cfg["n"] * (2.5 if fam == "batch" else 1))
            sc = {"arr": [r.randint(1, amax) for _ in range(L)], "svc": [r.randint(1, smax) for _ in range(L)], "imp": [r.randint(1, 60) for _ in range(L)]}
            mx = r.choice([3, 30])
            for ph in ("warm", "cold", "delay"):
                sc[ph] = [r.randint(1, mx) for _ in range(L)]
        else:
            up, down = r.randint(40, 80), r.randint(30, 60)
            sc = {"arr": [r.randint(1, 2) if k % (up + down) < up else r.randint(4, 30) for k in range(L)],
                  "svc": [r.randint(1, (2 if cfg["warm"] or cfg["cold"] else 4) * cfg["n"]) for _ in range(L)], "imp": [r.randint(20, 90) for _ in range(L)]}
            for ph in ("warm", "cold", "delay"):
                sc[ph] = [r.randint(2, 10) if ph == "delay" else r.randint(20, 120) for _ in range(L)]
        if cfg["kind"] == "finite":
            cfg["m"] = cfg["n"] + r.choice([3, 12, 40])
            sc["arr"] = [r.randint(1, 2 * cfg["m"]) for _ in range(L)]
            sc["svc"] = [r.randint(1, 4 * cfg["n"]) for _ in range(L)]
        tr, err = record(cfg, sc, steps)
        tr["cap"] = max(40, 2 * max(len(e["o"]["q"]) + len(e["o"]["busy"]) for e in tr["steps"])) if tr["steps"] else 40
        tr["meta"] = {"fam": fam, "container": "list", "err": err, "script": sc}
        out.append(tr)
    return out


def replay_emitted(emits, container="list"):
    """Run behaviours produced by the model checker through the implementation."""
    out = []
    for e in emits:
        cfg, h = e["cfg"], e["h"]
        if cfg["kind"] == "batch":
            continue
        tr, err = record(cfg, h, 2 * len(h["arr"]) + 4, container, final=False)
        tr["meta"] = {"fam": "emit", "container": container, "err": err, "script": h}
        out.append(tr)
    return out


def validate(traces, module="QSTrace", workers=4, heap="3g", timeout=800, resync=3):
    """Check recorded traces against the specification; returns list of verdicts (one per trace)."""
    path = os.path.join(scratch(), "traces_%d.json" % len(os.listdir(scratch())))
    slim = [{k: v for k, v in t.items() if k != "meta"} for t in traces]
    with open(path, "w") as fh:
        json.dump(slim, fh)
    r = tlc(module, "SPECIFICATION Spec\nINVARIANT Done\n", env={"TRACES": path, "RESYNC": str(resync)}, workers=workers, heap=heap, timeout=timeout)
    v = {x["tr"]: x for x in r.lines("VERDICT")}
    if resync and (not r.ok or len(v) != len(traces)):
        # an adopted state outside the specification could not be continued: judge up to the first mismatch only
        return validate(traces, module, workers, heap, timeout, 0)
    if not r.ok or len(v) != len(traces):
        raise CheckError("trace validation did not finish: %d of %d verdicts\n%s" %
                         (len(v), len(traces), "\n".join(r.out.splitlines()[-60:])))
    return [v[i + 1] for i in range(len(traces))], r
