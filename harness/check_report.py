"""M03: comparison tables show the values they are given (spec/Report.tla); M04: the drawing of a network (spec/Graph.tla)."""
import contextlib, copy, decimal, io, json, os, re
from common import *
from judge import judge

ANSI = re.compile(r"\x1b\[[0-9;]*[A-Za-z]")
TEXT = {"title": "the table is titled as the other kind of time", "missing": "a row is missing", "extra": "a row too many",
        "label": "a row has the wrong number", "calc": "the calculated column does not show the calculated value",
        "sim": "the simulated column does not show the simulated value", "crash": "printing the table raised an exception"}


def number(s):
    """A printed cell as a canonical decimal; what is not a number is shown as it is."""
    try:
        d = decimal.Decimal(s).normalize()
        return "0" if d == 0 else str(d)
    except decimal.InvalidOperation:
        return "text " + s


def printed(fn, *a, **k):
    """The lines a call prints to the standard output, without colours."""
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        fn(*a, **k)
    return [l for l in ANSI.sub("", buf.getvalue()).replace("\r", "\n").split("\n") if l.strip()]


def title(lines):
    t = " ".join(lines[:4]).lower()
    return "waiting" if "ожидани" in t else "sojourn" if "пребывани" in t else "probs" if "вероятност" in t else "none"


def columns(lines):
    """Which of the columns of a two-column table is the calculated one, from its header."""
    for l in lines:
        c = [x.strip() for x in l.split("|")]
        if len(c) >= 3 and "Числ" in c and "ИМ" in c:
            return c.index("Числ"), c.index("ИМ")
    return 1, 2


def two_columns(lines):
    a, b = columns(lines)
    rows = []
    for l in lines:
        c = [x.strip() for x in l.split("|")]
        if len(c) >= 3 and re.fullmatch(r"-?\d+", c[0]):
            rows.append([int(c[0]), number(c[a]), number(c[b])])
    return rows


def by_class(lines):
    """One entry per class: [class, calculated row, simulated row]; the class number stands between its two rows."""
    rows, cur = [], {}
    for l in lines:
        c = [x.strip() for x in l.split("|")]
        cells = [number(x) for x in c[2:] if x]
        if len(c) > 2 and c[1] == "ИМ":
            cur["sim"] = cells
        elif len(c) > 2 and c[1] == "Р":
            cur["calc"] = cells
        elif re.fullmatch(r"\d+", c[0]) and len(c) > 1 and set(c[1]) == {"-"}:
            cur["k"] = int(c[0])
        if len(cur) == 3:
            rows.append([cur["k"], cur["calc"], cur["sim"]])
            cur = {}
    return rows


def case(r, kind):
    import most_queue.general_utils.tables as T
    hi = 999 if kind == "classes" else 99999

    def vals(n):
        """Values the printed precision shows exactly: plain integers, or of many magnitudes (zeros and repetitions too)."""
        if r.random() < 0.5:
            return [number(str(r.randint(0, hi))) for _ in range(n)]
        q = ["0"]
        for _ in range(n):
            v = decimal.Decimal(r.randint(-hi if r.random() < 0.1 else 0, hi)).scaleb(r.choice([-15, -9, -6, -5, -4, -3, -2, -1, 0, 3, 7]))
            q.append(q[-1] if r.random() < 0.25 else number(str(v)))
        k = r.randint(1, n) if r.random() < 0.4 else n      # the rest is zero, as probabilities of long lines are
        return q[1:k + 1] + ["0"] * (n - k)
    exact = lambda x: int(decimal.Decimal(x)) if decimal.Decimal(x) % 1 == 0 else float(x)
    shape = lambda q: [complex(exact(x), r.randint(1, 9)) if clx else float(x) if r.random() < 0.5 else exact(x) for x in q]
    plain = lambda q: [float(x) if r.random() < 0.5 else exact(x) for x in q]
    w, clx = r.randint(0, 1), kind == "times" and r.random() < 0.4
    c = {"kind": kind, "w": w, "size": 10, "err": "", "title": "", "got": []}
    try:
        if kind == "classes":
            K, n = r.randint(1, 5), r.randint(1, 4)
            c["calc"], c["sim"] = [vals(n) for _ in range(K)], [vals(n) for _ in range(K)]
            lines = printed(T.times_print_with_classes, [plain(q) for q in c["sim"]], [plain(q) for q in c["calc"]], is_w=bool(w))
            c["got"] = by_class(lines)
        elif kind == "probs":
            c["calc"], c["sim"] = vals(r.choice([3, 8, 12, 30])), vals(r.choice([3, 8, 12, 30]))
            if r.random() < 0.15:
                c["sim"] = list(c["calc"])
            if r.random() < 0.6:
                c["size"] = r.choice([1, 2, 5, 10, 15, 40])
                lines = printed(T.probs_print, plain(c["sim"]), plain(c["calc"]), c["size"])
            else:
                lines = printed(T.probs_print, plain(c["sim"]), plain(c["calc"]))
            c["got"] = two_columns(lines)
        else:
            n = r.choice([1, 3, 3, 4])
            c["calc"], c["sim"] = vals(n), vals(r.choice([n, n, 2, 4]))
            if r.random() < 0.25:
                c["calc"], c["sim"] = c["calc"][:1], c["sim"][:1]
                a, b = shape(c["sim"])[0], shape(c["calc"])[0]
            else:
                a, b = shape(c["sim"]), shape(c["calc"])
            lines = printed(T.times_print, a, b, bool(w)) if w == 0 or r.random() < 0.5 else printed(T.times_print, a, b)
            c["got"] = two_columns(lines)
        c["title"] = title(lines)
    except Exception as e:  # noqa
        c["err"] = "%s: %s" % (type(e).__name__, e)
    c["meta"] = {"fam": kind, "err": c["err"]}
    c["cfg"] = {"kind": kind, "w": w, "size": c["size"], "complex": clx}
    c["steps"] = c["got"] or [[]]
    return c


def validate(cases, module="ReportTrace", consts=""):
    path = os.path.join(scratch(), "rep_%d.json" % len(os.listdir(scratch())))
    with open(path, "w") as fh:
        json.dump([{k: v for k, v in c.items() if k not in ("meta", "cfg", "steps")} for c in cases], fh)
    r = tlc(module, "SPECIFICATION Spec\nINVARIANT Done\n" + consts, env={"TRACES": path}, workers=4)
    v = {x["tr"]: x for x in r.lines("VERDICT")}
    if not r.ok or len(v) != len(cases):
        raise CheckError(module + ": validation did not finish\n" + "\n".join(r.out.splitlines()[-40:]))
    return [v[i + 1] for i in range(len(cases))], r


# ---------------------------------------------------------------- M04
GTEXT = {"edges": "the edges are not those between places with a non-zero routing probability", "label": "an edge shows another probability",
         "twice": "an edge is drawn twice", "places": "the places shown are not those of the network",
         "colour": "the coloured places are not the source and the drain", "crash": "drawing the network raised an exception"}


def graph_case(r, engine):
    import numpy as np
    from most_queue.theory.network_viewer import create_DG
    n = r.randint(1, 6)
    dens = r.choice([0.2, 0.5, 1.0])
    m = [["0"] * n for _ in range(n)]
    for row in m:
        k = r.sample(range(n), max(1, round(dens * r.random() * n)))
        if r.random() < 0.3:
            k = k[:1]
        cut = sorted(r.sample(range(1, 1000), len(k) - 1)) + [1000]
        for j, a, b in zip(k, [0] + cut, cut):
            row[j] = number(str(decimal.Decimal(b - a).scaleb(-3)))
    c = {"engine": engine, "m": m, "err": "", "got": [], "places": [], "coloured": [], "colour": 0}
    try:
        R = [[float(x) for x in row] for row in m]
        R = np.array(R) if r.random() < 0.5 else np.matrix(R)
        if engine == "networkx":
            g = create_DG(R) if r.random() < 0.5 else create_DG(R, engine="networkx")
            c["got"] = [[int(a), int(b), number(str(float(d.get("weight", -1))))] for a, b, d in g.edges(data=True)]
            c["places"] = [int(x) for x in g.nodes]
        else:
            c["colour"] = r.randint(0, 1)
            g = create_DG(R, engine="graphviz") if c["colour"] else create_DG(R, engine="graphviz", colorize_source_and_drain=False)
            for line in g.source.splitlines():
                e = re.match(r'\s*"?(-?\d+)"?\s*->\s*"?(-?\d+)"?\s*(\[.*\])?', line)
                v = re.match(r'\s*"?(-?\d+)"?\s*(\[.*\])?\s*$', line)
                lab = re.search(r'label="?([^\s"\]]*)', line)
                if e:
                    c["got"].append([int(e.group(1)), int(e.group(2)), number(lab.group(1)) if lab else "none"])
                elif v:
                    c["places"].append(int(v.group(1)))
                    if "style=filled" in line:
                        c["coloured"].append(int(v.group(1)))
    except Exception as e:  # noqa
        c["err"] = "%s: %s" % (type(e).__name__, e)
    c["meta"] = {"fam": engine, "err": c["err"]}
    c["cfg"] = {"engine": engine, "colour": c["colour"], "matrix": m}
    c["steps"] = c["got"] or [[]]
    return c


def main_graph(pid):
    rep = Report(pid)
    r = rng(pid)
    f = bg(run_mc, "GraphMC", dict(V={0, 1} if not THOROUGH else {0, 1, 2}, L=3, Zero=0), ["Invariant"], [], workers=2)
    cases = [graph_case(r, e) for _ in range(400 if THOROUGH else 60) for e in ("networkx", "graphviz")]
    controls = []
    for i in range(9):
        c = copy.deepcopy(r.choice([x for x in cases if x["got"] and not x["err"]] or cases))
        if not c["got"]:
            continue
        e = r.choice(c["got"])
        if i % 3 == 0:
            c["got"].remove(e)
        elif i % 3 == 1:
            e[2] += "1"
        else:
            e[0], e[1] = e[1], e[0] - 1
        c["meta"] = {"fam": "control", "err": None}
        controls.append(c)
    rep.add_mc(f.result(), "GraphMC: all matrices up to three places")
    judge(rep, cases, lambda q: validate(q, "GraphTrace", 'CONSTANT Zero = "0"\n'), set(GTEXT), GTEXT, controls)
    rep.samples = [{k: c[k] for k in ("engine", "m", "got")} for c in cases[:3]]
    rep.assumptions = ["probabilities have three decimals"]
    return rep.finish()


def main(pid):
    if pid == "M04":
        return main_graph(pid)
    rep = Report(pid)
    r = rng(pid)
    f = bg(run_mc, "ReportMC", dict(V={1, 2}, L=4 if THOROUGH else 3), ["Invariant"], [], workers=2)
    cases = [case(r, k) for _ in range(400 if THOROUGH else 60) for k in ("times", "probs", "classes")]
    controls = []
    for i in range(8):
        c = copy.deepcopy(r.choice([x for x in cases if x["got"] and not x["err"]] or cases))
        if not c["got"]:
            continue
        row = r.choice(c["got"])
        if c["kind"] == "classes":
            row[1 + i % 2][-1] += "1"
        elif i % 3:
            row[i % 3] += "1"
        else:
            row[0] += 1
        c["meta"] = {"fam": "control", "err": None}
        controls.append(c)
    rep.add_mc(f.result(), "ReportMC: all short pairs of columns, both kinds of table, every row limit")
    judge(rep, cases, validate, set(TEXT), TEXT, controls)
    rep.samples = [{k: c[k] for k in ("kind", "calc", "sim", "got")} for c in cases[:3]]
    rep.assumptions = ["values have at most five (by class: three) significant digits, which the printed precision shows exactly"]
    return rep.finish()
