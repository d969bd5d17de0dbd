"""Verdicts of TLC on recorded histories -> violations of one property (shared by all trace checks)."""
import copy
from collections import Counter
from common import *


def judge(rep, traces, validate, clauses, text, controls=(), famof=None, chunk=600):
    """validate(list) -> (verdicts, tlc result).  A verdict lists (clause, step) mismatches."""
    famof = famof or (lambda t: t["meta"]["fam"])
    for t in traces:
        if not t["steps"] and t["meta"]["err"] and "crash" in clauses:
            rep.violate("%s:crash" % famof(t), "the simulator failed before its first event [%s], configuration %s" %
                        (t["meta"]["err"], t["cfg"]), {"cfg": t["cfg"], "meta": t["meta"]})
    traces = [t for t in traces if t["steps"]]
    controls = list(controls)
    allt = traces + controls
    verdicts = []
    for k in range(0, len(allt), chunk):
        v, res = validate(allt[k:k + chunk])
        verdicts += v
        rep.states += res.distinct
        rep.transitions += res.generated
    other = Counter()
    for t, v in zip(traces, verdicts):
        for cl, step in v["bad"]:
            if cl == "INV":
                raise CheckError("specification invariant broken on a trace: spec error (%s)" % famof(t))
            if cl in clauses:
                txt = "%s (%s) at step %d of a %s history, configuration %s" % (
                    text.get(cl, cl + " differs"), cl, step, famof(t), t["cfg"])
                if cl == "crash":
                    txt += " [%s]" % t["meta"]["err"]
                k = max(0, step - 3)
                rep.violate("%s:%s" % (famof(t), cl), txt,
                            {"cfg": t["cfg"], "arrs": t.get("arrs"), "meta": t["meta"], "step": step, "steps": t["steps"][k:step]})
            else:
                other[cl] += 1
    for t, v in zip(controls, verdicts[len(traces):]):
        if not v["bad"] and not rep.violations:
            raise CheckError("negative control accepted: %s" % t["meta"]["fam"])
    rep.traces += len(traces)
    c = rep.cov
    c["implementation_steps_checked"] = c.get("implementation_steps_checked", 0) + sum(len(t["steps"]) for t in traces)
    c["negative_controls_rejected"] = c.get("negative_controls_rejected", 0) + len(controls)
    fams = Counter(c.get("families", {}))
    fams.update(Counter(t["meta"]["fam"] for t in traces))
    c["families"] = dict(fams)
    if other:
        rep.notes.append("mismatches owned by other properties: %s" % dict(other))
    return traces


def dedup(lines):
    out, seen = [], set()
    for e in lines:
        k = json.dumps(e, sort_keys=True)
        if k not in seen:
            seen.add(k)
            out.append(e)
    return out
