"""worker.py PROP INDEX ROOT OUT [SCALE]: runs one verification task and writes what happened as JSON."""
import importlib
import json
import os
import resource
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
import z3
from engine.verify import run_task
from engine import discharge as D
from engine.solve import apps

TRANSCENDENTAL = ("log", "sqrt", "sin", "cos", "exp", "hypot", "atan", "pow")


def definite(eng, o):
    """The countermodel interprets nothing that is only axiomatized: it describes a real input of the function."""
    if o.abstract or o.model is None or o.univ:
        return False
    for f in list(o.pc) + [o.goal]:
        for a in apps(f):
            n = a.decl().name()
            if n in eng.sums or n in eng.counts or n in eng.stats or n in eng.exs or n in eng.spec_defs:
                return False
            if n.startswith(("count_", "source_", "rank_", "strlen(")) or any(t in n.lower() for t in TRANSCENDENTAL) or ("!" in n and n not in eng.skolem) or "havoc" in n or "sorted" in n:
                return False
    return True


def constants(m):
    out = {}
    try:
        for d in m.decls():
            if d.arity() == 0:
                v = m[d]
                if z3.is_rational_value(v) or z3.is_int_value(v):
                    out[d.name()] = float(v.as_fraction()) if z3.is_rational_value(v) else v.as_long()
                elif z3.is_algebraic_value(v):
                    out[d.name()] = float(v.approx(10).as_fraction())
                else:
                    out[d.name()] = str(v)[:80]
            elif len(out) < 60:
                i = m[d]
                out[d.name()] = str(i)[:300]
    except (z3.Z3Exception, AttributeError, OverflowError):
        pass
    return out


def main():
    prop, index, root, out = sys.argv[1:5]
    scale = float(sys.argv[5]) if len(sys.argv) > 5 else 1.0
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    mod = importlib.import_module("contracts." + prop)
    t = list(mod.tasks())[int(index)]
    t.seconds *= scale
    t.oblig *= scale
    t.ms = int(t.ms * scale)
    r = run_task(root, t)
    obls = []
    for o in r.obls:
        d = dict(name=o.name, where=str(o.where), result=o.result, backend=o.backend, seconds=round(o.time, 3))
        if o.result != "proved":
            d["info"] = o.info
            d["goal"] = str(getattr(o, "failed_goal", o.goal))[:2000]
            d["assumptions"] = [str(p)[:300] for p in o.pc[-12:]]
            d["definite"] = o.result == "refuted" and definite(r.eng, o)
            if o.model is not None:
                d["model"] = constants(o.model)
        obls.append(d)
    json.dump(dict(task=t.name, func=t.func, bounded=t.bounded, status=r.status, reason=r.reason, paths=r.paths, seconds=round(r.seconds, 2), truncated=bool(r.truncated),
                   functions=sorted(map(str, r.functions)), contracts=sorted(map(str, r.contracts)), library=sorted(map(str, r.models)), obligations=obls,
                   trace=getattr(r, "where", []) if r.status == "unsupported" else []), open(out, "w"))


main()
