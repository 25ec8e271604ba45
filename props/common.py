"""Shared plumbing of the property checks: program loading, reports, known findings, evidence."""
import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)

from vsa import extract, model, sim  # noqa: E402


class Broken(Exception):
    """The analysis cannot decide: an anchor vanished or a rule matched nothing."""


class Report(object):
    def __init__(self, prop):
        self.prop = prop
        self.viol = []
        self.counts = {}
        self.samples = []
        self.notes = []
        self.keys = set()

    def violation(self, rule, fn, line, what, key=None, file=None):
        """fn: function name; key: identity that survives unrelated edits (no line numbers)."""
        k = key or "%s|%s|%s" % (rule, fn, what)
        if k in self.keys:
            return
        self.keys.add(k)
        self.viol.append({"rule": rule, "file": file or "", "line": line, "function": fn, "what": what, "key": k})

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def need(self, name, minimum):
        """Anchor guard: the rule must have had something to look at."""
        got = self.counts.get(name, 0)
        if got < minimum:
            raise Broken("rule instances vanished: %s = %d, expected at least %d" % (name, got, minimum))


_progs = {}


def program(libs):
    key = tuple(libs)
    if key not in _progs:
        fs = extract.lib_sources(libs)
        if not fs:
            raise Broken("no sources found for %s" % (libs,))
        _progs[key] = model.Program(extract.extract(fs))
    return _progs[key]


def program_files(files):
    fs = [os.path.join(extract.SRC, f) for f in files]
    fs = [f for f in fs if os.path.exists(f)]
    if not fs:
        raise Broken("no sources found for %s" % (files,))
    return model.Program(extract.extract(fs))


def load_known(prop):
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return {}
    d = json.load(open(p))
    return {e["key"]: e for e in d.get("findings", []) if e["property"] == prop}


def finish(rep, meta, t0):
    known = load_known(rep.prop)
    new = [v for v in rep.viol if v["key"] not in known]
    old = [v for v in rep.viol if v["key"] in known]
    for v in old:
        print("KNOWN-FINDING: property=%s %s:%s %s: %s" % (rep.prop, v["file"], v["line"], v["function"],
                                                          known[v["key"]].get("what", v["what"])))
    ev = {
        "property": rep.prop,
        "tier": os.environ.get("VERIF_TIER", "quick") if os.environ.get("VERIF_TIER") in ("quick", "thorough") else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": meta["level"],
        "coverage": dict(meta.get("coverage", {}), **{
            "explanation": meta["explanation"],
            "rules": meta["rules"],
            "counts": rep.counts,
            "samples": rep.samples,
            "known_findings": len(old),
        }),
        "assumptions": meta.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", rep.prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, sort_keys=True)
        fh.write("\n")
    if new:
        rp = os.path.join(VERIF, "evidence", rep.prop + ".violations.txt")
        with open(rp, "w") as fh:
            for v in new:
                fh.write("%s:%s: in %s\n  rule: %s\n  %s\n  key: %s\n" % (v["file"], v["line"], v["function"], v["rule"],
                                                                 v["what"], v["key"]))
        for v in new:
            print("%s:%s: %s [%s] %s" % (v["file"], v["line"], v["function"], v["rule"], v["what"]))
        print("VIOLATION property=%s replay=%s" % (rep.prop, rp))
        return 1
    print("%s: ok  %s  (%.1fs)" % (rep.prop, ", ".join("%s=%s" % kv for kv in sorted(rep.counts.items())), time.time() - t0))
    return 0
