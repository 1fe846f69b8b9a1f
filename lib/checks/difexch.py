"""C06-C08: vercre-dif-exch."""

import json
import re

from ..tools import build, replay, tlc, text, sym

INV = ["NoFieldsSatisfied", "EveryField", "OrderIrrelevant", "OptionalNeverStricter", "MissingNeedsOptional",
       "InvalidFiltersMatchNothing", "ConstOnNullOrObject"]


def when(w):
    if w["k"] == "loose":
        return w["text"]
    d = f"{w['y']:04}-{w['m']:02}-{w['d']:02}"
    if w["k"] == "stamp":
        d += f"{w['sep']}{w['h']:02}:{w['mi']:02}:{w['sec']:02}{w['zone']}"
    return d + w["junk"]


def value(v):
    j = v["j"]
    if j == "text":
        return text(v["s"])
    if j in ("num", "bool"):
        return json.loads(text(v["v"]))
    if j == "null":
        return None
    if j == "arr":
        return [value(x) for x in v["xs"]]
    if j == "obj":
        return {sym(k): value(x) for k, x in v["fs"]}
    return when(v["w"])


def path(p):
    if p["p"] == "bad":
        return p["n"]
    out = "$"
    for s in p["steps"]:
        out += {"name": lambda: f".{s['n']}", "index": lambda: f"[{s['i']}]", "wild": lambda: "[*]", "deep": lambda: f"..{s['n']}"}[s["k"]]()
    return out


def regex(r, top=True):
    k = r["r"]
    if k == "lit":
        c = sym(r["c"])
        return "\\" + c if c in "\\.+*?()|[]{}^$" else c
    if k == "any":
        return "."
    if k == "cls":
        return "[" + "".join(sym(c) for c in sorted(r["cs"])) + "]"
    if k == "seq":
        return regex(r["a"], False) + regex(r["b"], False)
    if k == "alt":
        return "(?:" + regex(r["a"]) + "|" + regex(r["b"]) + ")"
    if k == "fold":
        return r["w"]
    if k == "grp":
        return ("(?P<" + r["n"] + ">" if r["n"] else "(") + regex(r["a"]) + ")"
    if k == "rep":
        inner = regex(r["a"], False)
        if r["a"]["r"] in ("seq", "star", "plus", "opt", "rep"):
            inner = f"(?:{inner})"
        return inner + ("{%d}" % r["lo"] if r["lo"] == r["hi"] else "{%d,%d}" % (r["lo"], r["hi"]))
    if k in ("star", "plus", "opt"):
        a = r["a"]
        inner = regex(a, False)
        if a["r"] in ("seq", "star", "plus", "opt", "rep"):
            inner = f"(?:{inner})"
        return inner + {"star": "*", "plus": "+", "opt": "?"}[k]
    return {"bol": "^", "eol": "$", "empty": ""}[k]


def native_filter(f):
    k = f["f"]
    if k == "none":
        return None
    v = {"const": lambda: text(f["s"]), "pattern": lambda: regex(f["r"]), "badpattern": lambda: f["n"], "format": lambda: f["n"]}[k]()
    return {"kind": {"badpattern": "pattern"}.get(k, k), "value": v, "type": "string"}


def native_field(f):
    out = {"path": [path(p) for p in f["paths"]]}
    nf = native_filter(f["filter"])
    if nf:
        out["filter"] = nf
    if f["optional"] != "absent":
        out["optional"] = f["optional"] == "true"
    return out


def labelled(fields, ex):
    """The members that say nothing about what satisfies the constraints."""
    for i, f in enumerate(fields):
        f.update({k: ex["label"] + str(i) for k in ("id", "name", "purpose") if ex["label"]})
        if ex["pred"]:
            f["predicate"] = ex["pred"]
        if ex["retain"] != "absent":
            f["intent_to_retain"] = ex["retain"] == "true"
    return {"fields": fields, **({"limit_disclosure": ex["limit"]} if ex["limit"] else {})}


def has_bad(x):
    return any(p["p"] == "bad" for f in x["fs"] for p in f["paths"])


def matching(rep, deep, part, what):
    r = tlc("DifExchMC", {"Deep": deep, "Part": part}, invariants=INV + ["Emit"])
    rep.model(r)
    drv = build("difexch")
    cases = []
    recs = []
    for x in r.records:
        fields = [native_field(f) for f in x["fs"]]
        cases.append({"op": "satisfied", "constraints": labelled(fields, x["ex"]), "doc": value(x["doc"])})
        recs.append(x)
        if not fields:  # constraints may also leave fields out
            cases.append({"op": "satisfied", "constraints": {}, "doc": value(x["doc"])})
            recs.append(x)
    if part == "fields":
        # a credential that has no JSON form satisfies no field
        for f in ({"path": ["$.a"]}, {"path": ["$.a"], "filter": {"kind": "const", "value": "", "type": "string"}}, {"path": []}):
            cases.append({"op": "satisfied", "constraints": {"fields": [f]}})
            recs.append({"fs": [], "want": False, "open": False, "nojson": True})
    ans = replay(drv, cases)
    rep.traces = len(ans)
    rep.samples = cases[:3]
    for x, c, a in zip(recs, cases, ans):
        got = a.get("out") if isinstance(a, dict) else None
        if got is None or isinstance(got, dict):
            ok = False
        elif x["open"]:
            ok = True
        elif x["want"]:
            ok = got is True
        else:
            # bad paths and patterns may be reported as errors instead
            lenient = x.get("nojson") or has_bad(x) or any(f["filter"]["f"] in ("badpattern", "format") for f in x["fs"])
            ok = got is False or (lenient and got == "err")
        if not ok:
            rep.diverge(what, {"case": c, "want": x["want"], "got": a})


def c06(rep, deep):
    matching(rep, deep, "fields", "constraints are satisfied by the wrong credentials")


def c07(rep, deep):
    matching(rep, deep, "filters", "filter matches the wrong values")


def utext(s):
    return re.sub(r"U\+([0-9A-F]{4})", lambda m: chr(int(m[1], 16)), s)


def wire_json(j):
    t = j["t"]
    if t == "text":
        return utext(j["s"])
    if t == "bool":
        return j["b"]
    if t == "num":
        return j["v"]
    if t == "null":
        return None
    if t == "list":
        return [wire_json(x) for x in j["xs"]]
    if t == "map":
        return {} if j["x"]["t"] == "none" else {j["k"]: wire_json(j["x"])}
    ms = j["ms"]
    return {k: wire_json(v) for k, v in ms.items()} if isinstance(ms, dict) else {}


def native(kind, j):
    """The driver's member-by-member form: as the wire form, but a filter's condition is a variant."""
    if isinstance(j, dict):
        out = {}
        for k, v in j.items():
            if k == "filter" and isinstance(v, dict):
                cond = next(x for x in ("const", "pattern", "format") if x in v)
                out[k] = {"kind": cond, "value": v[cond], "type": v["type"]}
            else:
                out[k] = native(kind, v)
        return out
    if isinstance(j, list):
        return [native(kind, v) for v in j]
    return j


def c08(rep, deep):
    r = tlc("DifWire", {"Big": deep}, invariants=["RoundTrips", "FaultyRefused", "Emit"])
    rep.model(r)
    drv = build("difexch")
    cases, recs = [], []
    for x in r.records:
        js = wire_json(x["json"])
        if x["k"] == "doc":
            cases.append({"op": "wire", "type": x["kind"], "native": native(x["kind"], js), "json": js})
        else:
            cases.append({"op": "accepts", "type": x["kind"], "json": js})
        recs.append(x)
    ans = replay(drv, cases)
    rep.traces = len(ans)
    rep.samples = cases[:3]
    for x, c, a in zip(recs, cases, ans):
        if x["k"] == "doc":
            ok = (a.get("json") == c["json"] and a.get("text_agrees") == c["json"] and a.get("read") is True and a.get("read_text") is True
                  and a.get("round") is True and a.get("from_str", True) is True)
            if not ok:
                rep.diverge("document does not survive the wire", {"case": c, "got": a})
        elif a.get("value") is not False or a.get("text") is not False or a.get("from_str", False) is not False:
            rep.diverge(f"faulty document is accepted ({x['w']})", {"case": c, "got": a})


CHECKS = {"C06": c06, "C07": c07, "C08": c08}

_T = "TLC enumerates constraints and credentials with the specification's verdict; each is replayed through the real matcher"
ABOUT = {
    "C06": (_T, "Exhaustive within DifExchMC.tla's documents, paths, filters and up to 3 (thorough: 4) fields; trusts serde_json_path outside those paths."),
    "C07": (_T, "Exhaustive within DifExchMC.tla's values, regular expressions and dates; trusts the regex crate outside those expressions."),
    "C08": ("TLC enumerates documents and faulty documents with their wire form; each is replayed through the real types",
            "Exhaustive over presence and absence of every member within DifWire.tla; other text is assumed to be treated alike."),
}
