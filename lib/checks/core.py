"""C01-C05: vercre-core."""

import base64
import hashlib
import json
import os
import re
import tempfile
from fractions import Fraction

from ..tools import build, replay, tlc, text, sym, ws, ToolError


def tree(v):
    """A value of UrlEncode.tla with text and keys joined."""
    v = dict(v)
    if "s" in v:
        v["s"] = text(v["s"])
    if "c" in v:
        v["c"] = sym(v["c"])
    if "n" in v:
        v["n"] = text(v["n"])
    if "x" in v:
        v["x"] = tree(v["x"])
    if "xs" in v:
        v["xs"] = [tree(x) for x in v["xs"]]
    if "fs" in v:
        v["fs"] = [[text(k), tree(x)] for k, x in v["fs"]]
    return v


def canon(v):
    """Maps have no order."""
    if isinstance(v, dict):
        v = {k: canon(x) for k, x in v.items()}
        if v.get("t") == "map":
            v["fs"] = sorted(v["fs"], key=lambda f: f[0])
        return v
    if isinstance(v, list):
        return [canon(x) for x in v]
    return v


def url_cases(part, deep, inv):
    r = tlc("UrlEncodeMC", {"Deep": deep, "Part": part}, invariants=[inv, "Emit"] if isinstance(inv, str) else [*inv, "Emit"])
    return r


def answer_err(a):
    return a is None or "panic" in a or "died" in a


WELL = re.compile(r"(?:[A-Za-z0-9._~-]|%[0-9A-Fa-f]{2})*")


def unpct(s):
    out, i = bytearray(), 0
    while i < len(s):
        if s[i] == "%":
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out += s[i].encode()
            i += 1
    return out.decode("utf-8")


def compact(js):
    """JSON text without optional whitespace or alternative spellings, or None."""
    try:
        v = json.loads(js, object_pairs_hook=lambda ps: {"\0pairs": [[k, x] for k, x in ps]}, parse_int=lambda n: ["\0n", int(n)],
                       parse_float=lambda n: ["\0n", float(n)])
    except ValueError:
        return None
    return v


def whitespace_outside_strings(js):
    return re.search(r"\s", re.sub(r'"(?:[^"\\]|\\.)*"', '""', js, flags=re.S)) is not None


def same_number(a, b):
    """Two spellings of one number."""
    if not all(re.fullmatch(r"-?[0-9]+(\.[0-9]+)?([eE][+-]?[0-9]+)?", x) for x in (a, b)):
        return False
    return Fraction(a) == Fraction(b)


def same_encoding(got, want):
    if got == want:
        return True
    g, w = got.split("&") if got else [], want.split("&") if want else []
    if len(g) != len(w):
        return False
    for a, b in zip(g, w):
        if a.count("=") != 1 or not all(WELL.fullmatch(x) for x in a.split("=")):
            return False
        try:
            (ka, va), (kb, vb) = ([unpct(x) for x in p.split("=")] for p in (a, b))
        except UnicodeDecodeError:
            return False
        if ka != kb:
            return False
        if va != vb and not same_number(va, vb):
            if vb[:1] not in "[{" or compact(vb) is None or compact(va) != compact(vb) or whitespace_outside_strings(va):
                return False
    return True


DERIVED_TEXT = ["", "a", "a&b=c", "{\"x\":1}", "[", "%25", "é\n\"\\", "null", "true", "\"q\"", "%20", "https://a/b?c=d&e=f#g", "5", "-1.5e3", "+ +", " {}", "tru"]


def derived_cases(deep):
    """Requests as the library declares them (serde derive, renames, flattening, Kind): every optional member present or
    absent, texts from the nasty set in each position."""
    out = []
    ts = DERIVED_TEXT if deep else DERIVED_TEXT[:12]
    inner = lambda s: {"name": s, "note": s, "tags": [s, "z"]}
    choices = lambda s: ["first_one", {"held": inner(s)}, {"pair": {"left": s, "right": 7}}]
    for s in ts:
        for ch in choices(s):
            base = {"id": s, "pre-authorized_code": s, "choice": ch, "kind": inner(s)}
            opts = {"state": s, "details": [inner(s), {"name": s}], "inner": {"name": s}, "map": {s: inner(s), "k": {"name": ""}},
                    "count": 18446744073709551615, "flag": True}
            names = sorted(opts)
            masks = range(64) if deep else [0, 63] + [1 << i for i in range(6)] + [63 ^ (1 << i) for i in range(6)]
            for m in masks:
                v = dict(base)
                v.update({n: opts[n] for i, n in enumerate(names) if m >> i & 1})
                out.append({"op": "derived", "type": "request", "v": v})
        for extra in ({}, {"inner": inner(s)}, {"details": [inner(s)]}, {"inner": {"name": s}, "details": []}):
            # flattened members are buffered as JSON or text, so text there must not itself look like JSON
            if s[:1] not in ("{", "["):
                out.append({"op": "derived", "type": "flat", "v": {"id": s, "code": s, **extra}})
        if s[:1] not in ("{", "["):
            out.append({"op": "derived", "type": "request", "v": {"id": s, "pre-authorized_code": s, "choice": "first_one", "kind": s}})
        for t in ts:
            out.append({"op": "derived", "type": "map", "v": {s: t, "k" + t: s}})
    return out


def c01(rep, deep):
    r = url_cases("rt", deep, ["RoundTripHolds", "WellFormedHolds"])
    rep.model(r)
    drv = build("core")
    cases = [{"op": "roundtrip", "v": tree(x["v"])} for x in r.records if x["kind"] == "rt"]
    extra = derived_cases(deep)
    ans = replay(drv, cases + extra)
    rep.traces = len(ans)
    rep.samples = cases[:3]
    for c, a in zip(cases + extra, ans):
        if c["op"] == "derived":
            if answer_err(a) or a.get("same") is not True:
                rep.diverge("a request does not survive url-encoding", {"case": c, "got": a})
        elif answer_err(a) or "enc" not in a or canon(a.get("dec")) != canon(c["v"]):
            what = "value does not survive url-encoding"
            if json.dumps(a.get("dec"), sort_keys=True).replace("0.9042017708477752", "0.9042017708477751") == json.dumps(c["v"], sort_keys=True):
                what += " (nested f64 0.9042017708477751 is read as 0.9042017708477752)"
            rep.diverge(what, {"case": c, "got": a})


def c02(rep, deep):
    r = url_cases("rt", deep, ["RoundTripHolds", "WellFormedHolds"])
    rep.model(r)
    drv = build("core")
    cases = [{"op": "roundtrip" if x["kind"] == "rt" else "encode", "v": tree(x["v"])} for x in r.records]
    ans = replay(drv, cases)
    rep.traces = len(ans)
    rep.samples = [{"v": c["v"], "encoded": "".join(x["enc"])} for c, x in list(zip(cases, r.records))[:3]]
    for x, c, a in zip(r.records, cases, ans):
        want = "".join(x["enc"])
        if answer_err(a) or "enc" not in a or not same_encoding(a["enc"], want):
            rep.diverge("encoded form differs", {"value": c["v"], "want": want, "got": a})


def c03(rep, deep):
    r = url_cases("dec", deep, "DecodeHolds")
    rep.model(r)
    drv = build("core")
    cases = [{"op": "decode", "v": tree(x["v"]), "q": text(x["q"])} for x in r.records]
    ans = replay(drv, cases)
    rep.traces = len(ans)
    rep.samples = cases[:3]
    for x, c, a in zip(r.records, cases, ans):
        if answer_err(a):
            rep.diverge("decoding does not return", {"case": c, "got": a})
        elif x["kind"] == "good" and canon(a.get("dec")) != canon(c["v"]):
            rep.diverge("equivalent query string is not decoded", {"case": c, "got": a})
        elif x["kind"] == "bad" and "err" not in a:
            rep.diverge("invalid query string is accepted", {"case": c, "got": a})


def item(x):
    if x["j"] == "text":
        return text(x["s"])
    o = {"a": text(x["a"])}
    if x["b"] != "-":
        o["b"] = int(x["b"])
    return o


def c04(rep, deep):
    r = tlc("KindQuota", {"Deep": deep}, invariants=["Shape", "Emit"], properties=["Grows"], workers=1)
    rep.model(r)
    drv = build("core")
    cases, want = [], []
    for x in r.records:
        if x["mode"] == "kind":
            v = None if x["start"]["s"] == "default" else item(x["start"]["x"])
            w = "" if v is None else v
            cases.append({"op": "kind", "v": v})
            want.append({"wire": w, "is_string": isinstance(w, str), "is_object": not isinstance(w, str), "back": True, "equal": True})
        else:
            s = x["start"]
            start = None if s["s"] == "default" else {"one": item(s["x"])} if s["s"] == "one" else {"many": [item(i) for i in s["xs"]]}
            cases.append({"op": "quota", "of": x["of"], "start": start, "adds": [item(i) for i in x["adds"]]})
            views = []
            for v in x["views"]:
                q = v["wire"]
                views.append({"wire": item(q["x"]) if q["q"] == "one" else [item(i) for i in q["xs"]], "is_one": v["one"],
                              "is_many": v["many"], "len": v["len"], "is_empty": v["empty"], "back": True})
            want.append({"out": views})
    for v, k in ((5, "kind"), (True, "kind"), (None, "kind"), ([], "kind"), ({}, "kind"), (["a"], "kind"), ("a", "quota"),
                 (5, "quota"), (["a"], "quota"), ([{"a": "x"}, 5], "quota"), ({"b": 1}, "quota"), (None, "quota")):
        cases.append({"op": "parse", "as": k, "v": v})
        want.append({"ok": False})
    ans = replay(drv, cases)
    rep.traces = len(ans)
    rep.samples = cases[:3]
    for c, w, a in zip(cases, want, ans):
        if a != w:
            rep.diverge("Kind/Quota differs", {"case": c, "want": w, "got": a})


GENS = ["auth_code", "issuer_state", "nonce", "notification_id", "uri_token", "token", "transaction_id"]


def c05(rep, deep):
    drv = build("core")
    n = 1000 if deep else 300
    runs = []
    # several processes, and several threads in one of them: nothing may repeat across any of them
    for _ in range(3 if deep else 2):
        cases = [{"op": "draw", "gen": g, "n": n // 2} for g in GENS + ["tx_code"]]
        cases += [{"op": "draw", "gen": "code_verifier", "n": n * 4}]
        cases += [{"op": "draw", "gen": g, "n": n // 8, "threads": 4} for g in GENS]
        runs.append((cases, replay(drv, cases)))
    trace, ids = [], {}
    raw = []
    for cases, ans in runs:
        for c, a in zip(cases, ans):
            if answer_err(a):
                rep.diverge("generator fails", {"case": c, "got": a})
                continue
            for s in a["out"]:
                kind = {"tx_code": "pin", "code_verifier": "verifier"}.get(c["gen"], "code")
                chars = list(s)
                if kind == "code":
                    try:
                        if not re.fullmatch(r"[A-Za-z0-9_-]+", s):
                            raise ValueError
                        b = base64.urlsafe_b64decode(s + "=" * (-len(s) % 4))
                        chars = [f"{x:02x}" for x in b]
                    except ValueError:
                        chars = []
                raw.append({"gen": c["gen"], "text": s})
                trace.append({"g": c["gen"], "kind": kind, "s": chars, "id": ids.setdefault(s, len(ids) + 1) if kind != "pin" else 0})
    # many more draws, to see codes that come from a small seed
    bulk = [{"op": "bulk", "gen": g, "n": 75000 if deep else 50000, "threads": 4} for g in GENS + ["code_verifier"]]
    for c, a in zip(bulk, replay(drv, bulk)):
        if answer_err(a):
            rep.diverge("generator fails", {"case": c, "got": a})
            continue
        raw.append({"gen": c["gen"], **a})
        trace.append({"g": c["gen"], "kind": "bulk", **a})
    # verifiers are not the same length as codes: leave their variety to the codes
    os.makedirs(ws.WORK, exist_ok=True)
    with tempfile.NamedTemporaryFile("w", dir=ws.WORK, suffix=".ndjson") as f:
        for t in trace:
            f.write(json.dumps(t) + "\n")
        f.flush()
        r = tlc("Codes", invariants=["NeverRepeats"], post="Post", workers=1, env={"VERIF_TRACE": f.name})
    rep.model(r)
    post = r.records[-1]
    rep.traces = post["accepted"]
    rep.samples = raw[:3]
    if post["accepted"] != post["of"]:
        rep.diverge("generated code is malformed or repeats", {"draw": raw[post["accepted"]], "at": post["accepted"]})
    for g in post["weak"]:
        rep.diverge("generated codes do not vary as 32 independent characters", {"generator": g, "sample": [x for x in raw if x["gen"] == g][:3]})
    # the challenge of a verifier: S256 is interpreted by hashlib
    r = tlc("Pkce", {"Deep": deep}, invariants=["Injective", "Emit"], workers=1)
    rep.model(r)
    cases = [{"op": "challenge", "v": text(x["v"]) * x["times"]} for x in r.records]
    vs = [x["text"] for x in raw if x["gen"] == "code_verifier" and "text" in x][: 500]
    cases += [{"op": "challenge", "v": v} for v in vs]
    for c, a in zip(cases, replay(drv, cases)):
        rep.traces += 1
        want = base64.urlsafe_b64encode(hashlib.sha256(c["v"].encode()).digest()).rstrip(b"=").decode()
        if answer_err(a) or a["out"] != want:
            rep.diverge("challenge is not S256 of the verifier", {"verifier": c["v"], "want": want, "got": a})


CHECKS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05}

_T = "TLC enumerates the specification's cases; each is replayed through the real crate and compared with the model's answer"
_N = "Exhaustive within the stated bounds of {}; trusts TLC, serde and the harness that builds the values."
ABOUT = {
    "C01": (_T, _N.format("UrlEncodeMC.tla (values of bounded depth over an adversarial alphabet)")),
    "C02": (_T, _N.format("UrlEncodeMC.tla; the encoding itself is compared up to equivalent spellings")),
    "C03": (_T, _N.format("UrlEncodeMC.tla (equivalent and invalid query strings)")),
    "C04": (_T, _N.format("KindQuota.tla (every start and sequence of additions up to a length)")),
    "C05": ("Trace validation: draws recorded from the real generators are checked against Codes.tla; Pkce.tla's cases are replayed",
            "Recorded draws only: format, range and non-repetition are decided for what was drawn; unpredictability of the system's random source is trusted. S256 is interpreted by hashlib."),
}
