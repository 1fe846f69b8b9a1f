"""C27-C29: OpenID messages, errors and claim requests."""

import json
from concurrent.futures import ThreadPoolExecutor
from urllib.parse import unquote

from ..tools import build, replay_parallel, tlc
from .difexch import utext


def plain(v):
    t = v["t"]
    if t == "doc":
        ms = v["ms"]
        return {utext(k): plain(x) for k, x in ms.items()} if isinstance(ms, dict) else {}
    if t == "list":
        return [plain(x) for x in v["xs"]]
    return utext(v["s"]) if t == "text" else v["n"] if t == "int" else v["b"]


def bare(v):
    if isinstance(v, dict):
        return {k: bare(x) for k, x in v.items() if x is not None}
    return [bare(x) for x in v] if isinstance(v, list) else v


def parameters(q):
    """The parameters of a query string: text as it stands, lists and objects as JSON."""
    out = {}
    for part in q.split("&"):
        k, eq, v = part.partition("=")
        if not eq or unquote(k) in out:
            return None
        out[unquote(k)] = unquote(v, errors="strict")
    return out


def same_parameters(doc, got):
    if got is None or set(got) != set(doc):
        return False
    for k, v in doc.items():
        if isinstance(v, str):
            ok = got[k] == v
        else:
            try:
                ok = bare(json.loads(got[k])) == v
            except ValueError:
                ok = False
        if not ok:
            return False
    return True


GROUPS = ["request", "token", "offer", "metadata", "verifier"]


def wrong27(c, a):
    doc = c["doc"]
    w = a.get("wire", a)
    if "panic" in w or "died" in a or "panic" in a:
        return "the library panicked"
    if "err" in w:
        return "a well-formed message is refused"
    if bare(w["value"]) != doc or bare(w["again"]) != doc:
        return "a message changes on its way"
    for f in (w["fields"], w["fields_again"]):
        if isinstance(f, str) or f is not None and any(bare(v) != doc[k] if k in doc else v not in (None, "") for k, v in f.items()):
            return "a member lands in another field"
    if c["query"]:
        q = a["query"]
        if "panic" in q or "err" in q or "differ" in q:
            return "a message does not survive as a query string"
        if q["back"] is not None and bare(q["back"]) != doc:
            return "a message changes as a query string"
        if not same_parameters(doc, parameters(q["query"])):
            return "the query string does not hold the message's members"
    return None


def c27(rep, deep):
    with ThreadPoolExecutor(5) as pool:
        jobs = [(g, pool.submit(tlc, "OpenidWire", {"Group": g, "Deep": deep}, invariants=["WellFormed", "Unambiguous", "Emit"], workers=1)) for g in GROUPS]
        drv = build("openid")
        for g, job in jobs:
            r = job.result()
            rep.model(r)
            cases = [{"op": "wire", "kind": x["kind"], "doc": plain(x["doc"]), "query": x["query"]} for x in r.records]
            rep.notes[g] = len(cases)
            rep.traces += len(cases)
            if not rep.samples:
                rep.samples = cases[:3]
            for c, a in zip(cases, replay_parallel(drv, cases)):
                bad = a is not None and wrong27(c, a)
                if bad:
                    rep.diverge(f"{c['kind']}: {bad}", {"case": c, "got": a})


# --------------------------------------------------------------------------- C28
def join(xs):
    return "".join(utext(x) for x in xs)


STATUS = {"Retrieval", "Verification", "ListLength", "Range"}


def error_case(x):
    e = x["case"]
    v = e["v"]
    if v == "InvalidProof":
        make = {v: {"hint": join(e["d"]), "c_nonce": join(e["nonce"]), "c_nonce_expires_in": e["expires"]}}
        want = {"error": x["code"], "error_description": join(e["d"]), "c_nonce": join(e["nonce"]), "c_nonce_expires_in": e["expires"]}
    elif v == "IssuancePending":
        make = {v: e["interval"]}
        want = {"error": x["code"], "interval": e["interval"]}
    elif v in STATUS:
        make = {v: join(e["d"])}
        want = {"type": "https://www.w3.org/ns/credentials/status-list#" + x["code"], "code": int(x["code"]), "detail": join(e["d"])}
    else:
        make = {v: join(e["d"])}
        want = {"error": x["code"], "error_description": join(e["d"])}
    return {"op": "status error" if v in STATUS else "error", "make": make}, want


def wrong28(c, want, a):
    if "panic" in a or "died" in a or "err" in a:
        return "an error cannot be told to the client"
    title = c["op"] == "status error"
    forms = [a["json"], a["serialized"]]
    try:
        forms.append(json.loads(a["text"]))
    except ValueError:
        return "an error's text is not JSON"
    for f in forms:
        f = dict(f) if isinstance(f, dict) else {}
        if title and not f.pop("title", None):
            return "an error has no title"
        f = bare(f)
        if c["make"].get("IssuancePending") is not None:
            f.pop("error_description", None)
        if f != want:
            return "an error's JSON is not what happened"
    if "query" in a:
        got = parameters(a["query"])
        if got is not None and "IssuancePending" in c["make"]:
            got.pop("error_description", None)
        if got != {k: v if isinstance(v, str) else str(v) for k, v in want.items()}:
            return "an error's query string is not what happened"
    return None


def c28(rep, deep):
    with ThreadPoolExecutor(1) as pool:
        job = pool.submit(tlc, "OidError", {"Deep": deep}, invariants=["Distinct", "Emit"], workers=2)
        drv = build("openid")
        r = job.result()
    rep.model(r)
    made = [error_case(x) for x in r.records]
    rep.traces += len(made)
    rep.samples = [m[0] for m in made[:3]]
    for (c, want), a in zip(made, replay_parallel(drv, [m[0] for m in made])):
        bad = a is not None and wrong28(c, want, a)
        if bad:
            rep.diverge(bad, {"case": c, "want": want, "got": a})


# --------------------------------------------------------------------------- C29
def tree(f):
    out = {}
    for k, v in (f.items() if isinstance(f, dict) else []):
        if v["t"] == "set":
            out[k] = tree(v["f"])
        else:
            out[k] = {} if v["m"] == "none" else {"mandatory": v["m"] == "yes"}
    return out


def fmt(kind, typ, claims=None):
    if kind == "mso_mdoc":
        f = {"format": kind, "doctype": "org." + typ}
    elif kind == "vc+sd-jwt":
        f = {"format": kind, "vct": "https://" + typ}
    else:
        d = {"type": ["VerifiableCredential", typ]}
        if claims is not None:
            d["credentialSubject"] = claims
        return {"format": kind, "credential_definition": d}
    if claims is not None:
        f["claims"] = claims
    return f


KINDS = ["jwt_vc_json", "mso_mdoc", "vc+sd-jwt", "jwt_vc_json-ld", "ldp_vc"]


def c29(rep, deep):
    with ThreadPoolExecutor(2) as pool:
        jobs = [pool.submit(tlc, "Claims", {"Part": p, "Deep": deep}, invariants=["AskAll", "MandatoryNeeded", "UnknownRefused", "Emit"], workers=2) for p in ("claims", "find")]
        drv = build("openid")
        claims, find = [j.result() for j in jobs]
    rep.model(claims)
    rep.model(find)
    cases, wants = [], []
    for n, x in enumerate(claims.records):
        for kind in KINDS if deep else [KINDS[n % len(KINDS)]]:
            cases.append({"op": "claims", "config": fmt(kind, "A", tree(x["s"])), "asked": tree(x["q"])})
            wants.append(x["ok"])
        if n % 7 == 0:     # a configuration that lists no claims grants any
            cases.append({"op": "claims", "config": fmt(KINDS[n % len(KINDS)], "A"), "asked": tree(x["q"])})
            wants.append(True)
    for n, x in enumerate(find.records):
        confs = {f"c{i + 1}": fmt(k, t, {"a": {}} if i % 2 else None) for i, (k, t) in enumerate(x["cs"])}
        cases.append({"op": "find", "issuer": {"credential_endpoint": "x", "credential_configurations_supported": confs}, "format": fmt(*x["t"], {"b": {}} if n % 2 else None)})
        wants.append({f"c{i}" for i in x["found"]})
    rep.traces += len(cases)
    rep.samples = [cases[0], cases[-1]]
    for c, want, a in zip(cases, wants, replay_parallel(drv, cases)):
        if a is None:
            continue
        bad = None
        if "panic" in a or "died" in a or "err" in a:
            bad = "claims or formats cannot be read"
        elif c["op"] == "claims" and a["ok"] != want:
            bad = "claims granted that must be refused" if a["ok"] else "claims refused that must be granted"
        elif c["op"] == "find" and (a["id"] not in want if want else a["id"] is not None):
            bad = "the wrong credential configuration is found" if a["id"] else "no credential configuration is found"
        if bad:
            rep.diverge(bad, {"case": c, "want": sorted(want) if isinstance(want, set) else want, "got": a})


CHECKS = {"C27": c27, "C28": c28, "C29": c29}
_T = "TLC writes {} and checks the specification's invariants on them; each is replayed through the real vercre-openid types and compared with the specification"
ABOUT = {
    "C27": (_T.format("every message of OpenidWire.tla member by member"),
            "Exhaustive over the shapes of OpenidWire.tla with up to two (thorough: three) optional members at once, all, and all but one, one member taking every value of its kind; other text is assumed to be treated alike."),
    "C28": (_T.format("every error of OidError.tla character by character"), "Exhaustive over descriptions and nonces of up to two (thorough: three) characters of the alphabet in OidError.tla."),
    "C29": (_T.format("the listed and requested claims and the sets of configurations of Claims.tla"), "Exhaustive over the claim trees of Claims.tla (two keys, three levels) and up to two (thorough: three) configurations."),
}
