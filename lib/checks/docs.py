"""C30-C32: credentials and presentations, status lists, mdocs."""

import base64
import json
from concurrent.futures import ThreadPoolExecutor
from datetime import datetime

from ..tools import build, replay_parallel, tlc

NOW = 1_767_225_600 + 1000
UNI = "Zoë \u202e\u0000 \U0001f600 \"\\/ =&+%"


def shape(how, xs):
    """one: the first, not in a list; many: all, in a list."""
    return xs[0] if how == "one" else xs


def subject(name, i):
    s = {"given": f"Ann {i}", "nested": {"list": [1, None, True, {"x": UNI}], "empty": {}}}
    if name != "bare":
        s["id"] = "did:ex:" + name
    return s


UNTIL = {"past": ("2020-01-01T00:00:00Z", 1577836800), "future": ("2199-12-31T23:59:59Z", 7258118399), "fraction": ("2030-05-06T07:08:09.123456789Z", 1904281689)}
NAMES = {"text": UNI, "lang": {"@value": UNI, "@language": "en"}, "dir": {"@value": UNI, "@language": "ar", "@direction": "rtl"},
         "many": [{"@value": "a"}, {"@value": "b", "@language": "fr", "@direction": "ltr"}]}
PROOFS = [{"type": "DataIntegrityProof", "proofPurpose": "assertionMethod", "verificationMethod": "did:ex:i1#key-0", "proofValue": "z1", "cryptosuite": "eddsa-2022"},
          {"id": "urn:p", "type": "Other", "proofPurpose": "authentication", "verificationMethod": "did:ex:h1#key-0", "created": "2024-01-02T03:04:05Z",
           "expires": "2034-01-02T03:04:05Z", "domain": ["a", "b"], "challenge": UNI, "proofValue": "z2", "previousProof": "urn:q", "nonce": "n"}]
STATUS = {"type": "BitstringStatusListEntry", "statusPurpose": "revocation", "statusListIndex": 131071, "statusListCredential": "https://s.example/1"}
STATUS2 = {"id": "https://s.example/2#7", "type": "BitstringStatusListEntry", "statusPurpose": "suspension", "statusListIndex": 0, "statusListCredential": "https://s.example/2"}
MESSAGE = {"id": "https://s.example/3#7", "type": "BitstringStatusListEntry", "statusPurpose": "message", "statusListIndex": 7, "statusListCredential": "https://s.example/3",
           "statusSize": 2, "statusMessage": [{"status": "0x0", "message": "fine"}, {"status": "0x1", "message": UNI}], "statusReference": "https://s.example/ref"}


def vc(d):
    v = {"@context": ["https://www.w3.org/2018/credentials/v1", "https://x.example/v1" if d["ctx"] == "text" else {"@vocab": "https://x.example/", "n": {"@id": UNI}}],
         "type": {"one": "VerifiableCredential", "two": ["VerifiableCredential", "A"], "three": ["VerifiableCredential", "A", UNI]}[d["types"]],
         "issuer": {"text": "https://i1.example", "object": {"id": "https://i1.example"}, "objectx": {"id": "https://i1.example", "name": UNI, "more": {"a": [1]}}}[d["issuer"]]}
    if d["id"]:
        v["id"] = "https://i1.example/credentials/" + UNI
    subs = [subject(n, i) for i, n in enumerate(d["subjects"])]
    v["credentialSubject"] = subs if d["many"] else subs[0]
    if d["from"]:
        v["validFrom"] = "2023-11-20T23:21:55Z"
    if d["until"] != "none":
        v["validUntil"] = UNTIL[d["until"]][0]
    return v


PLAIN = {"id": True, "types": "two", "issuer": "text", "subjects": ["id"], "many": False, "from": True, "until": "none", "ctx": "text"}


def optional(o):
    v = vc(PLAIN)

    def put(member, name, xs):
        if o[member] != "none":
            v[name] = shape(o[member], xs)
    for m in ("name", "description"):
        if o[m] != "none":
            v[m] = NAMES[o[m]]
    if o["status"] == "message":
        v["credentialStatus"] = MESSAGE
    else:
        put("status", "credentialStatus", [STATUS, STATUS2, MESSAGE])
    put("schema", "credentialSchema", [{"id": "https://x.example/s", "type": "JsonSchema"}, {"id": UNI, "type": "Other"}])
    if o["related"] == "digests":
        v["relatedResource"] = {"id": "https://x.example/r", "mediaType": "text/plain", "digestSRI": ["sha256-a", "sha384-b"], "digestMultibase": "zxyz"}
    else:
        put("related", "relatedResource", [{"id": "https://x.example/r", "digestSRI": "sha256-a"}, {"id": "https://x.example/r2", "digestMultibase": ["z1", "z2"]}])
    if o["refresh"] != "none":
        v["refreshService"] = {"url": "https://x.example/f", "type": "R", "refreshToken": UNI}
    put("terms", "termsOfUse", [{"type": "T", "id": "https://x.example/t", "profile": {"a": [1, UNI]}}, {"type": "U", "x": 1}])
    put("evidence", "evidence", [{"id": "https://x.example/e", "type": ["E", "F"], "name": UNI, "description": "d", "digestSRI": "sha256-a", "digestMultibase": ["z1"]}, {"type": [], "more": UNI}])
    put("proof", "proof", PROOFS)
    return v


def vp(d):
    v = {"@context": ["https://www.w3.org/2018/credentials/v1", {"a": UNI}], "type": "VerifiablePresentation" if d["types"] == "one" else ["VerifiablePresentation", "P"]}
    if d["id"]:
        v["id"] = "urn:uuid:1"
    if d["holder"]:
        v["holder"] = "did:ex:h1"
    if d["creds"] != "none":
        v["verifiableCredential"] = {"0": [], "jwt": ["a.b.c"], "object": [vc(PLAIN)], "both": [vc(PLAIN), "a.b.c", "d.e.f"]}[d["creds"]]
    if d["proof"] != "none":
        v["proof"] = shape(d["proof"], PROOFS)
    return v


def bare(v):
    """Without members that are null: absent and null are the same."""
    if isinstance(v, dict):
        return {k: bare(x) for k, x in v.items() if x is not None}
    return [bare(x) for x in v] if isinstance(v, list) else v


# --------------------------------------------------------------------------- C30
def case30(part, r):
    if part in ("core", "optional"):
        doc = vc(r["doc"]) if part == "core" else optional(r["doc"])
        return {"op": "sign", "kind": "vc", "doc": doc, "iat": 1_700_000_000, "by": "i1", "format": "jwt_vc_json"}
    if part == "vp":
        d = r["doc"]
        return {"op": "sign", "kind": "vp", "doc": vp(d), "aud": d["aud"], "nonce": UNI if d["nonce"] == "odd" else d["nonce"], "by": "h1", "format": "jwt_vc_json-ld"}
    if part == "token":
        t = r["t"]
        doc = vc(PLAIN) if t["kind"] == "vc" else vp({"id": True, "types": "two", "creds": "jwt", "holder": True, "proof": "none"})
        return {"op": "spoilt", "kind": t["kind"], "as": t["as"], "flaw": t["flaw"], "by": t["by"], "doc": doc, "iat": 1_700_000_000, "aud": "a", "nonce": "n", "format": "jwt_vc_json"}
    if part == "lang":
        c = r["case"]
        return {"op": "lang", "start": c["start"]["x"] if c["start"]["s"] == "text" else langv(c["start"]), "adds": [langv(a) for a in c["adds"]]}
    b = r.get("b")
    if part == "vcbuild":
        return {"op": "vcbuild", "ctx": ["https://x.example/v1", {"a": 1}][:b["ctx"]], "types": ["A", "B"][:b["types"]], "issuer": {"none": None, "empty": "", "text": "https://i1.example"}[b["issuer"]],
                "subjects": [subject(n if n == "bare" else f"{n}{i}", i) for i, n in enumerate(b["subjects"])], "id": "https://i1.example/1" if b["id"] else None,
                "proofs": [dict(PROOFS[0], proofValue=str(i)) for i in range(b["proofs"])],
                **({"status": MESSAGE, "name": NAMES["many"], "description": NAMES["text"]} if b["extra"] else {"status": None})}
    if part == "vpbuild":
        return {"op": "vpbuild", "ctx": ["https://x.example/v1", {"a": 1}][:b["ctx"]], "types": ["A", "B"][:b["types"]],
                "creds": [f"a.b.{i}" if k == "jwt" else dict(vc(PLAIN), id=str(i)) for i, k in enumerate(b["creds"])], "holder": "did:ex:h1" if b["holder"] else None}
    x = r["x"]
    b64 = lambda s: base64.urlsafe_b64encode(s.encode()).decode()
    if x["form"] in ("json", "base64"):
        t = json.dumps(vp(x["doc"]), ensure_ascii=False)
        return {"op": "text", "doc": vp(x["doc"]), "text": t if x["form"] == "json" else b64(t).rstrip("=")}
    return {"op": "text", "text": {"empty": "", "multibyte": "é{}", "brace": "{", "text": "VP", "base64text": b64("not it"), "padded": "e30="}[x["form"]]}


def langv(e):
    v = {"@value": e["x"]}
    if e["l"] != "none":
        v["@language"] = e["l"]
    if e["d"] != "none":
        v["@direction"] = e["d"]
    return v


def wrong30(part, r, c, a):
    if "panic" in a or "died" in a:
        return "the library panicked"
    if part in ("core", "optional", "vp"):
        if "err" in a:
            return "a well-formed document is refused"
        doc = bare(c["doc"])
        if bare(a["wire"]["value"]) != doc or bare(a["wire"]["again"]) != doc:
            return "a document changes on its way through JSON"
        if a["by"] != "did:ex:" + c["by"] or a["header"].get("kid") != f"did:ex:{c['by']}#key-0":
            return "the token is not signed by the key it names"
        if "err" in a["back"]:
            return "the token does not verify"
        got = a["claims"]
        if part == "vp":
            if a["header"].get("typ") != "vp+jwt" or bare(got["vp"]) != doc or bare(a["back"].get("vp")) != doc:
                return "the presentation changes when signed and verified"
            if a["back"].get("aud") != c["aud"] or a["back"].get("nonce") != c["nonce"] or got["aud"] != c["aud"] or got["nonce"] != c["nonce"]:
                return "audience or nonce change"
            if got["iss"] != doc.get("holder", "") or got["jti"] != doc.get("id", ""):
                return "iss or jti are not the presentation's"
            if not got["iat"] == got["nbf"] == NOW or not got["exp"] > NOW:
                return "the token's times are not those of its making"
            return None
        want = r["claims"]
        if a["header"].get("typ") != "vc+jwt" or bare(got["vc"]) != doc or bare(a["back"].get("vc")) != doc:
            return "the credential changes when signed and verified"
        if got["iat"] != c["iat"] or a["back"].get("iat") != c["iat"]:
            return "the issuance time changes"
        if got["iss"] != "https://i1.example" or got["sub"] != want["sub"] or got["jti"] != doc.get("id", ""):
            return "iss, sub or jti are not the credential's"
        if got.get("exp") != (UNTIL[want["exp"]][1] if want["exp"] != "none" else None):
            return "exp is not the credential's end of validity"
        return None
    if part == "token":
        if a.get("ok", False) != r["ok"]:
            return "a faulty token verifies" if not r["ok"] else "a good token does not verify"
        return None
    if part == "lang":
        v = r["case"]["v"]
        xs = [langv(e) for e in v["xs"]]
        want = xs[0]["@value"] if v["form"] == "text" else xs[0] if v["form"] == "one" else xs
        if a.get("json") != want or a.get("again") != want or not a.get("same"):
            return "a language string changes shape or content"
        said = [r["in"][t]["x"] if r["in"][t]["found"] else None for t in ("en", "fr", "de")]
        if a["in"] != said or a["again_in"] != said:
            return "the wrong language is found"
        if a["len"] != len(xs) or a["empty"]:
            return "the number of languages is wrong"
        return None
    if not r["ok"]:
        return None if "err" in a else "something incomplete or unreadable is accepted"
    if "err" in a:
        return "something complete is refused"
    if part == "text":
        return None if bare(a["vp"]) == bare(c["doc"]) else "the presentation read is another"
    got = bare(a["built"])
    want = {"@context": ["https://www.w3.org/2018/credentials/v1"] + c["ctx"]}
    if part == "vcbuild":
        want.update({"type": ["VerifiableCredential"] + c["types"], "issuer": c["issuer"], "credentialSubject": c["subjects"] if len(c["subjects"]) > 1 else c["subjects"][0]})
        if c["id"]:
            want["id"] = c["id"]
        if c["proofs"]:
            want["proof"] = c["proofs"] if len(c["proofs"]) > 1 else c["proofs"][0]
        if c["status"]:
            want.update({"credentialStatus": c["status"], "name": c["name"], "description": c["description"]})
    else:
        want["type"] = ["VerifiablePresentation"] + c["types"]
        if not got.pop("id", "").startswith("urn:uuid:"):
            return "a presentation is built without an id"
        if c["creds"]:
            want["verifiableCredential"] = c["creds"]
        if c["holder"]:
            want["holder"] = c["holder"]
    return None if got == bare(want) else "what is built is not what was given"


PARTS30 = ["core", "optional", "vp", "token", "lang", "vcbuild", "vpbuild", "text"]


def c30(rep, deep):
    with ThreadPoolExecutor(4) as pool:
        jobs = [(p, pool.submit(tlc, "W3c", {"Part": p, "Deep": deep}, invariants=["KeepsOrder", "OneWayOnly", "Emit"], workers=1)) for p in PARTS30]
        drv = build("docs")
        for part, job in jobs:
            r = job.result()
            rep.model(r)
            cases = [case30(part, x) for x in r.records]
            rep.notes[part] = len(cases)
            rep.traces += len(cases)
            for x, c, a in zip(r.records, cases, replay_parallel(drv, cases)):
                if a is None:
                    continue
                bad = wrong30(part, x, c, a)
                if bad:
                    rep.diverge(f"{part}: {bad}", {"case": c, "model": x, "got": a})
            if not rep.samples:
                rep.samples = [x for x in r.records[:2]]


# --------------------------------------------------------------------------- C31
def index(name, size):
    slots = 131072 // size
    return {"last": slots - 1, "beyond": slots, "huge": 2**64 - 1}.get(name) if not name.isdigit() else int(name)


def list_case(log, cfg, i):
    size, entries = cfg["size"], []
    for r in log:
        st = {"purpose": r["purpose"], "list_index": index(r["index"], size), "value": r["value"]}
        if r["new"] or not entries:
            entries.append({"credential_id": f"c{len(entries)}", "subject_id": "s", "status": [st]})
        else:
            entries[-1]["status"].append(st)
    config = {"purpose": cfg["purpose"], "list": i % 3, "size": size}
    cred = {"issuer": "https://i1.example", "base": ["https://s.example", "https://s.example/"][i % 2], "ttl": [None, 0, 123456789][i % 3]}
    return {"op": "list", "config": config, "log": entries, "credential": cred}


def list_wrong(c, exp, a):
    if "panic" in a or "died" in a:
        return "the library panicked"
    if exp["refused"]:
        return None if "err" in a else "a status that does not fit is published"
    if "err" in a:
        return "a list is refused although every status fits"
    size = c["config"]["size"]
    if a["len"] < 131072 or a["len"] % size and size in (1, 2, 8, 16):
        return "the list is too short"
    want = set()
    items = exp["list"].items() if isinstance(exp["list"], dict) else []
    for ix, value in items:
        want |= {index(ix, size) * size + b for b in range(8) if value >> b & 1}
    if set(a["set"]) != want:
        return "the list does not hold the latest statuses"
    p, cred = a["published"], c["credential"]
    doc = p["back"].get("vc")
    url = f"https://s.example/{c['config']['list']}"
    if p["by"] != "did:ex:i1" or p["typ"] != "vc+jwt" or not isinstance(doc, dict) or doc != p["claims"]["vc"]:
        return "the list credential does not verify"
    if doc.get("id") != url or doc.get("issuer") != cred["issuer"] or "BitstringStatusListCredential" not in doc.get("type", []) or "https://www.w3.org/ns/credentials/v2" not in doc.get("@context", []):
        return "the list credential is not the issuer's for that list"
    s = doc.get("credentialSubject")
    ttl = cred["ttl"] if cred["ttl"] is not None else 300_000
    if s != {"id": url + "#list", "type": "BitstringStatusList", "statusPurpose": c["config"]["purpose"], "encodedList": p["list"], "ttl": ttl}:
        return "the list credential does not carry the list, its purpose and its lifetime"
    if p["claims"]["iat"] != NOW or p["claims"]["iss"] != cred["issuer"] or p["claims"]["jti"] != url:
        return "the list credential's claims are not its own"
    return None


def c31(rep, deep):
    with ThreadPoolExecutor(1) as pool:
        job = pool.submit(tlc, "StatusList", {"Deep": deep}, invariants=["Emit"], properties=["Isolated", "Latest"], workers=2)
        drv = build("docs")
        r = job.result()
    rep.model(r)
    cases, exps = [], []
    for x in r.records:
        for e in x["lists"]:
            cases.append(list_case(x["log"], e["c"], len(cases)))
            exps.append(e)
    rep.traces += len(cases)
    rep.samples = r.records[:1]
    for c, e, a in zip(cases, exps, replay_parallel(drv, cases)):
        if a is not None:
            bad = list_wrong(c, e, a)
            if bad:
                rep.diverge(bad, {"case": c, "model": e, "got": {k: v for k, v in a.items() if k != "published"}})


# --------------------------------------------------------------------------- C32
VALUES = {"text": "Ann", "empty": "", "int": 7, "big": 2**53 + 1, "neg": -9007199254740993, "float": 1.5, "true": True, "null": None, "list": [1, "a", None, [], {}],
          "object": {"a": 1, "b": {"c": [UNI]}}, "nested": [[[{"x": {"y": "z"}}]]], "uni": UNI}
DRAWS = {"0": 0, "1": 1, "-1": -1, "max": 2**31 - 1, "min": -2**31}


def mdoc_case(x):
    ds = {f"org.example.{i}": {f"e{j}": VALUES[v] for j, v in enumerate(ns)} for i, ns in enumerate(x["ds"])}
    if x["odd"] != "none":
        ds["odd"] = VALUES[x["odd"]]
    return {"op": "mdoc", "dataset": ds, "script": [DRAWS[d] for d in x["script"]]}


def mdoc_wrong(x, c, a):
    if "panic" in a or "died" in a:
        return "the library panicked"
    if x["refused"]:
        return None if "err" in a else "a namespace that is none is accepted"
    if "err" in a:
        return "a dataset is refused"
    if "undecodable" in a:
        return "the document does not decode"
    m = a["mdoc"]
    items = {ns: v for ns, v in m["items"].items() if v}
    if {ns: {i["name"]: i["value"] for i in v} for ns, v in items.items()} != {ns: v for ns, v in c["dataset"].items() if v} \
            or any(len({i["name"] for i in v}) != len(v) for v in items.values()):
        return "the items are not the dataset's elements"
    for ns, v in items.items():
        if len({i["id"] for i in v}) != len(v):
            return "two items of a namespace share a digest id"
        if any(not isinstance(i["id"], int) or not 0 <= i["id"] < 2**31 for i in v):
            return "a digest id is out of range"
        if {str(i["id"]): i["digest"] for i in v} != m["digests"].get(ns):
            return "the digests are not those of the items"
        if any(i["salt"] < 16 for i in v):
            return "an item is not salted"
    if {ns for ns, v in m["digests"].items() if v} != set(items):
        return "digests of another namespace"
    salts = [json.dumps(i["random"]) for v in items.values() for i in v]
    if len(set(salts)) != len(salts):
        return "two items have the same salt"
    if m["by"] != "did:ex:i1" or m["algorithm"] != "SHA-256":
        return "the security object is not signed by the issuer or names another digest algorithm"
    if m["version"] != "1.0" or m["doctype"] != "org.iso.18013.5.1.mDL":
        return "the security object is of another version or document type"
    if m["protected"] != "bytes:a10127" or bytes.fromhex("6469643a65783a6931236b65792d30").hex() not in json.dumps(m["unprotected"]):
        return "the signature does not name its algorithm and key"
    v = {k: moment(t) for k, t in m["validity"].items() if t is not None}
    if not {"signed", "validFrom", "validUntil"} <= set(v) or None in v.values() or v["signed"] != v["validFrom"] or v["signed"] != moment("2026-01-01T00:16:40Z") or v["validUntil"] <= v["validFrom"]:
        return "the security object is not valid from now until later"
    return None


def moment(text):
    try:
        return datetime.fromisoformat(text.replace("Z", "+00:00"))
    except (AttributeError, ValueError):
        return None


def c32(rep, deep):
    with ThreadPoolExecutor(1) as pool:
        job = pool.submit(tlc, "Mdoc", {"Deep": deep}, invariants=["Distinct", "Emit"], workers=2)
        drv = build("docs")
        r = job.result()
    rep.model(r)
    cases = [mdoc_case(x) for x in r.records]
    rep.traces += len(cases)
    rep.samples = r.records[:2]
    for x, c, a in zip(r.records, cases, replay_parallel(drv, cases)):
        if a is not None:
            bad = mdoc_wrong(x, c, a)
            if bad:
                rep.diverge(bad, {"case": c, "model": x, "got": a})


CHECKS = {"C30": c30, "C31": c31, "C32": c32}
_T = "TLC enumerates {} and checks the specification's invariants on them; each is replayed through the real {} and what comes out compared with the specification's"
ABOUT = {
    "C30": (_T.format("the documents, builder calls, tokens and language strings of W3c.tla", "vercre-w3c-vc"),
            "Exhaustive over the shapes in W3c.tla (quick: up to two optional members at once and all together; thorough: up to four); cryptography is symbolic (standins/vercre-infosec)."),
    "C31": (_T.format("the status logs of StatusList.tla, growing one record at a time, for every list configuration", "vercre-status"),
            "Exhaustive over logs of up to two (thorough: three) records over the index, value and size classes of StatusList.tla."),
    "C32": (_T.format("the datasets and draws of digest ids of Mdoc.tla", "vercre-iso-mdl"),
            "Exhaustive over the datasets and scripted random draws of Mdoc.tla; the document is decoded with an independent CBOR reader and every digest recomputed."),
}
