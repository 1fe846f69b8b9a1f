"""C11-C20: vercre-issuer."""

from concurrent.futures import ThreadPoolExecutor

from ..tools import build, replay_parallel, tlc

INV = ["Once", "TokensGranted", "IssuedAuthorized", "ProofsFresh", "CollectedAsked", "PendingKept"]
#: what is looked at -> depth of the histories explored (quick, thorough)
DEPTH = {"offer": (3, 3), "token": (3, 4), "once": (6, 8), "time": (6, 8), "cred": (4, 5), "proof": (6, 7), "auth": (3, 4),
         "defer": (7, 9), "content": (4, 5), "misc": (6, 8)}
#: histories shorter than this have every call tried followed up (quick, thorough)
ECHO = {"offer": (1, 2), "token": (2, 3), "once": (4, 6), "time": (5, 7), "cred": (3, 5), "proof": (5, 6), "auth": (2, 3), "defer": (5, 7), "content": (4, 5), "misc": (5, 7)}
MAIN = {"C11": "once", "C12": "token", "C13": "time", "C14": "cred", "C15": "proof", "C16": "auth", "C17": "offer", "C18": "defer",
        "C19": "content", "C20": "misc"}
#: what else a property's check looks at on every change
ALSO = {"C11": ["misc", "defer"], "C12": ["once"], "C13": ["defer"], "C14": ["content", "auth"], "C15": ["cred", "content"], "C16": ["cred"],
        "C17": ["once"], "C18": ["time", "once"], "C19": ["cred", "defer"], "C20": ["once"]}
URL = "http://{}.example".format
DID = "did:ex:{}".format


def dataset(subject, ident):
    if ident == "m1":
        return {"ns1": {"given_name": f"{subject} {ident}", "family_name": "Family", "age": 42}, "ns2": {"city": "Rotorua", "flags": {"ok": True}}}
    return {"given_name": f"{subject} {ident}", "family_name": "Family", "email": f"{subject}.{ident}@example.com",
            "address": {"city": "Rotorua", "street": f"{ident} street"}}


def status(subject, ident):
    if ident not in ("a1", "b2"):
        return None
    return {"id": f"http://i1.example/status#{subject}-{ident}", "type": "BitstringStatusListEntry", "statusPurpose": "revocation",
            "statusListIndex": len(subject) * 100 + ord(ident[0]), "statusListCredential": "http://i1.example/status"}


def offer_wrong(exp, got, pin, made):
    if got is None:
        return "cannot be retrieved"
    if got["issuer"] != exp["issuer"] or got["ids"] != exp["ids"]:
        return "lists other credentials"
    if (got["pre"] is not None) != exp["pre"] or (got["code"] is not None) != exp["code"] or got["empty"]:
        return "lists other grants"
    if exp["pre"] and got["pre"]["pin"] != exp["pin"]:
        return "is wrong about the PIN"
    if (exp["pre"] and not got["pre"]["code"]) or (exp["code"] and not got["code"]["istate"]):
        return "carries no code"
    if not got["url"] or not got["qr"]:
        return "does not survive its URL or QR code"
    if pin is not False and (bool(pin) != exp["pin"] or (pin and not (len(pin) == 6 and pin.isdigit()))):
        return "came without its PIN, or with one nobody asked for"
    if made and ((exp["pre"] and got["pre"]["code"] != made.get("code")) or (exp["code"] and got["code"]["istate"] != made.get("istate"))):
        return "is not the one created"
    return None


def content_wrong(a, res, pick, vc):
    """None, or (owners, what) for an issued credential that should be about the identifier and configuration `pick`."""
    ident, cfg = pick
    want = dataset(res["subject"], ident)
    if not isinstance(vc, dict):
        return {"C19"}, f"the credential is unreadable: {vc}"
    if res["by"] == "format" and res["claims"] == "some":
        want = {k: v for k, v in want.items() if k in ("given_name", "address", "ns1")}
    if cfg == "M":
        if "mdoc" not in vc:
            return {"C19"}, "not an mdoc"
        m = vc["mdoc"]
        got = {}
        for ns, items in m["items"].items():
            got[ns] = {i["name"]: i["value"] for i in items}
            if len(got[ns]) != len(items):
                return {"C19"}, "an element appears twice"
        if got != want:
            return {"C19"}, "the mdoc holds other elements"
        if m["by"] != DID(a["issuer"]):
            return {"C19"}, "not signed by the issuer"
        return None
    if "claims" not in vc:
        return {"C19"}, "not a JWT"
    c = vc["claims"]
    v = c.get("vc", {})
    if vc["by"] != DID(a["issuer"]) or vc["header"].get("kid") != DID(a["issuer"]) + "#key-0" or vc["header"].get("typ") != "vc+jwt":
        return {"C19"}, "not signed by the issuer as a credential"
    subject = v.get("credentialSubject")
    if not isinstance(subject, dict):
        return {"C19"}, "not exactly one subject"
    subject = dict(subject)
    holder = subject.pop("id", None)
    if res["provers"] and holder not in [DID(p) for p in res["provers"]]:
        return {"C15", "C19"}, f"the subject is {holder}, not the prover"
    if subject != want:
        return {"C19"}, "the claims are not the dataset's"
    if v.get("type") != ["VerifiableCredential", f"Cred{cfg}"]:
        return {"C19"}, "the types are not the configuration's"
    if v.get("issuer") != URL(a["issuer"]) or c.get("iss") != URL(a["issuer"]):
        return {"C19"}, "the issuer is not the credential issuer"
    if c.get("sub") != (holder or "") or c.get("jti") != v.get("id", "") or c.get("iat") != vc["at"]:
        return {"C19"}, "sub, jti or iat disagree with the credential"
    if v.get("credentialStatus") != status(res["subject"], ident):
        return {"C19"}, "the status is not the one kept for this credential"
    return None


def judge(a, exp, obs, earlier, made):
    """earlier: nonces seen so far; made(n): the names bound when call n was made.  Yields (owners, what)."""
    op = a["op"]
    if op in ("tick", "server", "ready"):
        return
    if "panic" in obs or "died" in obs:
        yield set(exp["fails"]) | set(exp["hon"]), "the issuer panicked"
        return
    refused = "err" in obs
    if exp["fails"]:
        if not refused:
            yield set(exp["fails"]), "accepted although it must be refused"
        elif exp["code"] == "invalid_proof":
            if obs["err"] != "invalid_proof" or not obs.get("nonce") or obs["nonce"] in earlier:
                yield {"C15"}, "a refused proof brought no new nonce"
            elif not 0 < obs["nlife"] <= 600:
                yield {"C13"}, "the nonce is said to live longer than it does"
        elif exp["code"] == "issuance_pending" and obs["err"] != "issuance_pending":
            yield {"C18"}, "a pending credential is not answered with issuance_pending"
        elif op == "register" and obs.get("stored"):
            yield {"C20"}, "a refused client was stored"
        return
    if refused:
        yield set(exp["hon"]), "refused although it must be accepted"
        return
    res = exp["res"]
    if op == "create_offer":
        bad = offer_wrong(res["offer"], obs["offer"], obs["pin"], None)
        if not bad and (("uri" in obs) != (res["send"] == "ref") or ("uri" in obs and not (obs["uri"] or "").startswith(URL(a["issuer"]) + "/"))):
            bad = "was not sent as asked"
        if bad:
            yield {"C17"}, "the offer " + bad
    elif op == "credential_offer":
        bad = offer_wrong(res["offer"], obs["offer"], False, made(res["offer"]["n"]))
        if bad:
            yield {"C17"}, "the offer " + bad
    elif op == "authorize":
        if not obs["code"] or obs["state"] != (None if res["state"] == "none" else res["state"]) or obs["redirect"] != f"https://{res['redirect']}.example/cb?x=1":
            yield {"C16"}, "the answer's state or redirect URI is not the request's"
    elif op == "par":
        if not 0 < obs["life"] <= res["life"]:
            yield {"C13"}, "the pushed request is said to live longer than it does"
    elif op == "token":
        if sorted((d["cfg"], sorted(d["ids"])) for d in obs["details"]) != sorted((d["cfg"], sorted(d["ids"])) for d in res["details"]):
            yield {"C14"} | ({"C16"} if a["grant"] == "code" else set()), "the token lists other credentials than authorized"
        if not 0 < obs["life"] <= res["life"] or not 0 < (obs["nlife"] or 0) <= res["nlife"]:
            yield {"C13"}, "the token or nonce is said to live longer than it does"
        if not obs["nonce"] or obs["nonce"] in earlier:
            yield {"C15"}, "no new nonce"
    elif op in ("credential", "deferred"):
        if res["kind"] == "txn":
            if "txn" not in obs or "vc" in obs:
                yield {"C18"}, "issued although the data is not ready"
            return
        if "vc" not in obs:
            yield {"C18"}, "deferred although the data is ready"
            return
        if not obs["nonce"] or obs["nonce"] in earlier:
            yield {"C15"}, "the nonce did not change"
        elif not 0 < obs["nlife"] <= 600:
            yield {"C13"}, "the nonce is said to live longer than it does"
        if not obs["note"]:
            yield {"C20"}, "no notification id"
        # a format may be met by several identifiers
        bad = [content_wrong(a, res, p, obs["vc"]) for p in res["picked"]]
        if all(bad):
            yield bad[0]
    elif op == "metadata":
        if obs["issuer"] != a["issuer"]:
            yield {"C20"}, "the metadata is not the issuer's"
    elif op == "oauth_server":
        if not obs["same"]:
            yield {"C20"}, "the metadata is not the server's"
    elif op == "register":
        if obs["stored"] != 1 or not obs["kept"] or not obs["returned"]:
            yield {"C20"}, "the client registered is not the one given"


def explore(focus, depth, echo):
    return tlc("IssuerMC", {"Focus": focus, "Depth": depth, "Echo": echo}, invariants=INV + ["Emit"], view="View", workers=1)


def nonce_of(o):
    return o.get("nonce") if isinstance(o, dict) else None


def replay_focus(rep, drv, focus, records, expunge):
    cases = [{"start": r["start"], "pend": r["pend"], "expunge": expunge, "hist": [{"a": h["a"], "n": h["n"]} for h in r["hist"]],
              "tries": [{"a": t["a"], "n": t["n"]} for t in r["tries"]]} for r in records]
    answers = replay_parallel(drv, cases)
    if not rep.samples:
        rep.samples = [{"hist": [h["a"] for h in c["hist"]], "try": c["tries"][0]["a"] if c["tries"] else None} for c in cases[-3:]]
    tried = 0
    for r, c, ans in zip(records, cases, answers):
        if ans is None or "died" in ans or "panic" in ans:
            if ans is not None:
                rep.diverge("the issuer ended or hung the process", {"case": c, "got": ans})
            continue
        names, seen, off = {}, [], False
        for k, v in ans["names"].items():
            kind, n = k.split(":")
            names.setdefault(n, {})[kind] = v
        made = lambda n: names.get(str(n), {})
        story = []
        for h, o in zip(r["hist"], ans["hist"]):
            story.append(h["a"])
            found = list(judge(h["a"], h["exp"], o, seen, made))
            for owners, what in found:
                if rep.prop in owners:
                    rep.diverge(f"{h['a']['op']}: {what}", {"focus": focus, "expunge": expunge, "start": r["start"], "pend": r["pend"], "calls": story, "expected": h["exp"], "got": o})
            if nonce_of(o):
                seen.append(o["nonce"])
            if found:
                off = True
                break
        if off:
            rep.notes["histories_off"] = rep.notes.get("histories_off", 0) + 1
            continue
        for t, o in zip(r["tries"], ans["tries"]):
            tried += 1
            for owners, what in judge(t["a"], t["exp"], o, seen, made):
                if rep.prop in owners:
                    rep.diverge(f"{t['a']['op']}: {what}", {"focus": focus, "expunge": expunge, "start": r["start"], "pend": r["pend"], "calls": story + [t["a"]], "expected": t["exp"], "got": o})
    rep.traces += len(cases)
    rep.notes["calls_tried"] = rep.notes.get("calls_tried", 0) + tried


def check(prop):
    def run(rep, deep):
        main = MAIN[prop]
        foci = list(DEPTH) if deep else [main] + ALSO[prop]
        with ThreadPoolExecutor(4) as pool:
            jobs = [(f, pool.submit(explore, f, DEPTH[f][1 if deep and f == main else 0], ECHO[f][1 if deep and f == main else 0])) for f in foci]
            drv = build("issuer")
            for f, job in jobs:
                r = job.result()
                rep.model(r)
                replay_focus(rep, drv, f, r.records, False)
                if f in ("time", "defer") or deep:
                    replay_focus(rep, drv, f, r.records, True)
        rep.notes["explored"] = {f: DEPTH[f][1 if deep and f == main else 0] for f in foci}
    return run


CHECKS = {p: check(p) for p in MAIN}
_T = ("TLC explores the issuer's state machine (Issuer.tla) and checks the property on it; each distinct state's history, and every call tried in that state, is replayed "
      "through the real endpoints on a virtual clock and each answer compared with the specification's")
_L = "Exhaustive for the calls listed for focus '{}' in IssuerMC.tla within its depth, one at a time; cryptography is symbolic (standins/vercre-infosec); calls do not overlap."
ABOUT = {p: (_T, _L.format(f)) for p, f in MAIN.items()}
