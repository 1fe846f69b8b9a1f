"""C21-C23: vercre-verifier."""

from concurrent.futures import ThreadPoolExecutor

from ..tools import build, replay_parallel, tlc

INV = ["AtMostOnce", "NothingLate", "OnlyProven", "StaysOpen"]
#: what is looked at -> (depth, pairs of faults, histories shorter than this have every call tried followed up) quick, thorough
RUNS = {"create": ((3, False, 3), (4, False, 4)), "answer": ((2, True, 3), (3, True, 4)), "life": ((5, False, 5), (7, False, 7))}
MAIN = {"C21": "create", "C22": "answer", "C23": "life"}
ALSO = {"C21": ["life"], "C22": ["life"], "C23": ["create", "answer"]}


def url(name):
    return f"http://{name}.example"


def object_wrong(res, obj, descs, meta, purpose=None, cross=True):
    """None, or what is wrong with a request object."""
    if not isinstance(obj, dict):
        return "there is no request object"
    d = obj.get("presentation_definition")
    if not isinstance(d, dict) or d.get("input_descriptors") != descs:
        return "the request object asks for other credentials"
    if purpose is not None and d.get("purpose") != purpose:
        return "the request object states another purpose"
    if not d.get("id") or not obj.get("nonce") or not obj.get("state"):
        return "the request object has no definition id, nonce or state"
    cid = url(res["client"])
    if obj.get("response_type") != "vp_token" or obj.get("client_id_scheme") != "redirect_uri" or obj.get("client_metadata") != meta:
        return "the request object misdescribes the verifier"
    if cross:
        if obj.get("client_id") != cid + "/post" or obj.get("response_uri") != cid + "/post" or obj.get("response_mode") != "direct_post":
            return "the response would not be posted to the verifier"
    elif obj.get("client_id") != cid + "/callback" or "response_uri" in obj or "response_mode" in obj:
        return "the response would not come back to the verifier"
    return None


def judge(a, exp, obs, made, n):
    """made: n -> the create's observation.  Yields (owners, what)."""
    op = a["op"]
    if op == "tick":
        return
    if "panic" in obs or "died" in obs:
        yield set(exp["fails"]) | set(exp["hon"]), "the verifier panicked"
        return
    refused = "err" in obs
    if exp["fails"]:
        if not refused:
            only = f" (its only fault: {exp['only']})" if exp["only"] != "none" else ""
            yield set(exp["fails"]), "accepted although it must be refused" + only
        return
    if refused:
        yield set(exp["hon"]), "refused although it must be accepted"
        return
    res = exp["res"]
    if op == "create":
        cross = res["flow"] == "cross"
        bad = object_wrong(res, obs["object"], obs["descs"], obs["meta"], obs["purpose"], cross)
        if not bad and (obs["given"] == cross or (obs["uri"] is None) == cross):
            bad = "sent otherwise than its device flow says"
        if not bad and cross and obs["uri"] != f"{url(res['client'])}/request/{obs['object']['state']}":
            bad = "the reference is not the request's"
        if not bad:
            for k, o in made.items():
                if k != n and isinstance(o.get("object"), dict):
                    if any(o["object"][f] == obs["object"][f] for f in ("nonce", "state")) or o["object"]["presentation_definition"]["id"] == obs["object"]["presentation_definition"]["id"]:
                        bad = "nonce, state or definition id repeats"
        if bad:
            yield {"C21"}, bad
    elif op == "object":
        o = made.get(res["n"], {})
        if obs.get("by") != "did:ex:" + res["client"] or obs["header"].get("typ") != "oauth-authz-req+jwt":
            yield {"C21"}, "the request object is not signed by the verifier"
        elif obs["object"] != o.get("object"):
            yield {"C21"}, "the request object is not the one created"
    elif op == "response":
        if not obs["redirect"]:
            yield {"C22"}, "no redirect"
    elif op == "metadata":
        if obs["meta"] != obs["want"]:
            yield {"C21"}, "the metadata is not the verifier's"


def explore(focus, deep):
    depth, pairs, echo = RUNS[focus][1 if deep else 0]
    return tlc("VerifierMC", {"Focus": focus, "Depth": depth, "Pairs": pairs, "Echo": echo}, invariants=INV + ["Emit"], view="View", workers=1)


def replay_focus(rep, drv, focus, records, expunge):
    cases = [{"expunge": expunge, "hist": [{"a": h["a"], "n": h["n"]} for h in r["hist"]], "tries": [{"a": t["a"], "n": t["n"]} for t in r["tries"]]} for r in records]
    answers = replay_parallel(drv, cases)
    if not rep.samples:
        rep.samples = [{"hist": [h["a"] for h in c["hist"]], "try": c["tries"][0]["a"] if c["tries"] else None} for c in cases[-3:]]
    tried = 0
    for r, c, ans in zip(records, cases, answers):
        if ans is None or "died" in ans or "panic" in ans:
            if ans is not None:
                rep.diverge("the verifier ended or hung the process", {"case": c, "got": ans})
            continue
        made, story, off = {}, [], False

        def tell(h, o, calls):
            found = list(judge(h["a"], h["exp"], o, made, h["n"]))
            for owners, what in found:
                if rep.prop in owners:
                    rep.diverge(f"{h['a']['op']}: {what}", {"focus": focus, "calls": calls, "expected": h["exp"], "got": o})
            return found

        for h, o in zip(r["hist"], ans["hist"]):
            story.append(h["a"])
            if h["a"]["op"] == "create":
                made[h["n"]] = o
            if tell(h, o, story):
                off = True
                break
        if off:
            rep.notes["histories_off"] = rep.notes.get("histories_off", 0) + 1
            continue
        for t, o in zip(r["tries"], ans["tries"]):
            tried += 1
            tell(t, o, story + [t["a"]])
    rep.traces += len(cases)
    rep.notes["calls_tried"] = rep.notes.get("calls_tried", 0) + tried


def check(prop):
    def run(rep, deep):
        main = MAIN[prop]
        foci = list(RUNS) if deep else [main] + ALSO[prop]
        with ThreadPoolExecutor(3) as pool:
            jobs = [(f, pool.submit(explore, f, deep)) for f in foci]
            drv = build("verifier")
            for f, job in jobs:
                r = job.result()
                rep.model(r)
                replay_focus(rep, drv, f, r.records, False)
                if f == "life":
                    replay_focus(rep, drv, f, r.records, True)
        rep.notes["explored"] = {f: RUNS[f][1 if deep else 0] for f in foci}
    return run


CHECKS = {p: check(p) for p in MAIN}
_T = ("TLC explores the verifier's state machine (Verifier.tla) and checks the property on it; each distinct state's history, and every call tried in that state, is replayed "
      "through the real endpoints on a virtual clock and each answer compared with the specification's")
_L = "Exhaustive for the calls listed for focus '{}' in VerifierMC.tla within its depth (every response with up to two faults); cryptography is symbolic (standins/vercre-infosec); calls do not overlap."
ABOUT = {p: (_T, _L.format(f)) for p, f in MAIN.items()}
