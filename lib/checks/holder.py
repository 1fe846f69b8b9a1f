"""C24-C26: vercre-holder."""

import json
from concurrent.futures import ThreadPoolExecutor

from ..tools import build, replay, replay_parallel, tlc

INV = ["InOrder", "OnlyAccepted", "OnlyOffered", "KeptWasAsked", "Apart", "Unkept", "NothingLost"]
PINV = ["ConsentFirst", "OnlyMatching", "OnlySigned"]
#: focus -> (depth, histories shorter than this have every call tried followed up) quick, thorough
RUNS = {"order": ((6, 5), (8, 6)), "choose": ((6, 4), (8, 5)), "wallet": ((4, 3), (6, 5)), "both": ((7, 4), (10, 6))}
PRES = {"match": ((6, 5), (8, 7)), "order": ((8, 6), (8, 8))}
FOCI = {"C24": ["order", "both"], "C25": ["choose", "wallet", "both"]}


def canon(v):
    return json.dumps(v, sort_keys=True)


def bag(vs):
    return sorted(canon(v) for v in vs)


def sent_wrong(want, got):
    """None, or how a request to the issuer differs from what must be sent."""
    for f in ("kind", "issuer", "flow", "grant", "pin", "scope", "istate", "redirect", "id", "tx", "event"):
        if f in want and want[f] != got.get(f):
            return f"{want['kind']} request with another {f}"
    if got["faults"]:
        return f"{want['kind']} request: wrong {', '.join(got['faults'])}"
    if "details" in want and want.get("scope", "none") == "none":
        w, g = want["details"], got["details"]
        cfgs = [d["cfg"] for d in g["list"]]
        if w["any"]:
            # everything offered: unsaid, or each named
            if want["kind"] == "authorization" and sorted(cfgs) != sorted(want["cfgs"]):
                return "authorization request for other credentials"
            if not g["any"] and "cfgs" in want and sorted(cfgs) != sorted(want["cfgs"]):
                return "request for other credentials"
        elif g["any"] or bag({"cfg": d["cfg"], "claims": sorted(d["claims"])} for d in w["list"]) != bag(g["list"]):
            return f"{want['kind']} request for other credentials or claims than accepted"
    elif want["kind"] == "authorization" and not got["details"]["any"]:
        return "authorization request with both scope and details"
    return None


def judge(a, exp, obs):
    """Yields (owners, what)."""
    op = a["op"]
    both = {"C24", "C25"}
    if "panic" in obs or "died" in obs:
        yield both, "the wallet panicked"
        return
    kept_ok = bag(exp["kept"]) == bag(obs["kept"])
    if not kept_ok:
        yield {"C25"}, "the wallet's credentials are not those received and saved"
    if obs["odd"]:
        yield {"C25"}, "a credential saved otherwise than received: " + obs["odd"][0]
    refused = "err" in obs
    if exp["fails"]:
        own = set(exp["fails"])
        if not refused:
            yield own, "accepted although it must be refused"
            return
        if exp["quiet"] and obs["asked"]:
            yield own, "refused, but the issuer was contacted"
        if obs["changed"] and op != "offer":
            yield own, "refused, but the flow was changed"
        if exp["anysent"]:
            return
    elif refused:
        yield set(exp["hon"]), "refused although it must be accepted"
        return
    want, got = exp["sent"], [g for g in obs["sent"]]
    if len(want) != len(got):
        yield {"C25"}, f"{len(got)} requests sent, not {len(want)}"
    else:
        keyed = lambda s: (s["kind"], s.get("id", ""))
        for w, g in zip(sorted(want, key=keyed), sorted(got, key=keyed)):
            bad = sent_wrong(w, g)
            if bad:
                yield ({"C24", "C25"} if w["kind"] == "token" else {"C25"}), bad
                break
    if exp["fails"]:
        return
    res = exp["res"]
    if op == "offer":
        if obs["flow"] != res["flow"] or obs["issuer"] != res["issuer"] or sorted(obs["cfgs"]) != sorted(res["cfgs"]) or obs["wrong"] or not obs["grants"]:
            yield {"C24"}, "the offer shown is not the offer made"
    elif op in ("token", "authorize", "start"):
        if obs["flow"] != res["flow"] or bag(obs["auth"]) != bag(res["auth"]):
            yield {"C25"}, "what is reported authorized is not what was authorized"
    elif op in ("credentials", "deferred"):
        if obs["flow"] != res["flow"] or bag(obs["later"]) != bag(res["later"]) or obs["wrong"]:
            yield {"C25"}, "what is reported deferred is not what is outstanding"
    elif obs["flow"] not in (a["flow"], "?"):
        yield {"C24"}, "another flow was answered"


def judge_pres(a, exp, obs, n):
    if "panic" in obs or "died" in obs:
        yield "the wallet panicked"
        return
    op, refused = a["op"], "err" in obs
    if op == "keep":
        return
    sends = [s for s in obs["sent"] if s["kind"] == "present"]
    if exp["open"]:
        return
    if exp["fails"]:
        if not refused:
            yield "accepted although it must be refused"
        elif exp["quiet"] and obs["asked"]:
            yield "refused, but the verifier was contacted"
        elif obs["changed"]:
            yield "refused, but the flow was changed"
        if op == "present" and not exp["quiet"]:
            return
    elif refused:
        yield "refused although it must be accepted" + (" (the request names no constant)" if exp["res"].get("noconst") else "")
        return
    if op != "present" or exp["fails"]:
        if sends:
            yield "something was sent without consent"
        elif not exp["fails"] and op == "request":
            if obs["flow"] != n or obs["status"] != "Requested" or sorted(obs["creds"]) != sorted(exp["res"]["creds"]) or obs["count"] != len(exp["res"]["creds"]):
                yield "the credentials shown are not those that match"
        elif not exp["fails"] and op == "consent" and obs["status"] != "Authorized":
            yield "the flow is not authorized"
        return
    res = exp["res"]
    k = res["flow"]
    if len(sends) != 1 or len(sends[0]["tokens"]) != 1 or not isinstance(sends[0]["tokens"][0], dict):
        yield "not one signed presentation was sent"
        return
    s, t = sends[0], sends[0]["tokens"][0]
    if s["uri"] != f"http://v1.example/post/{k}" or s["state"] != f"state {k}":
        yield "sent elsewhere, or with another state"
    if t["by"] != "did:ex:h1" or not str(t["header"].get("kid", "")).startswith("did:ex:h1#") or t["claims"].get("iss") != "did:ex:h1":
        yield "not signed by the holder"
        return
    c = t["claims"]
    if c.get("nonce") != f"nonce {k}" or c.get("aud") != f"http://v1.example/client/{k}":
        yield "signed for another nonce or audience"
    vp = c.get("vp", {})
    creds = vp.get("verifiableCredential") or []
    creds = creds if isinstance(creds, list) else [creds]
    names = [name_of(x) for x in creds]
    if sorted(names) != sorted(res["creds"]):
        yield "the credentials presented are not those that match"
        return
    if vp.get("holder") != "did:ex:h1":
        yield "the presentation names another holder"
    sub = s["submission"] or {}
    maps = {m["id"]: m for m in sub.get("descriptor_map", [])}
    if sub.get("definition_id") != f"def {k}" or len(maps) != len(res["map"]) or len(sub["descriptor_map"]) != len(res["map"]):
        yield "the submission answers another definition"
        return
    for m in res["map"]:
        d = maps.get("the " + m["id"])
        path = (d or {}).get("path_nested", {}).get("path", "")
        found = resolve(path, creds)
        # one presentation is sent, so the outer path can only be the whole of it
        if d is None or d.get("path") not in ("$", "$[0]") or found is None or name_of(found) not in m["fit"]:
            yield f"the submission maps a descriptor to a credential that does not satisfy it"
            return


def name_of(jwt):
    import base64
    try:
        body = jwt.split(".")[1]
        return json.loads(base64.urlsafe_b64decode(body + "=" * (-len(body) % 4)))["jti"].replace("urn:", "")
    except (AttributeError, IndexError, ValueError, KeyError):
        return "?"


def resolve(path, creds):
    import re
    m = re.fullmatch(r"\$(?:\.vp)?\.verifiableCredential(?:\[(\d+)\])?", path)
    if not m:
        return None
    if m.group(1) is None:
        return creds[0] if len(creds) == 1 else None
    i = int(m.group(1))
    return creds[i] if i < len(creds) else None


def walk(rep, drv, focus, records, tell):
    cases = [{"hist": [{"a": h["a"], "n": h["n"]} for h in r["hist"]], "tries": [{"a": t["a"], "n": t["n"]} for t in r["tries"]]} for r in records]
    answers = replay_parallel(drv, cases)
    if not rep.samples:
        rep.samples = [{"hist": [h["a"] for h in c["hist"]], "try": c["tries"][0]["a"] if c["tries"] else None} for c in cases[-3:]]
    tried = 0
    for r, c, ans in zip(records, cases, answers):
        if ans is None or "died" in ans or "panic" in ans:
            if ans is not None:
                rep.diverge("the wallet ended or hung the process", {"case": c, "got": ans})
            continue
        story, off = [], False
        for h, o in zip(r["hist"], ans["hist"]):
            story.append(h["a"])
            if tell(h, o, story):
                off = True
                break
        if off:
            rep.notes["histories_off"] = rep.notes.get("histories_off", 0) + 1
            continue
        for t, o in zip(r["tries"], ans["tries"]):
            tried += 1
            tell(t, o, story + [t["a"]])
    rep.traces += len(cases)
    rep.notes["calls_tried"] = rep.notes.get("calls_tried", 0) + tried


def issuance(prop):
    def run(rep, deep):
        foci = list(RUNS) if deep else FOCI[prop]
        with ThreadPoolExecutor(4) as pool:
            jobs = [(f, pool.submit(tlc, "HolderMC", {"Focus": f, "Depth": RUNS[f][deep][0], "Echo": RUNS[f][deep][1]}, invariants=INV + ["Emit"], view="View", workers=1)) for f in foci]
            drv = build("holder")
            for f, job in jobs:
                r = job.result()
                rep.model(r)

                def tell(h, o, calls):
                    found = list(judge(h["a"], h["exp"], o))
                    for owners, what in found:
                        if rep.prop in owners:
                            rep.diverge(f"{h['a']['op']}: {what}", {"focus": f, "calls": calls, "expected": h["exp"], "got": o})
                    return found
                walk(rep, drv, f, r.records, tell)
        rep.notes["explored"] = {f: RUNS[f][deep] for f in foci}
    return run


NAMES = ["Inactive", "Requested", "Authorized"]
STATUS = ["Inactive", "Requested", "Authorized", "Failed: it broke", "Failed: ", "Failed", "Failed:", "Faile", "failed: x", "", "Failed: \u00e9\u00e9", "Failed\u00e9\u00e9", "Requested "]


def presentation(rep, deep):
    with ThreadPoolExecutor(2) as pool:
        jobs = [(f, pool.submit(tlc, "HolderPres", {"Focus": f, "Depth": d[deep][0], "Echo": d[deep][1]}, invariants=PINV + ["Emit"], view="View", workers=1)) for f, d in PRES.items()]
        drv = build("holder")
        for f, job in jobs:
            r = job.result()
            rep.model(r)

            def tell(h, o, calls):
                found = list(judge_pres(h["a"], h["exp"], o, h["n"]))
                for what in found:
                    rep.diverge(f"{h['a']['op']}: {what}", {"focus": f, "calls": calls, "expected": h["exp"], "got": o})
                return found
            walk(rep, drv, f, r.records, tell)
    # a flow's status as text: what is written is read back, what is not a status is refused
    for text, ans in zip(STATUS, replay(drv, [{"status": s} for s in STATUS])):
        if text in NAMES or text.startswith("Failed: "):
            bad = ans.get("text") != text
        else:
            bad = not ("err" in ans or ans.get("text") in (text, text + ": "))
        if bad:
            rep.diverge("a status is read otherwise than written", {"text": text, "got": ans})
    rep.notes["explored"] = {f: d[deep] for f, d in PRES.items()}


CHECKS = {"C24": issuance("C24"), "C25": issuance("C25"), "C26": presentation}
_T = ("TLC explores the wallet's {} ({}) with the {} as its environment and checks the property on it; each distinct state's history, and every call tried in that state, is replayed "
      "through the real endpoints with the environment played by the driver, and each answer, request sent, stored credential and stored flow compared with the specification's")
_L = "Exhaustive for the calls listed in {} within its depth; cryptography is symbolic (standins/vercre-infosec); calls do not overlap; the issuer and verifier behave as the specification lets them."
ABOUT = {p: (_T.format("issuance flows", "Holder.tla", "issuer"), _L.format("HolderMC.tla")) for p in ("C24", "C25")}
ABOUT["C26"] = (_T.format("presentation flows", "HolderPres.tla", "verifier"), _L.format("HolderPres.tla"))
