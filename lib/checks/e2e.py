"""C33, C34: the issuer, the wallets and the verifier together."""

from concurrent.futures import ThreadPoolExecutor

from ..tools import build, replay_parallel, tlc
from .holder import bag

INV = ["Rooted", "OnceRedeemed", "Bound", "AnsweredOnce", "Consented", "NothingLost"]
#: focus -> depth quick, thorough
RUNS = {"issue": (7, 9), "claims": (6, 8), "race": (7, 10), "later": (8, 11), "start": (4, 6), "time": (7, 9), "show": (11, 12), "asks": (11, 13)}
FOCI = {"C33": ["issue", "claims", "race", "later", "start", "time"], "C34": ["show", "asks"]}


ALL = ["email", "family", "given"]
WIDE = "a wallet holds every claim of a credential of which fewer were accepted"


def plain(c):
    return {"id": c["id"], "cfg": c["cfg"], "subj": c["subj"], "claims": sorted(c["claims"]), "to": c["to"] if c["cfg"] == "A" else "any"}


def same(want, got):
    """the credentials wanted, and the ones seen: nothing missing, nothing more, nothing odd"""
    if any(not isinstance(g, dict) or g["odd"] for g in got):
        return False
    return bag(plain(c) for c in want) == bag(plain(g) for g in got)


def widened(want, got):
    """the same, but for credentials that carry every claim although fewer were accepted (known-findings.txt)"""
    return same([{**c, "claims": ALL} for c in want], got) and any(sorted(c["claims"]) != ALL for c in want)


def judge(a, exp, obs):
    """Yields (owners, what)."""
    op = a["op"]
    show = op in ("ask", "request", "consent", "present")
    own = {"C34"} if show else {"C33"}
    if "panic" in obs or "died" in obs:
        yield own, "a party panicked"
        return
    for w, want in exp["held"].items():
        if same(want, obs["held"][w]):
            continue
        if widened(want, obs["held"][w]):
            yield {"C33"}, WIDE
        else:
            yield {"C33"}, "a wallet does not hold exactly what it was granted, received and saved"
            break
    if any(t != "ok" for t in obs["told"]):
        yield {"C33"}, "the issuer refused to be told about its credentials"
    if op in ("tick", "ready"):
        return
    refused = "err" in obs
    if exp["fails"]:
        if not refused:
            yield set(exp["fails"]), "accepted although it must be refused"
        return
    if refused:
        yield set(exp["hon"]), "refused although it must be accepted"
        return
    res = exp["res"]
    if op == "take":
        if sorted(obs["cfgs"]) != sorted(res["cfgs"]) or obs["wrong"]:
            yield own, "the offer shown is not the offer made"
    elif op in ("token", "authorize", "start"):
        if bag({"cfg": x["cfg"], "ids": sorted(x["ids"])} for x in obs["auth"]) != bag({"cfg": x["cfg"], "ids": sorted(x["ids"])} for x in res["auth"]):
            yield own, "what is authorized is not what was granted"
    elif op in ("collect", "defer"):
        if bag({"tx": x["tx"], "cfg": x["cfg"]} for x in obs["later"]) != bag({"tx": f"{x['id']}:{x['k']}", "cfg": x["cfg"]} for x in res["later"]):
            yield own, "what is deferred is not what is outstanding"
    elif op == "request":
        if not same(res["creds"], obs["creds"]):
            yield own, "the credentials shown for consent are not those that match"


def check(prop):
    def run(rep, deep):
        foci = list(RUNS) if deep else FOCI[prop]
        with ThreadPoolExecutor(4) as pool:
            jobs = [(f, pool.submit(tlc, "EndToEnd", {"Focus": f, "Depth": RUNS[f][deep]}, invariants=INV + ["Emit"], view="View", workers=2)) for f in foci]
            drv = build("e2e")
            for f, job in jobs:
                r = job.result()
                rep.model(r)
                cases = [{"pend": x["pend"], "hist": [{"a": h["a"], "n": h["n"]} for h in x["hist"]], "tries": [{"a": t["a"], "n": t["n"]} for t in x["tries"]]} for x in r.records]
                answers = replay_parallel(drv, cases)
                if not rep.samples:
                    rep.samples = [{"hist": [h["a"] for h in c["hist"]], "try": c["tries"][0]["a"] if c["tries"] else None} for c in cases[-3:]]

                def tell(h, o, calls):
                    found = list(judge(h["a"], h["exp"], o))
                    for owners, what in found:
                        if rep.prop in owners:
                            rep.diverge(what if what == WIDE else f"{h['a']['op']}: {what}", {"focus": f, "calls": calls, "expected": h["exp"], "got": o})
                    return found
                tried = 0
                for x, c, ans in zip(r.records, cases, answers):
                    if ans is None or "died" in ans or "panic" in ans:
                        if ans is not None:
                            rep.diverge("a party ended or hung the process", {"case": c, "got": ans})
                        continue
                    story, off = [], False
                    for h, o in zip(x["hist"], ans["hist"]):
                        story.append(h["a"])
                        if any(what != WIDE for _, what in tell(h, o, list(story))):
                            off = True
                            break
                    if off:
                        rep.notes["histories_off"] = rep.notes.get("histories_off", 0) + 1
                        continue
                    for t, o in zip(x["tries"], ans["tries"]):
                        tried += 1
                        tell(t, o, story + [t["a"]])
                rep.traces += len(cases)
                rep.notes["calls_tried"] = rep.notes.get("calls_tried", 0) + tried
        rep.notes["explored"] = {f: RUNS[f][deep] for f in foci}
    return run


CHECKS = {"C33": check("C33"), "C34": check("C34")}
_T = ("TLC explores the issuer, two wallets and the verifier together (EndToEnd.tla) and checks the property on the composition; each distinct state's history, and every call tried in that state, is "
      "replayed with vercre-issuer, vercre-holder and vercre-verifier all real, every message passed as text, and each answer and each wallet's credentials compared with the specification's")
_L = "Exhaustive for the calls listed in EndToEnd.tla within its depth; cryptography is symbolic (standins/vercre-infosec); calls do not overlap."
ABOUT = {p: (_T, _L) for p in CHECKS}
