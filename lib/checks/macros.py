"""C09, C10: the request macros.  Each invocation of the model becomes a function of a generated crate."""

import json
import os
import signal
import subprocess

from .. import ws
from ..tools import VERIF, ToolError, bounded, tlc
from .difexch import utext

INV = ["ValidBuilt", "OrderIrrelevant", "AddedRefused", "DroppedNamed", "Emit"]
PATHS = {"t1": "T1", "jj": "JJ"}
HEAD = """#![allow(warnings)]
mod support;
use support::*;
mod consts { pub const T1: &str = "t1"; pub const JJ: &str = "jj"; }
"""


def rust(s):
    return '"' + "".join(ch if ch.isalnum() and ch.isascii() or ch in " :/.-_{}#%&" else f"\\u{{{ord(ch):x}}}" for ch in s) + '"'


class Writer:
    def __init__(self, comma=""):
        self.lets, self.n, self.comma = [], 0, comma

    def var(self, init):
        self.n += 1
        self.lets.append(f"let v{self.n} = {init};")
        return f"v{self.n}"

    def value(self, v):
        k = v["v"]
        if k == "text":
            s = utext(v["s"])
            lit, form = rust(s), v["form"]
            if form == "lit":
                return lit
            if form == "var":
                return self.var(lit)
            if form == "string":
                return self.var(lit + ".to_string()")
            if form == "borrow":
                return "&" + self.var(lit)
            if form == "borrowstring":
                return "&" + self.var(lit + ".to_string()")
            if form == "const":
                self.lets.append(f"const K: &str = {lit};")
                return "K"
            if form == "path":
                return "consts::" + PATHS[s]
            if form == "call":
                return f"same({lit})"
            if form == "method":
                return self.var(lit) + ".to_string()"
            raise ToolError(form)
        if k == "bool":
            lit = "true" if v["b"] else "false"
            return lit if v["form"] == "lit" else self.var(lit)
        if k == "int":
            return str(v["n"])
        if k == "arr":
            return "[" + ", ".join(self.value(x) for x in v["xs"]) + self.comma * bool(v["xs"]) + "]"
        if k == "obj":
            return self.object(v["fs"])
        if k == "enum":
            return "vercre_issuer::SendType::" + {"by_val": "ByVal", "by_ref": "ByRef"}[v["p"]]
        return self.var("encryption()")

    def object(self, fs):
        return "{" + ", ".join(f"{rust(n)}: {self.value(x)}" for n, x in fs) + self.comma * bool(fs) + "}"


def function(i, x):
    w = Writer("," if i % 3 == 2 else "")  # a trailing comma means nothing
    body = w.object(x["fs"])
    return f"fn c{i}() -> serde_json::Value {{ {' '.join(w.lets)} vercre_macros::{x['m']}!({body}).project() }}"


def crate(lines, live):
    layout = ws.layout([], ["macros"])
    d = os.path.join(layout, "gen", "macros")
    ws.write(f"{d}/Cargo.toml", """[package]
name = "gen-macros"
version = "0.1.0"
edition = "2021"
publish = false
[dependencies]
vercre-issuer.workspace = true
vercre-macros.workspace = true
vercre-openid.workspace = true
serde_json.workspace = true
""")
    ws.write(f"{d}/src/support.rs", ws.read(f"{VERIF}/harness/drivers/macros/support.rs"))
    src = HEAD
    at = {}
    for i in live:
        src += lines[i] + "\n"
        at[src.count("\n")] = i
    src += "fn main() { std::panic::set_hook(Box::new(|_| {}));\n" + "".join(f"run({i}, c{i});\n" for i in live) + "}\n"
    ws.write(f"{d}/src/main.rs", src)
    return layout, at


class Ended(Exception):
    """a macro ended or hung the compiler"""


def culprit(lines, live, build):
    """one invocation on which the compiler ends or hangs, or None"""
    ends = False
    while live:
        if ends and len(live) == 1:
            return live[0]
        for part in (live[:len(live) // 2], live[len(live) // 2:]):
            try:
                compile_(lines, part, build, 45)
            except Ended:
                live, ends = part, True
                break
        else:
            return None
    return None


def compile_(lines, live, build, limit=300):
    """Compiles the live cases; returns {case: [messages]} of those with errors, or {} when the crate compiles."""
    layout, at = crate(lines, live)
    q = subprocess.Popen(["cargo", "build" if build else "check", "-p", "gen-macros", "--message-format=json"], cwd=layout, env=ws.env(),
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
    try:
        out, err = q.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        os.killpg(q.pid, signal.SIGKILL)
        q.communicate()
        raise Ended("compiling the invocations timed out") from None
    p = subprocess.CompletedProcess(q.args, q.returncode, out, err)
    errors, other = {}, []
    for line in p.stdout.splitlines():
        if not line.startswith("{"):
            continue
        m = json.loads(line)
        if m.get("reason") != "compiler-message" or m["message"]["level"] not in ("error", "error: internal compiler error"):
            continue
        msg = m["message"]
        hit = None
        if m["target"]["name"] == "gen-macros":
            for span in msg["spans"]:
                while span and hit is None:
                    if span["file_name"].endswith("gen/macros/src/main.rs"):
                        hit = at.get(span["line_start"])
                    span = (span.get("expansion") or {}).get("span")
        full = msg["message"] + " " + " ".join(c["message"] for c in msg["children"])
        if hit is None:
            other.append(msg.get("rendered") or full)
        else:
            errors.setdefault(hit, []).append(full)
    if not errors and p.returncode != 0 and not other and "(signal:" in p.stderr and "could not compile `gen-macros`" in p.stderr:
        raise Ended("the compiler was ended by a signal")
    if not errors and p.returncode != 0:
        raise ToolError("the crate of invocations does not compile:\n" + "\n".join(other)[:3000] + p.stderr[-3000:])
    return errors


def options(x):
    """Model value -> JSON: options become null or their value."""
    if isinstance(x, dict):
        if x.get("o") == "none":
            return None
        if x.get("o") == "some":
            return options(x["x"])
        return {k: options(v) for k, v in x.items()}
    if isinstance(x, list):
        return [options(v) for v in x]
    return utext(x) if isinstance(x, str) else x


def claims_of(x):
    """TLC writes an empty function as []: empty sets of claims are objects."""
    if isinstance(x, dict):
        return {k: ({} if k in ("subject", "set") and v == [] else claims_of(v)) for k, v in x.items()}
    if isinstance(x, list):
        return [claims_of(v) for v in x]
    return x


def c09(rep, deep):
    r = tlc("MacrosMC", {"Big": deep, "Part": "valid"}, invariants=INV)
    rep.model(r)
    recs = r.records
    lines = [function(i, x) for i, x in enumerate(recs)]
    live = list(range(len(recs)))
    while True:
        try:
            errors = compile_(lines, live, True)
        except Ended as e:
            i = culprit(lines, live, True)
            if i is None:
                raise ToolError(str(e)) from None
            rep.diverge("an invocation ends or hangs the compiler", {"case": lines[i]})
            rep.traces = len(recs)
            return
        if not errors:
            break
        for i, msgs in errors.items():
            rep.diverge("a valid invocation does not compile", {"case": lines[i], "errors": msgs[:3]})
        live = [i for i in live if i not in errors]
        if len(rep.violations) > len(recs) // 2 or not live:
            rep.traces = len(recs)
            return
    try:
        out = subprocess.run([os.path.join(ws.WORK, "target", "debug", "gen-macros")], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60, preexec_fn=bounded).stdout
    except subprocess.TimeoutExpired as e:
        out = e.stdout or b""       # what is missing was not built
    got = {}
    for line in out.decode("utf-8", "replace").split("\n")[:-1]:
        if "\x1e" in line:
            j = json.loads(line[line.index("\x1e") + 1:])
            got[j["id"]] = j["got"]
    rep.traces = len(recs)
    rep.samples = lines[:3]
    for i in live:
        want = claims_of(options(recs[i]["req"]))
        if got.get(i) != want:
            rep.diverge("the request built is not the one described", {"case": lines[i], "want": want, "got": got.get(i)})


def c10(rep, deep):
    r = tlc("MacrosMC", {"Big": deep, "Part": "faulty"}, invariants=INV)
    rep.model(r)
    recs = [x for x in r.records if not x["ok"]]
    lines = [function(i, x) for i, x in enumerate(recs)]
    live = list(range(len(recs)))
    refused = {}
    rounds = 0
    while live:
        rounds += 1
        try:
            errors = compile_(lines, live, False)
        except Ended as e:
            i = culprit(lines, live, False)
            if i is None:
                raise ToolError(str(e)) from None
            rep.diverge("an invocation ends or hangs the compiler", {"case": lines[i]})
            rep.traces = len(recs)
            return
        if not errors:
            break
        refused.update(errors)
        live = [i for i in live if i not in errors]
    rep.traces = len(recs)
    rep.samples = lines[:3]
    rep.notes["rounds"] = rounds
    for i in live:
        rep.diverge("a faulty invocation compiles", {"case": lines[i], "faults": recs[i]["errs"]})
    for i, msgs in refused.items():
        errs = recs[i]["errs"]
        if errs and all(e["field"] for e in errs):
            said = " ".join(msgs)
            if not any(e["field"] in said for e in errs):
                rep.diverge("the error does not name the offending field", {"case": lines[i], "faults": errs, "errors": msgs[:3]})


CHECKS = {"C09": c09, "C10": c10}
ABOUT = {
    "C09": ("TLC enumerates invocations with the request each describes; each is compiled against the real macros and the request built is compared",
            "Exhaustive within MacrosMC.tla's shapes, value forms and texts (every text field in every form; all combinations of optional fields, thorough; pairs, quick)."),
    "C10": ("TLC enumerates single-fault mutations of full and minimal invocations; each must be refused by the real compiler, naming the field",
            "Exhaustive over MacrosMC.tla's mutations (every field dropped, every field given every other shape, unknown fields added, every nested fault)."),
}
