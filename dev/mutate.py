#!/usr/bin/env python3
"""Development aid: small mutations of /repo's sources, each built and put to the quick checks that should notice it.
Not used by any check; works on copies under /tmp/mut.
  mutate.py list CRATE [FILE-SUBSTRING]           the mutants
  mutate.py run CRATE [-j N] [-n MAX] [-f FILE]   survivors go to /tmp/mut/CRATE.survivors
"""
import hashlib
import json
import os
import pickle
import random
import re
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = "/tmp/mut"
CR = {
    "core": ("crates/core", ["C01", "C02", "C03", "C04", "C05"], "core"),
    "dif-exch": ("crates/dif-exch", ["C06", "C07", "C08"], "difexch"),
    "macros": ("crates/macros", ["C09", "C10"], "macros"),
    "w3c-vc": ("crates/w3c-vc", ["C30", "C22", "C19"], "docs"),
    "status": ("crates/status", ["C31", "C28"], "docs"),
    "iso-mdl": ("crates/iso-mdl", ["C32"], "docs"),
    "openid": ("crates/openid", ["C27", "C28", "C29", "C16", "C14", "C17", "C12"], "openid"),
    "issuer": ("vercre-issuer", ["C16", "C12", "C11", "C14", "C15", "C17", "C18", "C19", "C20", "C13", "C33"], "issuer"),
    "verifier": ("vercre-verifier", ["C21", "C22", "C23", "C34"], "verifier"),
    "holder": ("vercre-holder", ["C24", "C25", "C26", "C33", "C34"], "holder"),
}
SWAP = [(r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" && ", " || "), (r" \|\| ", " && "),
        (r" \+ ", " - "), (r" - ", " + "), (r" \+= ", " -= "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"),
        (r"\.is_empty\(\)", ".is_empty() == false"), (r"\bif !", "if "), (r"\.is_ok\(\)", ".is_err()"), (r"\.is_err\(\)", ".is_ok()"), (r"\.all\(", ".any("), (r"\.any\(", ".all("),
        (r"\bbreak\b", "continue"), (r"\bcontinue\b", "break"), (r"\.or\(", ".and("), (r"\.clone_from\(", ".clone().clone_from("), (r"\.first\(\)", ".last()"), (r"\.last\(\)", ".first()"),
        (r"\.unwrap_or\(true\)", ".unwrap_or(false)"), (r"\.unwrap_or\(false\)", ".unwrap_or(true)"), (r"\bstarts_with\(", "ends_with("), (r"\bends_with\(", "starts_with("), (r"\bcontains\(", "eq(")]


def mask(line):
    """strings and comments blanked, same length"""
    out, i, n = [], 0, len(line)
    while i < n:
        if line[i] == '"':
            j = i + 1
            while j < n and line[j] != '"':
                j += 2 if line[j] == "\\" else 1
            out.append('"' + "~" * (min(j, n - 1) - i - 1) + '"')
            i = j + 1
        elif line.startswith("//", i):
            out.append(" " * (n - i))
            break
        else:
            out.append(line[i])
            i += 1
    return "".join(out)


def mutants(text):
    lines = text.split("\n")
    end = next((i for i, l in enumerate(lines) if l.strip() == "#[cfg(test)]"), len(lines))
    depth_attr = False
    for i, line in enumerate(lines[:end]):
        s = line.strip()
        if not s or s.startswith(("//", "use ", "pub use", "mod ", "pub mod", "tracing::", "extern", "#![")):
            continue
        m = mask(line)
        if s.startswith("#["):
            if "serde(" in s:
                for k in ("rename", "skip_serializing_if", "default", "flatten", "rename_all", "deny_unknown_fields", "untagged"):
                    if re.search(rf"\b{k}\b", m):
                        new = re.sub(rf'\b{k}(\s*=\s*"[^"]*")?,?\s*', "", line, count=1)
                        new = re.sub(r",\s*\)", ")", new)
                        if re.search(r"serde\(\s*\)", new):
                            new = ""
                        yield i, i + 1, [new] if new else [], f"no {k}"
            continue
        err = re.search(r"bail!|err!|anyhow!|Error::|panic!|expect\(", s)
        for pat, rep in SWAP:
            if "fn " in s and pat in (r" < ", r" > ", r" - ", r" + ", r" \+ "):
                continue
            if re.match(r"(impl|where|pub struct|pub enum|type |T:)", s):
                continue
            for k in re.finditer(pat, m):
                if "->" in m[max(0, k.start() - 2):k.end() + 2]:
                    continue
                yield i, i + 1, [line[:k.start()] + rep + line[k.end():]], f"{k.group().strip()} -> {rep.strip()}"
        for k in re.finditer(r"(?<![\w.\"'#])(\d+)(?![\w.\"'])", m):
            yield i, i + 1, [line[:k.start()] + str(int(k.group(1)) + 1) + line[k.end():]], "number + 1"
        if not err:
            for k in re.finditer(r'"~+"', m):
                yield i, i + 1, [line[:k.end() - 1] + "x" + line[k.end() - 1:]], "text + x"
        # an if whose condition never, or always, holds
        k = re.match(r"^(\s*(?:\} else )?)if (?!let )(.*) \{$", line)
        if k:
            yield i, i + 1, [f"{k[1]}if false && ({k[2]}) {{"], "never"
            yield i, i + 1, [f"{k[1]}if true || ({k[2]}) {{"], "always"
        # a statement left out: one line, or up to the line closing it
        if s.endswith(";") and not re.match(r"(let|return|pub|const|type|static|\}|\)|\.|fn)", s) and (i == 0 or re.search(r"[;{}]\s*$", lines[i - 1]) or not lines[i - 1].strip() or lines[i - 1].strip().startswith("//")):
            yield i, i + 1, [], "statement left out"
        elif re.match(r"[\w:.*]+.*[({]$", s) and not re.match(r"(let|if|else|for|while|match|loop|fn|pub|async|impl|struct|enum|return|\})", s):
            ind = len(line) - len(line.lstrip())
            for j in range(i + 1, min(end, i + 12)):
                lj = lines[j]
                if lj.strip() and len(lj) - len(lj.lstrip()) <= ind:
                    if re.match(r"\s*[)}\]]+.*;$", lj):
                        yield i, j + 1, [], "statement left out"
                    break
        # a guard (three lines: if, error, brace) left out is "never"; a chained call left out
        if s.startswith(".") and re.match(r"\.\w+\(.*\)\??$", s) and not re.match(r"\.(await|map_err|iter|into_iter|collect|context|clone|to_string)", s):
            yield i, i + 1, [], "chained call left out"
        if re.match(r"^[\w.]+: .*,$", s) and not re.match(r".*\b(Option<|String,|Vec<|bool,|u64,|i64,)", s) and "::default()" not in s and "None," not in s:
            k = re.match(r"^(\s*[\w]+: ).*,$", line)
            if k:
                yield i, i + 1, [k[1] + "None,"], "field None"
                yield i, i + 1, [k[1] + "Default::default(),"], "field default"


def sources(crate, sub=""):
    base = CR[crate][0]
    for root, _, names in sorted(os.walk(os.path.join("/repo", base, "src"))):
        for n in sorted(names):
            p = os.path.relpath(os.path.join(root, n), "/repo")
            if n.endswith(".rs") and sub in p:
                yield p


def all_mutants(crate, sub=""):
    for p in sources(crate, sub):
        text = open(os.path.join("/repo", p)).read()
        seen = set()
        for a, b, new, what in mutants(text):
            key = (a, b, tuple(new))
            if key not in seen:
                seen.add(key)
                yield p, a, b, new, what


CACHED = r'''
import hashlib, os, pickle, sys
V = sys.argv[1]; sys.path.insert(0, V)
from lib import tools
real, cache = tools.tlc, "/tmp/mut/tlc"
stamp = hashlib.sha256(b"".join(open(os.path.join(V, "spec", f), "rb").read() for f in sorted(os.listdir(os.path.join(V, "spec"))))).hexdigest()
def tlc(*a, **k):
    key = os.path.join(cache, hashlib.sha256(repr((stamp, a, sorted(k.items()))).encode()).hexdigest())
    if os.path.exists(key):
        return pickle.load(open(key, "rb"))
    r = real(*a, **k)
    os.makedirs(cache, exist_ok=True)
    pickle.dump(r, open(key + ".%d" % os.getpid(), "wb")); os.rename(key + ".%d" % os.getpid(), key)
    return r
tools.tlc = tlc
from lib.checks import lookup
tools.known = None
for prop in sys.argv[2:]:
    rep = tools.Report(prop, "quick", "model_checking")
    try:
        lookup(prop)(rep, False)
    except tools.ToolError as e:
        print("NOVERDICT", prop, str(e)[-300:].replace("\n", " ")); break
    known = [k for k in tools.known_findings() if k["property"] == prop]
    import re, json
    new = [v for v in rep.violations if not any(re.search(k["match"], json.dumps(v, ensure_ascii=False)) for k in known)]
    if new or rep.notes.get("histories_off"):
        print("CAUGHT" if new else "OFF", prop, new[0]["what"] if new else ""); 
        if new: break
else:
    print("SURVIVED")
'''


def prepare(k):
    d = f"{ROOT}/w{k}"
    os.makedirs(d, exist_ok=True)
    subprocess.run(["rsync", "-a", "--delete", "--exclude", "target", "--exclude", ".git", "/repo/", d + "/repo/"], check=True) if shutil.which("rsync") else (
        shutil.rmtree(d + "/repo", ignore_errors=True), shutil.copytree("/repo", d + "/repo", ignore=shutil.ignore_patterns("target", ".git")))
    shutil.rmtree(d + "/verif", ignore_errors=True)
    shutil.copytree(VERIF, d + "/verif", ignore=shutil.ignore_patterns(".work", ".git", "seeded", "evidence"))
    # a mutant built here before must not pass for the unchanged sources
    for root, _, names in os.walk(d + "/repo"):
        for n in names:
            os.utime(os.path.join(root, n))
    open(d + "/cached.py", "w").write(CACHED)
    return d


def put(d, crate, prop_order):
    env = dict(os.environ, VERIF_REPO=d + "/repo", VERIF_WORK=d + "/work")
    try:
        p = subprocess.run([sys.executable, d + "/cached.py", d + "/verif", *prop_order], env=env, capture_output=True, text=True, timeout=900)
    except subprocess.TimeoutExpired:
        return "TIMEOUT"
    return (p.stdout.strip() or "CRASH " + p.stderr[-400:]).splitlines()[-1]


def main():
    cmd, crate, rest = sys.argv[1], sys.argv[2], sys.argv[3:]
    opt = dict(zip(rest[::2], rest[1::2]))
    ms = list(all_mutants(crate, opt.get("-f", "")))
    if cmd == "list":
        for p, a, b, new, what in ms:
            print(f"{p}:{a + 1}", what, "|", new[0].strip() if new else "")
        print(len(ms))
        return
    random.Random(7).shuffle(ms)
    ms = ms[: int(opt.get("-n", 10**9))]
    props = opt["-p"].split(",") if "-p" in opt else CR[crate][1]
    out = open(f"{ROOT}/{crate}.survivors", "a")
    done_path = f"{ROOT}/{crate}.done"
    done = set(open(done_path).read().split("\n")) if os.path.exists(done_path) else set()
    import queue
    free = queue.Queue()
    base = int(opt.get("-b", 0))
    for k in range(int(opt.get("-j", 3))):
        d = prepare(base + k)
        first = put(d, crate, props)
        print("clean", first, flush=True)
        assert first == "SURVIVED", first
        free.put(d)
    stat = {}

    def one(m):
        p, a, b, new, what = m
        key = hashlib.sha256(repr(m).encode()).hexdigest()
        if key in done:
            return
        d = free.get()
        path = os.path.join(d, "repo", p)
        src = open(path).read()
        try:
            lines = src.split("\n")
            open(path, "w").write("\n".join(lines[:a] + new + lines[b:]))
            verdict = put(d, crate, props)
        finally:
            open(path, "w").write(src)
            free.put(d)
        v = verdict.split()[0]
        if v == "NOVERDICT" and "building" not in verdict and "rror" not in verdict:
            v = "UNDECIDED"
        stat[v] = stat.get(v, 0) + 1
        open(done_path, "a").write(key + "\n")
        if v in ("SURVIVED", "OFF", "TIMEOUT", "CRASH", "UNDECIDED"):
            out.write(f"{p}:{a + 1} [{what}] {v} | {lines[a].strip()}  =>  {(new[0].strip() if new else '(gone)')} {verdict if v != 'SURVIVED' else ''}\n")
            out.flush()

    t = time.time()
    with ThreadPoolExecutor(free.qsize()) as pool:
        for i, _ in enumerate(pool.map(one, ms)):
            if i % 20 == 0:
                print(i, len(ms), stat, round(time.time() - t), flush=True)
    print("end", stat, flush=True)


if __name__ == "__main__":
    main()
