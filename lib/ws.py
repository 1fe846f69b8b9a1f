"""Lays out, in a scratch directory, a cargo workspace holding all of /repo's library crates plus the
verification drivers, so that they build offline from /repo's current working tree.

/repo's own workspace cannot be resolved here: it needs two git dependencies (vercre-did, vercre-infosec) and a
few registry crates that are not in the sandbox.  Sources are symlinks into /repo, manifests are derived from
/repo's at every run (dev-dependencies dropped), the missing crates come from harness/standins, and the
registry crates are unpacked from cargo's own download cache into a directory source."""

import glob
import json
import os
import re
import shutil
import tarfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.environ.get("VERIF_WORK", os.path.join(VERIF, ".work"))
WS = os.path.join(WORK, "ws")

#: library crates of the repository: name in the workspace -> directory in /repo
CRATES = {
    "core": "crates/core",
    "dif-exch": "crates/dif-exch",
    "macros": "crates/macros",
    "w3c-vc": "crates/w3c-vc",
    "status": "crates/status",
    "iso-mdl": "crates/iso-mdl",
    "openid": "crates/openid",
    "vercre-issuer": "vercre-issuer",
    "vercre-verifier": "vercre-verifier",
    "vercre-holder": "vercre-holder",
}
#: registry crates taken from the newer download cache, on top of everything in the older one
EXTRA = """bitvec-1.1.1 funty-2.0.0 radium-0.7.0 tap-1.0.1 wyz-0.5.1 flate2-1.1.1 crc32fast-1.5.0
miniz_oxide-0.8.9 adler2-2.0.1 ciborium-0.2.2 ciborium-io-0.2.2 ciborium-ll-0.2.2 half-2.7.1 crunchy-0.2.4
zerocopy-0.8.27 zerocopy-derive-0.8.27 urlencoding-2.1.3""".split()
STANDINS = ["tracing", "uuid", "rand", "qrcode", "image", "coset", "derive_builder"]


def read(path):
    with open(path, encoding="utf-8") as f:
        return f.read()


def write(path, text):
    if not os.path.exists(path) or read(path) != text:
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w", encoding="utf-8") as f:
            f.write(text)


def link(target, path):
    if not os.path.islink(path) or os.readlink(path) != target:
        if os.path.lexists(path):
            os.remove(path)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        os.symlink(target, path)


def drop_table(text, header):
    return re.sub(rf"(?ms)^\[{re.escape(header)}\][^\n]*\n.*?(?=^\[|\Z)", "", text)


def vendor():
    home = os.environ.get("CARGO_HOME", "/root/.cargo")
    dest = os.path.join(WORK, "vendor")
    stamp = os.path.join(dest, ".complete")
    if os.path.exists(stamp):
        return dest
    shutil.rmtree(dest, ignore_errors=True)
    os.makedirs(dest)
    old = sorted(glob.glob(f"{home}/registry/cache/*-6f17d22bba15001f/*.crate"))
    new = []
    for name in EXTRA:
        hits = sorted(glob.glob(f"{home}/registry/cache/*/{name}.crate"))
        if not hits:
            raise RuntimeError(f"{name} is not in cargo's download cache")
        new.append(hits[0])
    for path in old + new:
        name = os.path.basename(path)[: -len(".crate")]
        with tarfile.open(path) as tar:
            tar.extractall(dest, filter="data")
        import hashlib

        with open(path, "rb") as f:
            digest = hashlib.sha256(f.read()).hexdigest()
        with open(os.path.join(dest, name, ".cargo-checksum.json"), "w", encoding="utf-8") as f:
            json.dump({"files": {}, "package": digest}, f)
    open(stamp, "w").close()
    return dest


def layout(drivers, generated=()):
    """drivers: names of directories under harness/drivers to include, each with the repository crates it
    needs reached through workspace dependencies; generated: names of packages under gen, written by the caller."""
    h = os.path.join(VERIF, "harness")
    vend = vendor()
    members = [f'"crates/{c}"' for c in CRATES] + [f'"drivers/{d}"' for d in drivers] + [f'"gen/{g}"' for g in generated]
    manifest = read(f"{REPO}/Cargo.toml")
    manifest, n = re.subn(
        r"(?ms)^members\s*=\s*\[.*?\]", lambda m: f"members = [{', '.join(members)}]", manifest, count=1
    )
    assert n == 1, "no members in Cargo.toml"
    manifest = re.sub(r"(?ms)^exclude\s*=\s*\[[^\]]*\]\n(?=resolver)", "", manifest, count=1)
    for dep in ("vercre-did", "vercre-infosec"):
        manifest, n = re.subn(
            rf"(?m)^{dep}\s*=.*$", f'{dep} = {{ path = "standins/{dep}", version = "0.1.0" }}', manifest
        )
        assert n == 1, dep
    for c, d in CRATES.items():
        if not d.startswith("crates/"):
            manifest = re.sub(rf'path = "{d}"', f'path = "crates/{c}"', manifest)
    manifest = drop_table(manifest, "profile.release")
    for dep in ("assert_let_bind", "axum", "axum-extra", "ecdsa", "insta", "tower-http", "tracing-subscriber", "vercre-test-utils", "tokio"):
        manifest = re.sub(rf"(?m)^{dep}\s*=.*\n", "", manifest)
    manifest += "\n[patch.crates-io]\n" + "".join(
        f'{s} = {{ path = "standins/{s}" }}\n' for s in STANDINS
    )
    manifest += """
[profile.dev]
opt-level = 1
debug = "line-tables-only"
incremental = false
[profile.dev.package."*"]
opt-level = 2
debug = false
"""
    write(f"{WS}/Cargo.toml", manifest)
    link(f"{h}/standins", f"{WS}/standins")
    link(f"{h}/drivers", f"{WS}/drivers")
    for c, d in CRATES.items():
        text = drop_table(read(f"{REPO}/{d}/Cargo.toml"), "dev-dependencies")
        text = text.replace('path = "../crates/iso-mdl"', 'path = "../iso-mdl"')
        write(f"{WS}/crates/{c}/Cargo.toml", text)
        link(f"{REPO}/{d}/src", f"{WS}/crates/{c}/src")
        for extra in ("README.md", "build.rs"):
            if os.path.exists(f"{REPO}/{d}/{extra}"):
                link(f"{REPO}/{d}/{extra}", f"{WS}/crates/{c}/{extra}")
    write(
        f"{WS}/.cargo/config.toml",
        f'[source.crates-io]\nreplace-with = "vendored"\n[source.vendored]\ndirectory = "{vend}"\n'
        '[net]\noffline = true\n',
    )
    return WS


def env():
    e = dict(os.environ)
    e.update(
        HOME="/root",
        PATH="/root/.cargo/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin"),
        RUSTUP_TOOLCHAIN="nightly-2024-10-18",
        CARGO_NET_OFFLINE="true",
        CARGO_TERM_COLOR="never",
        CARGO_TARGET_DIR=os.path.join(WORK, "target"),
        RUSTC_WRAPPER="",
        RUSTFLAGS="-Awarnings",
        CARGO_INCREMENTAL="0",
    )
    return e


if __name__ == "__main__":
    import sys

    print(layout(sys.argv[1:]))
