#!/usr/bin/env python3
"""Lay out /verif/ws: a cargo workspace that holds copies of /repo's crates (real, unmodified source)
and the simulator crates of /verif, with the dependencies that cannot be fetched offline (reth, the
tn-contracts submodule) replaced by the stand-ins in /verif/stubs.

Files are copied only when their content differs, so cargo rebuilds exactly what changed, whatever the
mtimes in /repo are. Nothing in /repo is written."""
import os, re, shutil, sys

REPO = os.environ.get("SIM_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WS = os.environ.get("SIM_WS", f"{VERIF}/ws")
wanted = set()

REAL = {  # path in /repo -> dependencies cut
    "crates/tn-utils": (),
    "crates/types": (),
    "crates/config": (),
    "crates/network-types": (),
    "crates/storage": (),
    "crates/network-libp2p": (),
    "crates/consensus/primary": (),
    "crates/consensus/worker": (),
    "crates/consensus/executor": (),
    "crates/state-sync": (),
    "crates/tn-metrics": (),
    "crates/engine": (),
    "crates/batch-builder": (),
    "crates/batch-validator": (),
    "crates/node": (),
}
# these run against the stand-in for tn-reth; the others do not need it
USES_RETH = {"crates/engine", "crates/node", "crates/batch-builder", "crates/batch-validator"}
# real files of crates that cannot be built whole, compiled inside a stand-in crate
BORROWED = {
    "crates/tn-reth/src/payload.rs": "stubs/tn-reth/src/payload.rs",
    "crates/tn-reth/src/system_calls.rs": "stubs/tn-reth/src/system_calls.rs",
}
STUBS = ["reth-primitives", "reth-chainspec", "reth-tasks", "reth-metrics", "reth-rpc-eth-api", "tn-reth", "tn-rpc",
         "tn-exex", "jsonrpsee", "rayon", "blst"]


def put(path, data):
    wanted.add(path)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.islink(path):
        os.remove(path)
    if os.path.isfile(path):
        with open(path, "rb") as f:
            if f.read() == data:
                return
    with open(path, "wb") as f:
        f.write(data)


def copy_tree(src, dst, skip=()):
    for d, subdirs, files in os.walk(src):
        subdirs[:] = sorted(s for s in subdirs if s not in ("target", ".git"))
        for f in sorted(files):
            p = os.path.join(d, f)
            rel = os.path.relpath(p, src)
            if rel in skip:
                continue
            if os.path.isfile(p):
                with open(p, "rb") as fh:
                    put(os.path.join(dst, rel), fh.read())


def manifest(rel, cut):
    text = open(f"{REPO}/{rel}/Cargo.toml").read()
    text = re.sub(r"(?ms)^(\S+ = \{[^{}]*\n[^{}]*?\})", lambda m: re.sub(r"\s*\n\s*", " ", m.group(0)), text)
    out, table, skip = [], "", False
    for line in text.splitlines():
        if line.startswith("["):
            table = line.strip()
            # test-only parts of the manifests are not built here
            skip = table in ("[dev-dependencies]", "[[test]]", "[[bench]]", "[[bin]]")
        if skip:
            continue
        m = re.match(r"([\w-]+)(\.workspace)?\s*=", line)
        name = m.group(1) if m else None
        if table == "[dependencies]" and name:
            if name in cut or name == "reth-libmdbx" or (name == "tn-reth" and rel not in USES_RETH):
                continue
        if table == "[features]" and rel not in USES_RETH:
            line = line.replace('"tn-reth", ', "").replace('"tn-reth"', "")
            line = re.sub(r'"dep:reth-libmdbx",?\s*', "", line)
            if line.startswith("default = [\"reth-libmdbx\"]"):
                line = "default = []"
        out.append(line)
    put(f"{WS}/{rel}/Cargo.toml", ("\n".join(out) + "\n").encode())


def main():
    members = []
    for c, cut in REAL.items():
        members.append(c)
        copy_tree(f"{REPO}/{c}/src", f"{WS}/{c}/src")
        if os.path.isfile(f"{REPO}/{c}/build.rs"):
            put(f"{WS}/{c}/build.rs", open(f"{REPO}/{c}/build.rs", "rb").read())
        manifest(c, set(cut))
    for src, dst in BORROWED.items():
        put(f"{WS}/{dst}", open(f"{REPO}/{src}", "rb").read())
    # the gateway's modules, without its command line, compiled inside the simulator of the gateway
    mods, gw = [], f"{REPO}/bin/worker-gateway/src"
    for f in sorted(os.listdir(gw)):
        if f.endswith(".rs") and f not in ("main.rs", "lib.rs", "cli.rs", "app.rs"):
            put(f"{WS}/sim/simgw/src/gw/{f}", open(f"{gw}/{f}", "rb").read())
            mods.append(f'#[allow(dead_code)]\n#[path = "gw/{f}"]\nmod {f[:-3]};\n')
    put(f"{WS}/sim/simgw/src/mods.rs", "".join(mods).encode())
    copy_tree(f"{REPO}/chain-configs", f"{WS}/chain-configs")
    for s in sorted(os.listdir(f"{VERIF}/stubs")):
        if s == "tn-contracts":
            copy_tree(f"{VERIF}/stubs/{s}", f"{WS}/tn-contracts")
        else:
            members.append(f"stubs/{s}")
            copy_tree(f"{VERIF}/stubs/{s}", f"{WS}/stubs/{s}")
    for s in sorted(os.listdir(f"{VERIF}/sim")) if os.path.isdir(f"{VERIF}/sim") else []:
        members.append(f"sim/{s}")
        copy_tree(f"{VERIF}/sim/{s}", f"{WS}/sim/{s}")

    ws = open(f"{REPO}/Cargo.toml").read()
    ws = re.sub(r"(?s)\bmembers = \[.*?\]\n", "members = [\n" + "".join(f'    "{m}",\n' for m in members) + "]\n", ws, count=1)
    ws = ws.replace('features = ["full"]', 'features = ["full", "rand"]')
    for s in STUBS:
        ws = re.sub(rf"(?m)^{s} = .*$", f'{s} = {{ path = "stubs/{s}" }}', ws)
    ws = re.sub(r"(?ms)^tn-storage = .*?$", 'tn-storage = { path = "crates/storage", default-features = false, features = ["redb"] }', ws)
    ws = re.sub(r"(?ms)^\[patch\..*?(?=^\[|\Z)", "", ws)
    ws = re.sub(r"(?ms)^\[profile\..*?(?=^\[|\Z)", "", ws)
    if os.path.isdir(f"{VERIF}/vendor"):
        ws += "\n[patch.crates-io]\n"
    extra = open(f"{VERIF}/tools/ws-extra.toml").read() if os.path.isfile(f"{VERIF}/tools/ws-extra.toml") else ""
    put(f"{WS}/Cargo.toml", (ws + "\n" + extra).encode())
    if os.path.isfile(f"{VERIF}/tools/Cargo.lock"):
        lock = open(f"{VERIF}/tools/Cargo.lock", "rb").read()
    else:
        lock = open(f"{REPO}/Cargo.lock", "rb").read()
    wanted.add(f"{WS}/Cargo.lock")
    mark = f"{WS}/.lock-base"
    if not os.path.isfile(f"{WS}/Cargo.lock") or not os.path.isfile(mark) or open(mark, "rb").read() != lock:
        open(f"{WS}/Cargo.lock", "wb").write(lock)
    put(mark, lock)

    for top in ("crates", "stubs", "sim", "tn-contracts", "chain-configs"):
        for d, subdirs, files in os.walk(f"{WS}/{top}"):
            for f in files:
                if f"{d}/{f}" not in wanted:
                    os.remove(f"{d}/{f}")


sys.exit(main())
