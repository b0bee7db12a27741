#!/usr/bin/env python3
"""Derive the shadow manifests in ws/jf/ from /repo's manifests.

Run by hand when /repo's manifests change; the output is committed.  Git
dependencies become path dependencies, crates missing offline become the
stand-ins in ws/shims, and every library target points at the sources in /repo.
"""
import os, tomllib

WS = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CRATES = ["utilities", "crhf", "commitment", "prf", "poseidon2", "relation", "rescue",
          "merkle_tree", "pcs", "plonk", "signature", "vrf", "elgamal", "aead"]
SHIMS = {d for d in os.listdir(os.path.join(WS, "shims"))}
DROP = {"icicle-bn254", "icicle-core", "icicle-cuda-runtime", "criterion"}
root = tomllib.load(open("/repo/Cargo.toml", "rb"))
wsdeps = root["workspace"]["dependencies"]
dir_of = {}
mans = {}
for c in CRATES:
    m = tomllib.load(open(f"/repo/{c}/Cargo.toml", "rb"))
    mans[c] = m
    dir_of[m["package"]["name"]] = c


def val(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, list):
        return "[" + ", ".join(val(x) for x in v) + "]"
    if isinstance(v, dict):
        return "{ " + ", ".join(f"{k} = {val(x)}" for k, x in v.items()) + " }"
    return '"' + str(v) + '"'


def norm(name, spec):
    if isinstance(spec, str):
        spec = {"version": spec}
    spec = dict(spec)
    if spec.pop("workspace", False):
        base = wsdeps[name]
        base = {"version": base} if isinstance(base, str) else dict(base)
        feats = sorted(set(base.get("features", [])) | set(spec.pop("features", [])))
        base.update(spec)
        if feats:
            base["features"] = feats
        spec = base
    for k in ("git", "tag", "rev"):
        spec.pop(k, None)
    if name == "jf-signature":
        # in this tree the BLS12-381 scheme used by jf-vrf sits behind its own feature
        spec["features"] = sorted(set(spec.get("features", [])) | {"bls12-381"})
    if name in dir_of:
        spec["path"] = f"../{name}"
    elif name in SHIMS:
        spec.pop("version", None)
        spec["path"] = f"../../shims/{name}"
    return spec


for c, m in mans.items():
    name = m["package"]["name"]
    out = [f"# generated by ws/tools/gen_manifests.py from /repo/{c}/Cargo.toml", "[package]",
           f'name = "{name}"', f'version = "{m["package"]["version"]}"', 'edition = "2021"',
           'publish = false', "", "[lib]", f'path = "/repo/{c}/src/lib.rs"', ""]
    deps = {n: norm(n, s) for n, s in m.get("dependencies", {}).items() if n not in DROP}
    dev = {n: norm(n, s) for n, s in m.get("dev-dependencies", {}).items() if n not in DROP}
    out.append("[features]")
    for f, l in m.get("features", {}).items():
        if f in ("icicle", "kzg-print-trace"):
            continue
        if f == "std":
            l = [x for x in l if x.split("/")[0].rstrip("?") in deps
                 and x.split("/")[0] not in SHIMS
                 # `ark-<curve>/std` would pull the unavailable ark-r1cs-std into the lock file
                 and not x.startswith(("ark-b", "ark-ed"))
                 and not deps[x.split("/")[0]].get("optional")]
        out.append(f"{f} = {val(l)}")
    out.append("")
    out.append("[dependencies]")
    for n, s in sorted(deps.items()):
        out.append(f"{n} = {val(s)}")
    out.append("")
    if dev:
        out.append("[dev-dependencies]")
        for n, s in sorted(dev.items()):
            out.append(f"{n} = {val(s)}")
        out.append("")
    out.append('[lints.rust]\nunexpected_cfgs = "allow"')
    d = f"{WS}/jf/{name}"
    os.makedirs(d, exist_ok=True)
    open(f"{d}/Cargo.toml", "w").write("\n".join(out) + "\n")
