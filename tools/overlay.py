#!/usr/bin/env python3
"""Builds .build/overlay/flowsdk: /repo's crate with the manifest stripped of what cannot be resolved offline.

Dropped: [workspace], dev-dependencies, examples, benches, the git dependencies and the features that need them.
Sources are a symlink to /repo/src, so what is compiled is /repo's current working tree."""
import os, sys, tomllib

def toml(v):
    if isinstance(v, bool): return "true" if v else "false"
    if isinstance(v, (int, float)): return str(v)
    if isinstance(v, str): return '"' + v.replace('\\', '\\\\').replace('"', '\\"') + '"'
    if isinstance(v, list): return "[" + ", ".join(toml(x) for x in v) + "]"
    if isinstance(v, dict): return "{ " + ", ".join(f'"{k}" = {toml(x)}' for k, x in v.items()) + " }"
    raise TypeError(v)

def main(repo, out, root=None, lib=None):
    w = tomllib.load(open(f"{root or repo}/Cargo.toml", "rb"))
    m = tomllib.load(open(f"{repo}/Cargo.toml", "rb"))
    gone = {k for k, v in m.get("dependencies", {}).items() if isinstance(v, dict) and "git" in v}
    feats = dict(m.get("features", {}))
    bad = set()
    while True:
        n = {f for f, its in feats.items() if f not in bad and any(
            i.removeprefix("dep:").split("/")[0].rstrip("?") in gone or i in bad for i in its)}
        if not n: break
        bad |= n
    feats = {f: [i for i in its if i not in bad] for f, its in feats.items() if f not in bad}
    deps = {k: v for k, v in m["dependencies"].items() if k not in gone}
    ws = w.get("workspace", {}).get("package", {})
    pkg = {}
    for k in ("name", "version", "edition"):
        v = m["package"].get(k)
        pkg[k] = ws[k] if isinstance(v, dict) else v
    pkg["build"] = False
    if m.get("build-dependencies") and os.path.exists(f"{repo}/build.rs"): pass  # build.rs only serves the grpc feature
    s = "[package]\n" + "".join(f"{k} = {toml(v)}\n" for k, v in pkg.items())
    if lib: s += "\n[lib]\n" + "".join(f"{k} = {toml(v)}\n" for k, v in lib.items())
    s += "\n[dependencies]\n" + "".join(f'"{k}" = {toml(v)}\n' for k, v in deps.items())
    s += "\n[features]\n" + "".join(f'"{k}" = {toml(v)}\n' for k, v in feats.items())
    os.makedirs(out, exist_ok=True)
    p = f"{out}/Cargo.toml"
    if not os.path.exists(p) or open(p).read() != s: open(p, "w").write(s)
    l = f"{out}/src"
    if os.path.islink(l) and os.readlink(l) != f"{repo}/src": os.unlink(l)
    if not os.path.islink(l): os.symlink(f"{repo}/src", l)

def put(p, s):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if not os.path.exists(p) or open(p).read() != s: open(p, "w").write(s)

def duality(repo, out):
    """The gRPC bridge beside the overlay of flowsdk it depends on (as "..") : its own manifest, sources, .proto files and
    build script; and agree.rs, which compiles only if prost's messages have the fields tools/proto.py says they have."""
    from proto import agree
    d, o = f"{repo}/mqtt_grpc_duality", f"{out}/mqtt_grpc_duality"
    put(f"{o}/Cargo.toml", open(f"{d}/Cargo.toml").read())
    for x in ("src", "proto", "build.rs"):
        l = f"{o}/{x}"
        if os.path.islink(l) and os.readlink(l) != f"{d}/{x}": os.unlink(l)
        if not os.path.islink(l): os.symlink(f"{d}/{x}", l)
    put(f"{out}/agree.rs", "".join(agree(f"{d}/proto/{f}.proto", m) for f, m in (("mqttv3", "mqttv3pb"), ("mqttv5", "mqttv5pb"), ("mqtt", "mqtt_unified_pb"))))

if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2])
    for x in sys.argv[3:]:
        if x == "duality": duality(sys.argv[1], sys.argv[2])
        if x == "ffi": main(sys.argv[1] + "/flowsdk_ffi", sys.argv[2] + "/flowsdk_ffi", sys.argv[1], {"crate-type": ["rlib"]})
