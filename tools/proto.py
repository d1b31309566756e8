#!/usr/bin/env python3
"""proto.py FILE MODULE [verus]: the Rust types prost generates for a proto3 file (messages, oneofs, enums; no services).

prost's mapping: uint32 u32, uint64 u64, bool, string String, bytes Vec<u8>, an enum i32, a message Option<T>, repeated Vec<T>,
a oneof an Option of an enum in a module named after the message.  Packages map to modules as in mqtt_grpc_duality/build.rs."""
import re, sys

def camel(s):
    return "".join(w[:1].upper() + (w[1:].lower() if w.isupper() else w[1:]) for w in s.split("_"))
def snake(s):
    return re.sub(r"(?<=[a-z0-9])(?=[A-Z])", "_", s).lower()
SC = {"uint32": "u32", "uint64": "u64", "int32": "i32", "int64": "i64", "bool": "bool", "string": "String", "bytes": "Vec<u8>", "double": "f64", "float": "f32"}
KW = {"type", "match", "use", "mod", "ref", "move", "self", "super", "crate", "in", "fn"}

def parse(text):
    text = re.sub(r"//[^\n]*", "", text)
    tok = re.findall(r'"[^"]*"|[\w.]+|[{}=;<>,()\[\]]', text)
    i = 0
    def body():
        nonlocal i
        items = []
        while tok[i] != "}":
            if tok[i] in ("message", "enum", "oneof"):
                k, n = tok[i], tok[i + 1]
                assert tok[i + 2] == "{"
                i += 3
                b = values() if k == "enum" else body()
                assert tok[i] == "}"
                i += 1
                items.append((k, n, b))
            elif tok[i] in ("reserved", "option", ";"):
                while tok[i] != ";": i += 1
                i += 1
            else:
                rep = opt = False
                if tok[i] == "repeated": rep = True; i += 1
                elif tok[i] == "optional": opt = True; i += 1
                t, n = tok[i], tok[i + 1]
                assert tok[i + 2] == "=", tok[i:i + 5]
                while tok[i] != ";": i += 1
                i += 1
                items.append(("field", n, (t, rep, opt)))
        return items
    def values():
        nonlocal i
        v = []
        while tok[i] != "}":
            if tok[i] == "option":
                while tok[i] != ";": i += 1
                i += 1
                continue
            v.append((tok[i], int(tok[i + 2])))
            i += 4
        return v
    pkg, top = "", []
    while i < len(tok):
        if tok[i] == "package": pkg = tok[i + 1]; i += 3
        elif tok[i] in ("syntax", "import", "option"):
            while tok[i] != ";": i += 1
            i += 1
        elif tok[i] == "service":
            d = 0
            while True:
                if tok[i] == "{": d += 1
                if tok[i] == "}":
                    d -= 1
                    if d == 0: break
                i += 1
            i += 1
        else:
            k, n = tok[i], tok[i + 1]
            assert k in ("message", "enum"), tok[i]
            i += 3
            b = values() if k == "enum" else body()
            i += 1
            top.append((k, n, b))
    return pkg, top

def main(path, module, verus):
    pkg, top = parse(open(path).read())
    enums = set()
    def collect(items, pre):
        for k, n, b in items:
            if k == "enum": enums.add(n)
            elif k == "message": collect(b, pre + [n])
    collect(top, [])
    D = "#[derive(Clone)]\n" if verus else "#[derive(Clone, Debug, PartialEq, Default)]\n"
    DE = "#[derive(Clone)]\n" if verus else "#[derive(Clone, Debug, PartialEq)]\n"
    def ty(t, rep, opt, depth, msg, msgs):
        if t in SC: r, m = SC[t], False
        elif t in enums: r, m = "i32", False
        else:
            m = True
            if "." in t:
                p, n = t.rsplit(".", 1)
                r = "crate::%spb::%s" % (p, camel(n))
            elif t in msgs: r = snake(msg) + "::" + camel(t) if depth == 0 else "super::" * (depth - 1) + camel(t)
            else: r = "super::" * depth + camel(t)
        return "Vec<%s>" % r if rep else "Option<%s>" % r if (m or opt) else r
    out = []
    def message(n, items, ind):
        sub = [x for x in items if x[0] != "field"]
        msgs = {x[1] for x in items if x[0] == "message"}
        o = D + "pub struct %s {\n" % camel(n)
        for k, f, b in items:
            if k == "field": o += "    pub %s: %s,\n" % ("r#" + f if f in KW else f, ty(*b, 0, n, msgs))
            elif k == "oneof": o += "    pub %s: Option<%s::%s>,\n" % (f, snake(n), camel(f))
        o += "}\n"
        if sub:
            o += "pub mod %s {\n" % snake(n)
            for k, f, b in sub:
                if k == "oneof":
                    o += DE + "pub enum %s {\n" % camel(f)
                    for _, g, (t, _, _) in b:
                        r = ty(t, False, False, 1, n, msgs)
                        o += "    %s(%s),\n" % (camel(g), r[7:-1] if r.startswith("Option<") else r)
                    o += "}\n"
                elif k == "enum": o += enum(f, b)
                else: o += message(f, b, ind + 1)
            o += "}\n"
        return o
    def enum(n, v):
        return "#[derive(Clone, Copy%s)]\n#[repr(i32)]\npub enum %s { %s }\n" % ("" if verus else ", Debug, PartialEq", camel(n), ", ".join("%s = %d" % (camel(a), b) for a, b in v))
    s = "pub mod %s {\n" % module
    for k, n, b in top: s += message(n, b, 0) if k == "message" else enum(n, b)
    return s + "}\n"

def agree(path, module):
    """Rust that compiles only if the crate's messages are what main() says: every field and its type, every variant"""
    import re
    s, out, n, stack = main(path, module, True), "", 0, []
    lines = s.split("\n")
    def q(t):  # a type as seen from outside the crate
        pre = list(stack)
        def one(m):
            w = m.group(0)
            if w.startswith("crate::"): return "mqtt_grpc_proxy::" + w[7:]
            up = pre[:]
            while w.startswith("super::"): w = w[7:]; up = up[:-1]
            if w.split("::")[0] in ("String", "Vec", "Option", "u8", "u16", "u32", "u64", "i32", "i64", "bool", "f32", "f64"): return w
            return "::".join(["mqtt_grpc_proxy"] + up + [w])
        return re.sub(r"[A-Za-z_][A-Za-z_0-9]*(::[A-Za-z_][A-Za-z_0-9]*)*", one, t)
    i = 0
    while i < len(lines):
        l = lines[i].strip()
        m = re.match(r"pub mod (\w+) \{$", l)
        if m: stack.append(m.group(1)); i += 1; continue
        m = re.match(r"pub struct (\w+) \{$", l)
        if m:
            fs = []
            i += 1
            while lines[i].strip() != "}":
                a, b = re.match(r"pub (\S+): (.*),$", lines[i].strip()).groups()
                fs.append((a, b)); i += 1
            n += 1
            out += "#[allow(dead_code)]\nfn agree_%s_%d(x: %s) { let %s { %s } = x; %s }\n" % (module, n, q(m.group(1)), q(m.group(1)), ", ".join(a for a, _ in fs), " ".join("let _: %s = %s;" % (q(b), a) for a, b in fs))
            i += 1; continue
        m = re.match(r"pub enum (\w+) \{$", l)
        if m:
            vs = []
            i += 1
            while lines[i].strip() != "}":
                vs.append(re.match(r"(\w+)\((.*)\),$", lines[i].strip()).groups()); i += 1
            n += 1
            out += "#[allow(dead_code)]\nfn agree_%s_%d(x: %s) { match x { %s } }\n" % (module, n, q(m.group(1)), ", ".join("%s::%s(v) => { let _: %s = v; }" % (q(m.group(1)), a, q(b)) for a, b in vs))
            i += 1; continue
        m = re.match(r"pub enum (\w+) \{ (.*) \}$", l)
        if m:
            n += 1
            vs = [v.split(" = ") for v in m.group(2).split(", ")]
            out += "#[allow(dead_code)]\nfn agree_%s_%d(x: %s) { match x { %s } }\n" % (module, n, q(m.group(1)), ", ".join("%s::%s => {}" % (q(m.group(1)), a) for a, _ in vs))
            out += "".join("const _: () = assert!(%s::%s as i32 == %s);\n" % (q(m.group(1)), a, b) for a, b in vs)
        m = re.match(r"pub struct (\w+) \{\s*\}$", l)
        if l == "}": stack.pop() if stack else None
        i += 1
    return out

if __name__ == "__main__":
    print(main(sys.argv[1], sys.argv[2], len(sys.argv) > 3 and sys.argv[3] == "verus"), end="")
