"""Builds noise-protoc from /repo and drives it with generated .proto files (C23)."""
import os, random, re, shutil, subprocess, tempfile
import vlib

KW = ["int32", "uint32", "int64", "uint64", "sint32", "sint64", "fixed32", "sfixed32", "fixed64", "sfixed64",
      "float", "double", "bool", "string", "bytes"]
CTYPE = {"int32": "int32_t", "uint32": "uint32_t", "int64": "int64_t", "uint64": "uint64_t", "sint32": "int32_t",
         "sint64": "int64_t", "fixed32": "uint32_t", "sfixed32": "int32_t", "fixed64": "uint64_t",
         "sfixed64": "int64_t", "float": "float", "double": "double", "bool": "int"}


def build_protoc():
    src = os.path.join(vlib.REPO, "tools/protoc")
    key = vlib.tree_hash([src])
    d = os.path.join(vlib.BUILD, "protoc-" + key)
    exe = os.path.join(d, "noise-protoc")
    with vlib.lock("protoc"):
        if os.path.exists(exe):
            return exe
        vlib.prune(os.path.join(vlib.BUILD, "protoc-*"), d)
        os.makedirs(d, exist_ok=True)
        vlib.run(["bison", "-d", "-o", "proto3-grammar.c", os.path.join(src, "proto3-grammar.y")], cwd=d)
        vlib.run(["flex", "-o", "lexer.c", os.path.join(src, "proto3-lexer.l")], cwd=d)
        cs = sorted(os.path.join(src, f) for f in os.listdir(src) if f.endswith(".c") and not f.startswith("proto3-grammar")
                    and not f.startswith("proto3-lexer"))
        vlib.run(["clang", "-g", "-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
                  "-fno-sanitize=function", "-w", "-I" + d, "-I" + src, "proto3-grammar.c", "lexer.c"] + cs +
                 ["-o", exe + ".tmp"], cwd=d)
        os.rename(exe + ".tmp", exe)
    return exe


class Field:
    def __init__(s, name, kind, tag, qual, packed=None, sub=None):
        s.name, s.kind, s.tag, s.qual, s.packed, s.sub = name, kind, tag, qual, packed, sub

    def isnum(s):
        return s.kind in CTYPE or s.kind == "enum"


class Message:
    def __init__(s, cname):
        s.cname, s.fields = cname, []


NAMES = ["id", "name", "value", "x", "y_2", "data", "Key", "flag_a", "very_long_field_name_with_many_parts", "n0",
         "type", "items", "repeatedThing", "optional_x", "message1", "T", "u8", "z9_z9"]


def gen_tags(rnd, n):
    tags = set()
    while len(tags) < n:
        t = rnd.choice([rnd.randint(1, 20), rnd.choice([15, 16, 17, 127, 128, 2047, 2048, 18999, 20000, 262143, 262144,
                                                         33554431, 33554432, 536870911, 536870910, 1]),
                        rnd.randint(1, 536870911)])
        if not 19000 <= t <= 19999:
            tags.add(t)
    return list(tags)


def gen_proto(rnd):
    """Returns (.proto text, [Message], {enum macro: value})."""
    out, msgs, macros = [], [], {}

    def ws():
        return rnd.choice([" ", " ", "  ", "\n    ", "\t", " // a comment { \" ;\n "])
    if rnd.random() < .9:
        out.append("syntax%s=%s\"proto3\";\n" % (ws(), ws()))
    pkg = rnd.choice(["", "", "Pk", "Noise.Sub"])
    decls = []
    # plan of the types: (scope path, name)
    enums, plan = [], []

    def newname(kind, used):
        while True:
            n = rnd.choice([kind, "My" + kind, kind + "_a", "T", kind[0]]) + str(rnd.randint(0, 99))
            if n not in used:
                used.add(n)
                return n

    def plan_msg(depth, used):
        m = {"name": newname("Msg", used), "msgs": [], "enums": []}
        inner = set()
        if depth < 2 and rnd.random() < .4:
            for _ in range(rnd.randint(1, 2)):
                m["msgs"].append(plan_msg(depth + 1, inner))
        if rnd.random() < .3:
            m["enums"].append(newname("Enum", inner))
        return m
    used = set()
    top = [plan_msg(0, used) for _ in range(rnd.randint(1, 4))]
    tenums = [newname("Enum", used) for _ in range(rnd.randint(0, 2))]
    pre = pkg + "." if pkg else ""
    allm, alle = [], []

    def walk(m, path):
        m["full"] = path + m["name"]
        allm.append(m)
        for e in m["enums"]:
            alle.append(m["full"] + "." + e)
        for s in m["msgs"]:
            walk(s, m["full"] + ".")
    for m in top:
        walk(m, pre)
    for e in tenums:
        alle.append(pre + e)
    types = {m["full"]: "msg" for m in allm}
    types.update({e: "enum" for e in alle})

    def resolve(scope, ref):
        s = scope
        while True:
            t = (s + "." + ref) if s else ref
            if t in types:
                return t
            if not s:
                return None
            s = s.rsplit(".", 1)[0] if "." in s else ""

    def refer(scope, target):
        """Some way of writing TARGET inside SCOPE that resolves to it."""
        parts = target.split(".")
        forms = [".".join(parts[i:]) for i in range(len(parts))]
        rnd.shuffle(forms)
        for f in forms:
            if resolve(scope, f) == target:
                return f
        return None

    def enum_text(full, ind):
        lines = []
        vals = rnd.sample(["ZERO", "ONE", "Two", "three_3", "X"], rnd.randint(1, 4))
        v = 0
        for n in vals:
            lines.append("%s    %s = %d;\n" % (ind, n, v))
            macros[full.replace(".", "_") + "_" + n] = v
            v = rnd.choice([v + 1, v, rnd.randint(0, 2147483647)])
        return "%senum %s {\n%s%s}\n" % (ind, full.split(".")[-1], "".join(lines), ind)

    def msg_text(m, ind):
        cm = Message(m["full"].replace(".", "_"))
        msgs.append(cm)
        items = []
        nf = rnd.choice([1, 2, 3, 5, 8, 14])
        names = rnd.sample(NAMES, min(nf, len(NAMES)))
        for name, tag in zip(names, gen_tags(rnd, len(names))):
            k = rnd.choice(KW + ["msg", "msg", "enum"])
            sub, tname = None, k
            if k == "msg":
                tgt = rnd.choice(allm)["full"]
                tname = refer(m["full"], tgt)
                sub = tgt.replace(".", "_")
                if not tname:
                    k = tname = "int32"
            if k == "enum":
                tname = refer(m["full"], rnd.choice(alle)) if alle else None
                if not tname:
                    k, tname = "bool", "bool"
            q = rnd.choice(["", "", "optional", "required", "repeated", "repeated"])
            if k == "msg" and q == "required":
                q = "optional"     # required messages may be recursive for ever
            opt, packed = "", None
            num = k in CTYPE or k == "enum"
            if q == "repeated" and num:
                packed = rnd.choice([None, True, False])
                if k == "enum" and packed:
                    packed = None
                if packed is not None:
                    opt = "%s[packed%s=%s%s]" % (ws(), ws(), ws(), "true" if packed else "false")
            elif rnd.random() < .1:
                opt = " [%s=%s]" % (rnd.choice(["deprecated", "default"]), rnd.choice(["true", "7", '"x"', "WORD"]))
            qq = {"": "OPT", "optional": "OPT", "required": "REQ"}.get(q) or \
                ("PACKED" if num and packed is not False else "REP")
            cm.fields.append(Field(name, k, tag, qq, packed, sub))
            items.append("%s    %s%s%s%s%s%s=%s%d%s;\n" % (ind, q, ws() if q else "", tname, ws(), name, ws(), ws(), tag, opt))
        if rnd.random() < .3:
            items.append("%s    reserved %s;\n" % (ind, rnd.choice(['3', '4, 9 to 11', '"foo"', '"foo", "bar"'])))
        if rnd.random() < .2:
            items.append("%s    option some_opt = %s;\n" % (ind, rnd.choice(["true", "12", '"str"', "IDENT"])))
        for s in m["msgs"]:
            items.append(msg_text(s, ind + "    "))
        for e in m["enums"]:
            items.append(enum_text(m["full"] + "." + e, ind + "    "))
        rnd.shuffle(items)
        return "%smessage %s%s{\n%s%s}\n" % (ind, m["name"], ws(), "".join(items), ind)
    if pkg:
        out.append("package %s;\n" % pkg)
    for m in top:
        decls.append(msg_text(m, ""))
    for e in tenums:
        decls.append(enum_text(pre + e, ""))
    if rnd.random() < .3:
        decls.append("option java_package = \"a.b.c\";\n")
    rnd.shuffle(decls)
    if rnd.random() < .2:
        decls.append("// last line" + rnd.choice(["", "\n"]))
    return "".join(out + decls), msgs, macros


def harness_cpp(header, msgs, macros):
    L = ['#include "pbobj.hpp"', '#include "%s"' % header]
    for n, v in macros.items():
        L.append("static_assert(%s == %d, \"enum constant\");" % (n, v))
    L += ["PB_DECL(%s)" % m.cname for m in msgs]
    L.append("int main(int argc, char **argv) { static std::vector<const pb::MsgD *> all;")
    L += ["PB_BEGIN(%s)" % m.cname for m in msgs]
    for m in msgs:
        for f in sorted(m.fields, key=lambda f: f.tag):
            kind = "pb::INT32" if f.kind == "enum" else "pb::" + f.kind.upper()
            rep = f.qual in ("REP", "PACKED")
            if f.kind == "msg":
                L.append("PB_MSG%s(%s, %s, %s, %d, pb::%s)" % ("S" if rep else "", m.cname, f.sub, f.name, f.tag, f.qual))
            elif f.kind in ("string", "bytes"):
                L.append("PB_STR%s(%s, %s, %s, %d, %s, pb::%s)" % ("S" if rep else "", m.cname, "char" if f.kind == "string" else "void",
                                                                  f.name, f.tag, kind, f.qual))
            else:
                L.append("PB_NUM%s(%s, %s, %s, %d, %s, pb::%s)" % ("S" if rep else "", m.cname,
                                                                  CTYPE.get(f.kind, "int32_t"), f.name, f.tag, kind, f.qual))
    L.append("return vh::run(argc, argv, [](uint64_t i, vh::Rng &r) { pb::session(i, r, all); }); }")
    return "\n".join(L) + "\n"


def testproto():
    """The repository's own test.proto, described by hand."""
    msgs = []
    names = ["int32", "uint32", "int64", "uint64", "sint32", "sint64", "fixed32", "sfixed32", "fixed64", "sfixed64",
             "float", "double", "bool", "string", "bytes"]
    for n, q in (("BasicFields", "OPT"), ("RepeatedFields", "PACKED"), ("RepeatedFieldsUnpacked", "REP"), ("RequiredFields", "REQ")):
        m = Message(n)
        for i, k in enumerate(names):
            m.fields.append(Field("f_" + k, k, i + 1, "REP" if q == "PACKED" and k in ("string", "bytes") else q))
        m.fields.append(Field("f_object", "msg", 16, "REP" if q == "PACKED" else q, None, "Object"))
        msgs.append(m)
    o = Message("Object")
    o.fields.append(Field("x", "int32", 1, "OPT"))
    msgs.append(o)
    return open(os.path.join(vlib.REPO, "tools/protoc/test.proto")).read(), msgs, \
        {"Enum_Default": 0, "Enum_Enum1": 1, "Enum_Enum2": 2}


def run_protoc(exe, text, d, name="t", license=None, timeout=20):
    """Returns (rc, stderr, c text or None, h text or None); rc None on timeout."""
    p, c, h = (os.path.join(d, name + e) for e in (".proto", ".c", ".h"))
    with open(p, "wb") as fh:
        fh.write(text if isinstance(text, bytes) else text.encode())
    for f in (c, h):
        if os.path.exists(f):
            os.unlink(f)
    cmd = [exe, "-c", c, "-h", h] + (["-l", license] if license else []) + [p]
    env = dict(os.environ)
    env.update(vlib.SAN_ENV)
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env,
                           stdin=subprocess.DEVNULL)
        rc, err = r.returncode, r.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired:
        rc, err = None, "timeout"

    def rd(f):
        return open(f, errors="replace").read() if os.path.exists(f) else None
    return rc, err, rd(c), rd(h)


GOOD = "message Base { int32 a = 1; }\n"
BAD = [
    ("duplicate tag", "message M { int32 a = 1; string b = 1; }"),
    ("duplicate tag later", "message M { int32 a = 7; string b = 1; bytes c = 5; bool d = 7; }"),
    ("duplicate field", "message M { int32 a = 1; string b = 2; int64 a = 3; }"),
    ("duplicate message", "message M { int32 a = 1; } message M { int32 b = 1; }"),
    ("message named as an enum", "enum M { A = 0; } message M { int32 b = 1; }"),
    ("enum named as a message", "message M { int32 b = 1; } enum M { A = 0; }"),
    ("duplicate nested", "message M { int32 a = 1; message N { int32 x = 1; } message N { int32 y = 1; } }"),
    ("duplicate enum", "enum E { A = 0; } enum E { B = 0; }"),
    ("duplicate enum value", "enum E { A = 0; B = 1; A = 2; }"),
    ("tag 0", "message M { int32 a = 0; }"),
    ("tag 19000", "message M { int32 a = 19000; }"),
    ("tag 19999", "message M { int32 a = 19999; }"),
    ("tag 19500", "message M { int32 a = 19500; }"),
    ("tag 2^29", "message M { int32 a = 536870912; }"),
    ("tag 2^32+1", "message M { int32 a = 4294967297; }"),
    ("tag 2^64+1", "message M { int32 a = 18446744073709551617; }"),
    ("tag negative", "message M { int32 a = -1; }"),
    ("reserved tag 0", "message M { int32 a = 1; reserved 0; }"),
    ("map", "message M { map<string, int32> a = 1; }"),
    ("empty message", "message M { }"),
    ("empty enum", "enum E { }"),
    ("reserved only", "message M { reserved 4; }"),
    ("packed string", "message M { repeated string a = 1 [packed=true]; }"),
    ("packed bytes", "message M { repeated bytes a = 1 [packed=true]; }"),
    ("packed message", "message M { repeated M a = 1 [packed=true]; }"),
    ("packed number", "message M { repeated int32 a = 1 [packed=1]; }"),
    ("proto2", None),
    ("no name", "message { int32 a = 1; }"),
    ("no tag", "message M { int32 a; }"),
    ("no semicolon", "message M { int32 a = 1 }"),
    ("unterminated", "message M { int32 a = 1; "),
    ("field outside", "int32 a = 1;"),
    ("stray brace", "message M { int32 a = 1; } }"),
    ("oneof", "message M { oneof x { int32 a = 1; } }"),
    ("service", "service S { }"),
    ("two packages", "package a; package b;"),
    ("keyword as name", "message M { int32 message = 1; }"),
    ("hex tag", "message M { int32 a = 0x10; }"),
    ("bad character", "message M { int32 a = 1; @ }"),
    ("unterminated string", "option a = \"x;\n"),
    ("two types", "message M { int32 string a = 1; }"),
    ("reserved to", "message M { int32 a = 1; reserved 4 to ; }"),
    ("option without value", "option a = ;"),
    ("enum string", "enum E { A = \"x\"; }"),
    ("enum negative", "enum E { A = -1; }"),
]


def gen_bad(rnd):
    """A file with many declarations in which one, anywhere, repeats another or is out of range."""
    n = rnd.randint(2, 9)
    tags, names = gen_tags(rnd, n), rnd.sample(NAMES, n)
    fields = [[rnd.choice(KW), nm, t] for nm, t in zip(names, tags)]
    enums = ["EN%d" % i for i in range(rnd.randint(2, 6))]
    vals = ["V%d" % i for i in range(rnd.randint(2, 8))]
    others = ["MS%d" % i for i in range(rnd.randint(2, 6))]
    what = rnd.choice(["repeated tag", "repeated field", "tag out of range", "repeated enum value", "repeated message", "repeated enum",
                       "message and enum", "repeated nested"])
    i, j = rnd.sample(range(n), 2)
    if what == "repeated tag":
        fields[j][2] = fields[i][2]
    elif what == "repeated field":
        fields[j][1] = fields[i][1]
    elif what == "tag out of range":
        fields[i][2] = rnd.choice([0, rnd.randint(19000, 19999), 536870912, rnd.randint(536870912, 2 ** 64 - 1), 2 ** 32 + rnd.randint(1, 99)])
    elif what == "repeated enum value":
        vals.insert(rnd.randint(0, len(vals)), rnd.choice(vals))
    elif what == "repeated message":
        others.insert(rnd.randint(0, len(others)), rnd.choice(others))
    elif what == "repeated enum":
        enums.insert(rnd.randint(0, len(enums)), rnd.choice(enums))
    elif what == "message and enum":
        rnd.choice([enums, others]).append(rnd.choice(others if rnd.random() < .5 else enums))
        if len(set(enums + others)) == len(enums + others):
            others.append(enums[0])
    nested = ["NE%d" % k for k in range(rnd.randint(2, 4))]
    if what == "repeated nested":
        nested.insert(rnd.randint(0, len(nested)), rnd.choice(nested))

    def enum(e, vs):
        return "enum %s { %s }\n" % (e, " ".join("%s = %d;" % (v, k) for k, v in enumerate(vs)))
    body = ["  %s %s = %d;\n" % tuple(f) for f in fields] + ["  message %s { int32 q = 1; }\n" % x for x in nested]
    rnd.shuffle(body)
    decls = ["message Main {\n%s}\n" % "".join(body), enum("Values", vals)] + [enum(e, ["X"]) for e in enums] + \
        ["message %s { bool z = 1; }\n" % o for o in others]
    rnd.shuffle(decls)
    return what, "syntax=\"proto3\";\n" + "".join(decls)


def mutate(rnd, text):
    b = bytearray(text.encode())
    words = [b"message", b"{", b"}", b";", b"=", b"1", b"repeated", b"[packed=true]", b"map<", b">", b"\"", b"//", b"//\n", b"\n", b"enum",
             b"option", b"reserved", b"to", b"99999999999999999999999", b"A.B.C", b"syntax", b"package", b"import", b"\0", b"\xff",
             b"A" * 5000, b".", b"(", b"[", b"]", b"19000", b"0", b"-"]
    for _ in range(rnd.randint(1, 4)):
        k = rnd.randint(0, 4)
        i = rnd.randint(0, len(b)) if b else 0
        if k == 0:
            b[i:i] = rnd.choice(words)
        elif k == 1:
            del b[i:i + rnd.randint(1, 30)]
        elif k == 2 and b:
            b[i % len(b)] ^= 1 << rnd.randint(0, 7)
        elif k == 3:
            del b[i:]
        else:
            j = rnd.randint(0, len(b))
            b[i:i] = b[j:j + rnd.randint(1, 60)]
    return bytes(b)
