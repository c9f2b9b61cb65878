"""C34: symbolic execution of the browser client which the library embeds (see DESIGN.md).

jscheck.py TIER SEED [--only ENTRY] | --replay FILE. Run by check.py."""
import concurrent.futures as cf
import gzip
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path[:0] = [V, HERE]
REPO = os.environ.get("VERIF_REPO", "/repo")
import z3  # noqa: E402
import jsx  # noqa: E402
from jsx import SBool, SF64, SStr, UNDEF, bv, mkstr, simp, units, utf8  # noqa: E402

sys.setrecursionlimit(6000)
PID = "C34"


# ---------------------------------------------------------------- the client, as the library serves it
def client(d):
    """writes client.js and client.json into d"""
    prog, out = os.path.join(d, "dump"), os.path.join(d, "dump.out")
    r = subprocess.run(["g++-13", "-std=c++23", "-O0", "-w", "-I" + os.path.join(REPO, "include"), os.path.join(HERE, "dump.cpp"), "-o", prog], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise RuntimeError("compiling the program which reads the client failed:\n" + r.stdout[-3000:])
    with open(out, "wb") as f:
        rc = subprocess.run([prog], stdout=f, timeout=60).returncode
    data = open(out, "rb").read()
    if rc == 3:
        return "WebFront.js is not there"
    if rc or b"\n" not in data:
        return "reading WebFront.js ends with status %d" % rc
    enc, body = data.split(b"\n", 1)
    try:
        if enc == b"gzip":
            body = gzip.decompress(body)
        elif enc:
            return "WebFront.js has the encoding '%s'" % enc.decode("latin-1")
    except (OSError, EOFError, ValueError) as e:
        return "WebFront.js cannot be decompressed: %s" % e
    js = os.path.join(d, "client.js")
    open(js, "wb").write(body)
    r = subprocess.run(["node", os.path.join(HERE, "parse.js"), js], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        if "SyntaxError" in r.stderr:
            return "WebFront.js is not a script: " + r.stderr.strip().splitlines()[4:5][0] if len(r.stderr.strip().splitlines()) > 4 else "WebFront.js is not a script"
        raise RuntimeError("parsing the client failed:\n" + r.stderr[-2000:])
    open(os.path.join(d, "client.json"), "w").write(r.stdout)
    return None


# ---------------------------------------------------------------- the format of the messages
def order(data, little):
    return data[::-1] if little else data


def word(v, n, little):
    return order([(v >> 8 * i) & 255 for i in range(n)][::-1], little)


def number_bytes(v, little):
    return order([simp(z3.Extract(8 * i + 7, 8 * i, v.e)) for i in range(7, -1, -1)], little)


def enc(p, v, little):
    """a parameter in the protocol's format"""
    if isinstance(v, bool):
        return [1 if v else 2]
    if isinstance(v, SBool):
        return [z3.If(v.e, z3.BitVecVal(1, 8), z3.BitVecVal(2, 8))]
    if isinstance(v, SF64):
        return [3] + number_bytes(v, little)
    if isinstance(v, list):
        return [18, len(v)] + [b for x in v for b in enc(p, x, little)]
    d = utf8(p, units(v))
    return ([4, len(d)] if len(d) < 256 else [5] + word(len(d), 2, little)) + d


def call_message(p, values, little):
    body = [b for v in values for b in enc(p, v, little)]
    return [3, len(values), 0, 0] + word(len(body), 4, little) + body


# ---------------------------------------------------------------- symbolic values
def boolean(p):
    return SBool(p.fresh("boolean", 1) == 1)


def number(p):
    x = p.fresh("number", 64)
    p.solver.add(z3.Or(z3.Extract(62, 52, x) != 0x7ff, z3.Extract(51, 0, x) == 0))
    return SF64(x)


def text(p, n, ascii=False, bom=False):
    """every well-formed text of n units"""
    u = [p.fresh("unit", 16) for _ in range(n)]
    if ascii:
        for x in u:
            p.solver.add(z3.ULT(x, 128))
        return mkstr(u)
    sur = lambda x, b: z3.Extract(15, 10, x) == b
    for i, x in enumerate(u):
        p.solver.add(z3.Implies(sur(x, 0x36), sur(u[i + 1], 0x37) if i + 1 < n else False))
        p.solver.add(z3.Implies(sur(x, 0x37), sur(u[i - 1], 0x36) if i else False))
    if u and not bom:
        p.solver.add(u[0] != 0xfeff)
    return mkstr(u)


def long_text(p, n, wide=0):
    """n units of which the first, one in the middle and the last are any ASCII character; with wide the others are that unit"""
    u = [wide or 97 + i % 23 for i in range(n)]
    for i in {0, n // 2, n - 1} if n and not wide else ():
        u[i] = p.fresh("unit", 16)
        p.solver.add(z3.ULT(u[i], 128))
    return mkstr(u)


def values(p, kinds, length, depth=0, nest=True):
    """a value of any of the kinds"""
    k = kinds[p.pick(len(kinds))]
    if k == "b":
        return boolean(p)
    if k == "n":
        return number(p)
    if k == "s":
        return text(p, p.pick(length + 1))
    if depth:
        return [values(p, "bn", 0, 2) for _ in range(p.pick(2))]
    return [values(p, "bnsa" if nest else "bns", min(length, 1), 1) for _ in range(p.pick(3))]


def start(p):
    """opening and acknowledgement; returns operations, observations and the byte order"""
    e = p.fresh("order", 8)
    p.solver.add(z3.ULE(e, 1))
    little = p.decide(e == 0)
    return ([("open",), ("message", [1, e])], [("socket", "ws://localhost:8080", "WebFront_0.1"), ("send", [0, 0])], little)


NAMES = ["f", "ns.f", "ns.deep.h", "grow"]


def js_handshake(p, a):
    ops, exp, little = start(p)
    if p.pick(2):
        ops.append(("message", [1, p.fresh("second order", 8)]))
    v = number(p)
    ops += [("message", call_message(p, ["f", v], little)), ("cpp", "x", [v])]
    exp += [("call", "f", "self", [v]), ("send", call_message(p, ["x", v], little))]
    end = p.pick(4)
    if end:
        ops.append([("close", True), ("close", False), ("error",)][end - 1])
    return ops, exp, ()


def js_call(p, a):
    ops, exp, little = start(p)
    for _ in range(a.get("calls", 1)):
        name = NAMES[p.pick(len(NAMES) if a.get("names", 1) else 1)]
        args = [values(p, a.get("kinds", "bnsa"), a["length"]) for _ in range(p.pick(a["args"] + 1))]
        ops.append(("message", call_message(p, [name] + args, little)))
        exp.append(("call", name, "self", args))
    return ops, exp, ()


def js_call_long(p, a):
    ops, exp, little = start(p)
    sizes = [0, 1, 127, 128, 129, 254, 255, 256, 257, 1000, 32767, 32768, 65534, 65535]
    args = [long_text(p, sizes[p.pick(len(sizes))])]
    if p.pick(2):
        args.append(long_text(p, [3, 300][p.pick(2)]))
    args.append(boolean(p))
    ops += [("message", call_message(p, ["f"] + args, little)), ("message", call_message(p, ["ns.f", boolean(p)], little))]
    exp += [("call", "f", "self", args), ("call", "ns.f", "self", [SBool(z3.BitVec("boolean.1", 1) == 1)])]
    return ops, exp, ()


def js_call_many(p, a):
    ops, exp, little = start(p)
    n = [0, 1, 2, 30, 100, 127, 128, 200, 253, 254][p.pick(10)]
    kind = p.pick(3)
    args = [long_text(p, 2) if kind == 1 and i % 50 == 7 else number(p) if kind == 2 and i % 2 else boolean(p) if i % 90 == 5 else i % 3 == 0 for i in range(n)]
    if p.pick(2):
        args = [args, True] if n else [[], False]
    ops.append(("message", call_message(p, ["f"] + args, little)))
    exp.append(("call", "f", "self", args))
    return ops, exp, ()


def js_call_name(p, a):
    """every name, and functions which are not there or fail; the next call is made"""
    ops, exp, little = start(p)
    k = p.pick(6)
    v = boolean(p)
    if k == 0:
        name = text(p, p.pick(a["length"] + 1))
        us = units(name)
        if len(us) == 1 and p.decide(bv(us[0], 16) == ord("f")):
            exp.append(("call", "f", "self", [v]))
        elif len(us) == 4:
            if p.decide(z3.And([bv(x, 16) == ord(c) for x, c in zip(us, "ns.f")])):
                exp.append(("call", "ns.f", "self", [v]))
            elif p.decide(z3.And([bv(x, 16) == ord(c) for x, c in zip(us, "grow")])):
                exp.append(("call", "grow", "self", [v]))
        elif len(us) == 3 and p.decide(z3.And([bv(x, 16) == ord(c) for x, c in zip(us, "bad")])):
            exp.append(("call", "bad", "self", [v]))
    else:
        name = ["none", "ns.none", "no.f", "ns.deep", "bad"][k - 1]
        if name == "bad":
            exp.append(("call", "bad", "self", [v]))
    w = number(p)
    ops += [("message", call_message(p, [name, v], little)), ("message", call_message(p, ["ns.deep.h", w], little))]
    exp.append(("call", "ns.deep.h", "self", [w]))
    return ops, exp, ()


def js_text(p, a):
    ops, exp, little = start(p)
    op = [0, 1, p.fresh("opcode", 8)][p.pick(3)]
    if not isinstance(op, int):
        p.solver.add(z3.UGE(op, 2))
    if a.get("long"):
        t = long_text(p, [127, 128, 255, 256, 257, 511, 512, 1024, 32768, 65535][p.pick(10)])
    else:
        t = text(p, p.pick(a["length"] + 1))
    d = utf8(p, units(t))
    ops.append(("message", [2, op] + word(len(d), 2, False) + d))
    if isinstance(op, int):
        exp.append(("script", "script", t) if op else ("log", [t]))
    w = boolean(p)
    ops.append(("message", call_message(p, ["f", w], little)))
    exp.append(("call", "f", "self", [w]))
    return ops, exp, ("log",)


def js_other(p, a):
    """messages of other kinds do nothing"""
    ops, exp, little = start(p)
    for _ in range(a["messages"]):
        c = p.fresh("command", 8)
        p.solver.add(z3.Or(c == 0, z3.UGE(c, 4)))
        ops.append(("message", [c] + [p.fresh("byte", 8) for _ in range([0, 1, 7, 12][p.pick(4)])]))
    w = number(p)
    ops.append(("message", call_message(p, ["f", w], little)))
    exp.append(("call", "f", "self", [w]))
    return ops, exp, ()


def js_cpp(p, a):
    ops, exp, little = start(p)
    name = text(p, p.pick(a["length"] + 1), bom=True) if a["calls"] == 1 and p.pick(2) else "computeSum"
    if a["calls"] > 1:
        ops.append(("bind", 0, name))
    for _ in range(a["calls"]):
        args = [values(p, a.get("kinds", "bnsa"), a["length"], nest=False) for _ in range(p.pick(a["args"] + 1))]
        ops.append(("bound", 0, args) if a["calls"] > 1 else ("cpp", name, args))
        exp.append(("send", call_message(p, [name] + args, little)))
    return ops, exp, ()


def js_cpp_long(p, a):
    """long names and texts; beyond 65535 bytes the call is refused and nothing is sent"""
    ops, exp, little = start(p)
    shapes = [(0, 0), (1, 0), (127, 0), (128, 0), (254, 0), (255, 0), (256, 0), (257, 0), (32768, 0), (65535, 0), (65536, 0), (70000, 0), (127, 0xe9), (128, 0xe9), (85, 0x20ac), (86, 0x20ac), (21845, 0x20ac), (21846, 0x20ac), (32768, 0xe9)]
    n, wide = shapes[p.pick(len(shapes))]
    t = long_text(p, n, wide)
    size = n * (1 if not wide else 2 if wide < 0x800 else 3)
    where = p.pick(3)
    name, args = ("x", [t, True]) if where == 0 else ("x", [1 == 1, [t, False]]) if where == 1 else (t, [boolean(p)])
    ops.append(("cpp", name, args))
    exp.append(("send", call_message(p, [name] + args, little)) if size < 65536 else ("throw",))
    w = number(p)
    ops.append(("cpp", "y", [w]))
    exp.append(("send", call_message(p, ["y", w], little)))
    return ops, exp, ()


def js_cpp_many(p, a):
    ops, exp, little = start(p)
    n = [0, 1, 60, 127, 128, 200, 253, 254][p.pick(8)]
    args = [number(p) if i % 60 == 4 else boolean(p) if i % 90 == 5 else i % 3 == 0 for i in range(n)]
    if p.pick(2):
        args = [args + [True], "end"]
    ops.append(("cpp", "x", args))
    exp.append(("send", call_message(p, ["x"] + args, little)))
    return ops, exp, ()


def js_cpp_refused(p, a):
    """values of other types are refused, nothing is sent"""
    ops, exp, little = start(p)
    bad = [UNDEF, {}][p.pick(2)]
    args = [[bad], [boolean(p), bad], [[bad]], ["a", [True, bad]]][p.pick(4)]
    w = boolean(p)
    ops += [("cpp", "x", args), ("cpp", "y", [w])]
    exp += [("throw",), ("send", call_message(p, ["y", w], little))]
    return ops, exp, ()


def js_relay(p, a):
    """a function called by the server which calls C++"""
    ops, exp, little = start(p)
    for _ in range(2):
        args = [values(p, a.get("kinds", "bnsa"), a["length"], nest=False) for _ in range(p.pick(a["args"] + 1))]
        ops.append(("message", call_message(p, ["relay"] + args, little)))
        exp += [("call", "relay", "self", args), ("send", call_message(p, ["back"] + args, little))]
    return ops, exp, ()


def js_cpp_nested(p, a):
    """arrays in arrays"""
    ops, exp, little = start(p)
    inner = [boolean(p) for _ in range(p.pick(3))]
    args = [[[inner], [boolean(p), inner], [inner, number(p)], [[inner]]][p.pick(4)]]
    ops.append(("cpp", "x", args))
    exp.append(("send", call_message(p, ["x"] + args, little)))
    return ops, exp, ()


def js_bom(p, a):
    """texts which begin with U+FEFF"""
    ops, exp, little = start(p)
    t = mkstr([0xfeff] + units(text(p, p.pick(2), ascii=True)))
    ops.append(("message", call_message(p, ["f", t], little)))
    exp.append(("call", "f", "self", [t]))
    return ops, exp, ()


def js_cpp_too_many(p, a):
    """more arguments or elements than a byte can count: refused, nothing is sent"""
    ops, exp, little = start(p)
    w = boolean(p)
    k = p.pick(2)
    if k == 0:
        args = [w] * [255, 256, 300][p.pick(3)]
    else:
        args = [[w] * [256, 257, 600][p.pick(3)]]
    ops.append(("cpp", "x", args))
    exp.append(("throw",))
    return ops, exp, ()


def js_cpp_large(p, a):
    """several long texts in one call"""
    ops, exp, little = start(p)
    args = [long_text(p, [10, 30000, 60000][p.pick(3)]), long_text(p, 65535)]
    ops.append(("cpp", "x", args))
    exp.append(("send", call_message(p, ["x"] + args, little)))
    return ops, exp, ()


# ---------------------------------------------------------------- concrete values
class Concrete:
    def __init__(self, model):
        self.model = model

    def n(self, e):
        if isinstance(e, int):
            return e
        return self.model.eval(e, model_completion=True).as_long()

    def tag(self, v):
        if isinstance(v, bool):
            return ["b", v]
        if isinstance(v, SBool):
            return ["b", z3.is_true(self.model.eval(v.e, model_completion=True))]
        if isinstance(v, SF64):
            return ["n", "%016x" % self.n(v.e)]
        if isinstance(v, jsx.SInt):
            v = self.n(v.e)
            v = v - (1 << 64) if v >> 63 else v
        if isinstance(v, (int, float)):
            import struct
            return ["n", struct.pack(">d", float(v)).hex()]
        if isinstance(v, (str, SStr)):
            return ["s", [self.n(u) for u in units(v)]]
        if isinstance(v, list):
            return ["a", [self.tag(x) for x in v]]
        return ["u"] if v is UNDEF else ["o"]

    def op(self, o):
        if o[0] == "message":
            return ["message", [self.n(b) for b in o[1]]]
        if o[0] == "cpp":
            return ["cpp", self.tag(o[1]), [self.tag(x) for x in o[2]]]
        if o[0] == "bind":
            return ["bind", o[1], self.tag(o[2])]
        if o[0] == "bound":
            return ["bound", o[1], [self.tag(x) for x in o[2]]]
        return list(o)

    def ob(self, o):
        if o[0] == "send":
            return ["send", [self.n(b) for b in o[1]]]
        if o[0] == "call":
            return ["call", o[1], o[2], [self.tag(x) for x in o[3]]]
        if o[0] == "log":
            return ["log", [self.tag(x) for x in o[1]]]
        if o[0] == "script":
            return ["script", o[1], self.tag(o[2])]
        return list(o)


def keep(obs, kept):
    """what is compared: the script's own reports on the console are not, unless they are asked for"""
    out = []
    for o in obs:
        if o[0] == "error" or o[0] == "log" and not ("log" in kept and own(o)):
            continue
        out.append(o)
    return out


REPORTS = ("netlayer constructed", "WebFront constructed", "webfront connection", "WebLink negociated", "payload size")


def own(o):
    """a log line which is not one of the client's reports"""
    v = o[1][0] if o[1] else ""
    if isinstance(v, list):  # concrete form
        v = "".join(map(chr, v[1])) if v[0] == "s" else ""
        return not v.startswith(REPORTS)
    return not (isinstance(v, str) and v.startswith(REPORTS))


def diff_terms(x, y, where, out):
    """pairs of terms which must be equal; a text: what differs whatever the values"""
    if isinstance(x, list) or isinstance(y, list):
        if not (isinstance(x, list) and isinstance(y, list)):
            return "%s: a list on one side only" % where
        if len(x) != len(y):
            return "%s: %d elements instead of %d" % (where, len(x), len(y))
        for i, (p, q) in enumerate(zip(x, y)):
            r = diff_terms(p, q, "%s[%d]" % (where, i), out)
            if r:
                return r
        return None
    if isinstance(x, (str, SStr)) and isinstance(y, (str, SStr)):
        if x is y or isinstance(x, str) and isinstance(y, str) and x == y:
            return None
        a, b = units(x), units(y)
        if len(a) != len(b):
            return "%s: a text of %d units instead of %d" % (where, len(a), len(b))
        for i, (p, q) in enumerate(zip(a, b)):
            if isinstance(p, int) and isinstance(q, int):
                if p != q:
                    return "%s: unit %d differs" % (where, i)
            else:
                out.append((where + ": text", bv(p, 16) != bv(q, 16)))
        return None
    if isinstance(x, (bool, SBool)) and isinstance(y, (bool, SBool)):
        f = lambda v: v.e if isinstance(v, SBool) else z3.BoolVal(v)
        out.append((where + ": boolean", f(x) != f(y)))
        return None
    num = (int, float, SF64, jsx.SInt)
    if isinstance(x, num) and isinstance(y, num) and not isinstance(x, bool) and not isinstance(y, bool):
        if isinstance(x, SF64) and isinstance(y, SF64):
            out.append((where + ": number", x.e != y.e))
            return None
        return "%s: number" % where
    return None if type(x) is type(y) and not isinstance(x, jsx.Obj) else "%s: a value of another type" % where


def compare(obs, exp, out):
    for i, (o, e) in enumerate(zip(obs, exp)):
        if o[0] != e[0]:
            return "'%s' instead of '%s'" % (o[0], e[0])
        if o[0] == "send":
            if len(o[1]) != len(e[1]):
                return "%d bytes sent instead of %d" % (len(o[1]), len(e[1]))
            for k, (x, y) in enumerate(zip(o[1], e[1])):
                if x is y:
                    continue
                if isinstance(x, int) and isinstance(y, int):
                    if x != y:
                        return "byte %d sent is wrong" % k
                else:
                    out.append(("sent byte %d" % k, bv(x, 8) != bv(y, 8)))
        elif o[0] == "call":
            if o[1] != e[1] or o[2] != e[2]:
                return "call of %s (%s) instead of %s" % (o[1], o[2], e[1])
            r = diff_terms(o[3], e[3], "arguments", out)
            if r:
                return r
        elif o[0] in ("script", "log", "socket"):
            r = diff_terms(list(o[1:]), list(e[1:]), o[0], out)
            if r:
                return r
    if len(obs) != len(exp):
        return "%d things happened instead of %d, %s" % (len(obs), len(exp), "the first one too many a '%s'" % obs[len(exp)][0] if len(obs) > len(exp) else "the first missing one a '%s'" % exp[len(obs)][0])
    return None


# ---------------------------------------------------------------- exploration of one entry
def explore(args):
    entry, params, tree_file, seconds, max_steps, seed = args
    tree = json.load(open(tree_file))
    t0 = time.time()
    stats = {"queries": 0, "solver": 0.0, "max": 0.0, "sat": 0, "unsat": 0, "unknown": 0, "paths": 0, "infeasible": 0, "steps": 0, "asserts": 0}
    res = {"viol": [], "samples": [], "incomplete": {}, "functions": set(), "stats": stats, "ends": {}}
    work = [[]]
    deadline = t0 + seconds
    scenario = globals()[entry]
    while work:
        if time.time() > deadline:
            res["incomplete"]["time"] = len(work)
            break
        prefix = work.pop()
        p = jsx.Path(prefix, stats, 20000, deadline)
        try:
            ops, exp, kept = scenario(p, params)
            w = jsx.World(p, max_steps)
            try:
                w.program(tree)
                for o in ops:
                    w.perform(o)
            except jsx.JSThrow:
                w.obs.append(("throw",))
            res["functions"] |= w.functions
            stats["steps"] += p.steps
            stats["paths"] += 1
            terms = []
            what = compare(keep(w.obs, kept), exp, terms)
            stats["asserts"] += 1
            cond = None
            if not what and terms:
                terms = [(n, c) for n, c in ((n, z3.simplify(c)) for n, c in terms) if not z3.is_false(c)]
                if terms and p.check(z3.Or([c for _, c in terms])):
                    m = p.solver.model()
                    what = next(n for n, c in terms if z3.is_true(m.eval(c, model_completion=True))) + " differs"
                    cond = m
            if cond is None:
                if not p.check():
                    raise jsx.Infeasible()
                cond = p.solver.model()
            c = Concrete(cond)
            run = {"ops": [c.op(o) for o in ops], "expected": [c.ob(o) for o in exp], "kept": list(kept)}
            if what:
                res["viol"].append({"msg": what, "run": run})
                res["ends"]["violation"] = res["ends"].get("violation", 0) + 1
                if len(res["viol"]) > 400:
                    res["incomplete"]["violations"] = len(work)
                    break
            else:
                run["observed"] = [c.ob(o) for o in w.obs]
                res["ends"]["done"] = res["ends"].get("done", 0) + 1
                if len(res["samples"]) < 60:
                    res["samples"].append(run)
                elif stats["paths"] % 7 == seed % 7:
                    res["samples"][stats["paths"] * 31 % 60] = run
        except jsx.Infeasible:
            stats["infeasible"] += 1
        except jsx.OutOfSteps:
            res["incomplete"]["steps"] = res["incomplete"].get("steps", 0) + 1
        except (jsx.Unsupported, KeyError, IndexError, AttributeError, TypeError, RecursionError) as e:
            k = "unsupported: %s %s" % (type(e).__name__, str(e)[:80])
            res["incomplete"][k] = res["incomplete"].get(k, 0) + 1
            if os.environ.get("JS_DEBUG"):
                raise
        work += p.alternatives
    res["functions"] = sorted(res["functions"])
    res["wall"] = round(time.time() - t0, 2)
    return res


def native(js, runs, d):
    """what the real script does, in node"""
    if not runs:
        return []
    f = tempfile.mktemp(prefix="ops", dir=d)
    json.dump([r["ops"] for r in runs], open(f, "w"))
    r = subprocess.run(["node", os.path.join(HERE, "replay.js"), js, f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
    os.remove(f)
    if r.returncode:
        raise RuntimeError("the client fails in node:\n" + r.stderr[-1500:])
    return json.loads(r.stdout)


def norm(o):
    return json.loads(json.dumps(o))


def main(tier, seed, only=None):
    import check
    import props
    t0 = time.time()
    P = props.PROPS[PID]
    rdir = os.path.join(V, "build", "replay")
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(PID + "-"):
            os.remove(os.path.join(rdir, f))
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "functions_encoded": [], "runs": [], "queries": {}, "solver_seconds": 0.0, "exhaustive": True,
           "explanation": "Symbolic execution of the JavaScript which IndexFS serves as WebFront.js (read through the library, decompressed and parsed on every run); states = explored paths, transitions = statements executed; what the client calls, injects, prints and sends is compared with the protocol by the solver for all values on each path."}
    notes, found, funcs, nviol, rc = [], [], set(), 0, 0
    d = tempfile.mkdtemp(prefix="js", dir=os.path.join(V, "build"))
    try:
        bad = client(d)
        if bad:
            path = os.path.join(rdir, PID + "-client.txt")
            open(path, "w").write(json.dumps({"client": bad}) + "\n")
            print("VIOLATION property=%s replay=%s" % (PID, path), flush=True)
            print("  " + bad, flush=True)
            found.append({"entry": "client", "symbolic": bad})
            nviol, rc = 1, 1
        else:
            js = os.path.join(d, "client.js")
            knowns = [k for k in check.known_findings() if k[0] == PID]
            hit = set()
            plan = []
            for j in P.jobs:
                if only and j.entry != only:
                    continue
                for i, m in enumerate([{}] + j.more + (j.deep if tier == "thorough" else [])):
                    plan.append((j, dict(j.base, **m), i == 0))
            base_s, more_s = (240, 60) if tier == "quick" else (1200, 1500)
            with cf.ProcessPoolExecutor(max_workers=8) as ex:
                fs = [(j, params, isbase, ex.submit(explore, (j.entry, params, os.path.join(d, "client.json"), base_s if isbase else more_s, j.steps, seed))) for j, params, isbase in plan]
                for j, params, isbase, f in fs:
                    r = f.result()
                    st = r["stats"]
                    cov["states"] += st["paths"]
                    cov["transitions"] += st["steps"]
                    cov["solver_seconds"] = round(cov["solver_seconds"] + st["solver"], 2)
                    for k in ("queries", "sat", "unsat", "unknown", "asserts"):
                        cov["queries"][k] = cov["queries"].get(k, 0) + st[k]
                    funcs.update(r["functions"])
                    run = {"entry": j.entry, "params": params, "bounds": j.bounds, "base": isbase, "complete": not r["incomplete"], "paths": st["paths"], "path_ends": r["ends"], "instructions": st["steps"], "max_query_s": round(st["max"], 3), "wall_s": r["wall"]}
                    if r["incomplete"]:
                        run["incomplete"] = r["incomplete"]
                        if isbase:
                            cov["exhaustive"] = False
                            notes.append("%s: base bounds not exhausted: %s" % (j.entry, r["incomplete"]))
                    seen = set()
                    for v, obs in zip(r["viol"], native(js, [v["run"] for v in r["viol"]], d)):
                        key = re.sub(r"\d+", "#", v["msg"])
                        real = norm(keep(obs, v["run"]["kept"])) != norm(v["run"]["expected"])
                        kn = next((k for k in knowns if k[1] == j.entry and re.search(k[3], v["msg"])), None)
                        if kn and real:
                            if kn not in hit:
                                hit.add(kn)
                                print("KNOWN-FINDING: property=%s %s" % (PID, kn[4]), flush=True)
                            continue
                        if key in seen:
                            continue
                        if real:
                            seen.add(key)
                            path = os.path.join(rdir, "%s-%s-%d.txt" % (PID, j.entry, len(os.listdir(rdir))))
                            json.dump({"entry": j.entry, "property": PID, "message": v["msg"], "run": v["run"]}, open(path, "w"))
                            found.append({"entry": j.entry, "params": params, "symbolic": v["msg"], "replay": path})
                            nviol += 1
                            if nviol <= 4:
                                print("VIOLATION property=%s replay=%s" % (PID, path), flush=True)
                                print("  %s: %s" % (j.entry, v["msg"]), flush=True)
                        else:
                            notes.append("%s: not confirmed by the real client: %s" % (j.entry, v["msg"]))
                    agree = 0
                    for s, obs in zip(r["samples"], native(js, r["samples"], d)):
                        if norm(obs) == norm(s["observed"]):
                            agree += 1
                            if len(cov["samples"]) < 6 and len(json.dumps(s["ops"])) < 800:
                                cov["samples"].append({"entry": j.entry, "operations": s["ops"], "observed": s["observed"][:8]})
                        elif norm(keep(obs, s["kept"])) != norm(s["expected"]):
                            path = os.path.join(rdir, "%s-%s-%d.txt" % (PID, j.entry, len(os.listdir(rdir))))
                            json.dump({"entry": j.entry, "property": PID, "message": "found on replaying a path", "run": s}, open(path, "w"))
                            nviol += 1
                            found.append({"entry": j.entry, "params": params, "symbolic": "replay", "replay": path})
                            if nviol > 4:
                                break
                            print("VIOLATION property=%s replay=%s" % (PID, path), flush=True)
                            print("  %s: found when replaying a path on the real client" % j.entry, flush=True)
                        else:
                            notes.append("%s: sampled path not confirmed by the real client: %s" % (j.entry, json.dumps(s["ops"])[:300]))
                    run["samples_replayed"], run["samples_agree"] = len(r["samples"]), agree
                    cov["traces_validated_against_impl"] += agree
                    cov["runs"].append(run)
            if nviol:
                rc = 1
            elif cov["states"] == 0 or cov["traces_validated_against_impl"] == 0:
                notes.append("nothing explored or confirmed")
                rc = 2
    except (RuntimeError, OSError, subprocess.TimeoutExpired) as e:
        notes.append(str(e)[:1500])
        rc = 2
    finally:
        shutil.rmtree(d, ignore_errors=True)
    cov["functions_encoded"] = sorted(funcs)
    cov["violations_found"], cov["notes"] = found, notes
    if notes:
        cov["exhaustive"] = False
    if not cov["samples"]:
        cov["samples"] = [{"note": "no short sample path in this run"}]
    ev = {"property": PID, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "assumptions": list(P.assumptions), "wall_s": round(time.time() - t0, 2), "violations": nviol}
    json.dump(ev, open(os.path.join(V, "evidence", PID + ".json"), "w"), indent=1)
    for n in notes:
        print("NOTE " + n)
    print("%s %s: %d paths, %d statements, %d solver queries (%.1f s), %d paths confirmed on the real client, %d violations, %.1f s" % (
        PID, tier, cov["states"], cov["transitions"], cov["queries"].get("queries", 0), cov["solver_seconds"], cov["traces_validated_against_impl"], nviol, ev["wall_s"]))
    return rc


def replay(path):
    v = json.load(open(path))
    d = tempfile.mkdtemp(prefix="js", dir=os.path.join(V, "build"))
    try:
        bad = client(d)
        if bad:
            print("failed: " + bad)
            return 1
        if "run" not in v:
            print("done")
            return 0
        obs = native(os.path.join(d, "client.js"), [v["run"]], d)[0]
        ok = norm(keep(obs, v["run"]["kept"])) == norm(v["run"]["expected"])
        print("done" if ok else "failed: the client does %s instead of %s" % (json.dumps(keep(obs, v["run"]["kept"]))[:600], json.dumps(v["run"]["expected"])[:600]))
        return 0 if ok else 1
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    sys.exit(main(sys.argv[1], int(sys.argv[2]), sys.argv[4] if len(sys.argv) > 4 else None))
