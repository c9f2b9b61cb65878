"""Symbolic execution of ECMAScript 5 programs: the ESTree of the script is interpreted, numbers, booleans and
text units may be z3 terms, and every decision on them forks the execution. The browser is a model (class World)."""
import math
import struct
import time

import z3


class Unsupported(Exception):
    pass


class Infeasible(Exception):
    pass


class OutOfSteps(Exception):
    pass


class JSThrow(Exception):
    def __init__(self, value):
        self.value = value


class BreakX(Exception):
    pass


class ContinueX(Exception):
    pass


class ReturnX(Exception):
    def __init__(self, value):
        self.value = value


class Undef:
    def __repr__(self):
        return "undefined"


UNDEF = Undef()


class SBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e


class SInt:
    """an integer, as a term of 64 bits"""
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e


class SF64:
    """a number which is not NaN, as the term of its 64 bits"""
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e


class SStr:
    """a text some of whose 16-bit units are terms"""
    __slots__ = ("u",)

    def __init__(self, u):
        self.u = tuple(u)


def units(s):
    if isinstance(s, SStr):
        return list(s.u)
    if s.isascii():
        return list(s.encode())
    b = s.encode("utf-16-le", "surrogatepass")
    return [b[i] | b[i + 1] << 8 for i in range(0, len(b), 2)]


def mkstr(u):
    u = list(u)
    if all(isinstance(x, int) for x in u):
        return b"".join(struct.pack("<H", x) for x in u).decode("utf-16-le", "surrogatepass")
    return SStr(u)


class Obj:
    def __init__(self, proto=None, cls="Object"):
        self.proto, self.cls, self.props = proto, cls, {}


class Arr(Obj):
    def __init__(self, proto, items):
        Obj.__init__(self, proto, "Array")
        self.items = items


class Fn(Obj):
    def __init__(self, proto, name, node=None, env=None, native=None):
        Obj.__init__(self, proto, "Function")
        self.name, self.node, self.env, self.native = name, node, env, native


class Buffer(Obj):
    def __init__(self, proto, data):
        Obj.__init__(self, proto, "ArrayBuffer")
        self.data = data


class Typed(Obj):
    def __init__(self, proto, size, buf, off, length):
        Obj.__init__(self, proto, "Typed")
        self.size, self.buf, self.off, self.length = size, buf, off, length


class View(Obj):
    def __init__(self, proto, buf, off, length):
        Obj.__init__(self, proto, "DataView")
        self.buf, self.off, self.length = buf, off, length


def bv(x, n):
    return z3.BitVecVal(x, n) if isinstance(x, int) else x


def simp(e):
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e.as_long()
    return e


# ---------------------------------------------------------------- paths
class Path:
    """one execution: the decisions of `prefix` are followed, later ones go to the first side which is possible"""

    def __init__(self, prefix, stats, query_ms, deadline):
        self.prefix, self.taken, self.alternatives = prefix, [], []
        self.solver = z3.Solver()
        self.solver.set("timeout", query_ms)
        self.stats, self.deadline = stats, deadline
        self.names, self.steps = {}, 0
        self.model = None

    def fresh(self, name, bits):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        v = z3.BitVec("%s.%d" % (name, n), bits)
        return v

    def check(self, *extra):
        t = time.time()
        r = self.solver.check(*extra)
        dt = time.time() - t
        self.stats["queries"] += 1
        self.stats["solver"] += dt
        self.stats["max"] = max(self.stats["max"], dt)
        self.stats[str(r)] = self.stats.get(str(r), 0) + 1
        if r == z3.unknown:
            raise Unsupported("the solver gave no answer")
        return r == z3.sat

    def assume(self, e):
        self.solver.add(e)
        if not self.check():
            raise Infeasible()

    def pick(self, n):
        """any of 0..n-1"""
        i = len(self.taken)
        if i < len(self.prefix):
            c = self.prefix[i]
        else:
            c = 0
            for k in range(n - 1, 0, -1):
                self.alternatives.append(self.taken + [k])
        self.taken.append(c)
        return c

    def decide(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        i = len(self.taken)
        if i < len(self.prefix):
            c = self.prefix[i]
        else:
            if self.check(e):
                c = True
                if self.check(z3.Not(e)):
                    self.alternatives.append(self.taken + [False])
            else:
                c = False
        self.taken.append(c)
        self.solver.add(e if c else z3.Not(e))
        return c

    def value(self, e):
        """a concrete value for a term, forking on it"""
        e = simp(e)
        if isinstance(e, int):
            return e
        while True:
            if not self.check():
                raise Infeasible()
            v = self.solver.model().eval(e, model_completion=True).as_long()
            if self.decide(e == v):
                return v


# ---------------------------------------------------------------- UTF-8
def utf8(path, us):
    """the bytes of a well-formed text (16-bit units, possibly terms)"""
    out, i = [], 0
    while i < len(us):
        u = us[i]
        if isinstance(u, int):
            if u < 0x80:
                out.append(u)
                i += 1
                continue
            if u < 0xd800 or u > 0xdfff:
                out += list(chr(u).encode())
                i += 1
                continue
        b = bv(u, 16)
        if path.decide(z3.ULT(b, 0x80)):
            out.append(simp(z3.Extract(7, 0, b)))
        elif path.decide(z3.ULT(b, 0x800)):
            out.append(simp(z3.Concat(z3.BitVecVal(6, 3), z3.Extract(10, 6, b))))
            out.append(simp(z3.Concat(z3.BitVecVal(2, 2), z3.Extract(5, 0, b))))
        elif path.decide(z3.Or(z3.ULT(b, 0xd800), z3.UGT(b, 0xdfff))):
            out.append(simp(z3.Concat(z3.BitVecVal(14, 4), z3.Extract(15, 12, b))))
            out.append(simp(z3.Concat(z3.BitVecVal(2, 2), z3.Extract(11, 6, b))))
            out.append(simp(z3.Concat(z3.BitVecVal(2, 2), z3.Extract(5, 0, b))))
        elif i + 1 < len(us) and path.decide(z3.And(z3.ULT(b, 0xdc00), z3.UGE(bv(us[i + 1], 16), 0xdc00), z3.ULE(bv(us[i + 1], 16), 0xdfff))):
            lo = bv(us[i + 1], 16)
            c = z3.BitVecVal(0x10000, 21) + z3.Concat(z3.BitVecVal(0, 1), z3.Extract(9, 0, b), z3.Extract(9, 0, lo))
            out.append(simp(z3.Concat(z3.BitVecVal(30, 5), z3.Extract(20, 18, c))))
            for h, l in ((17, 12), (11, 6), (5, 0)):
                out.append(simp(z3.Concat(z3.BitVecVal(2, 2), z3.Extract(h, l, c))))
            i += 1
        else:
            out += [0xef, 0xbf, 0xbd]
        i += 1
    return out


def from_utf8(path, data, keep_bom=False):
    """the units a TextDecoder makes of valid UTF-8"""
    out, i, n = [], 0, len(data)

    def cont(k):
        if k >= n:
            raise Unsupported("text which is not valid UTF-8")
        b = bv(data[k], 8)
        if not path.decide(z3.Extract(7, 6, b) == 2):
            raise Unsupported("text which is not valid UTF-8")
        return z3.Extract(5, 0, b)
    while i < n:
        d = data[i]
        if isinstance(d, int) and d < 0x80:
            out.append(d)
            i += 1
            continue
        b = bv(d, 8)
        if path.decide(z3.Extract(7, 7, b) == 0):
            out.append(simp(z3.ZeroExt(8, b)))
            i += 1
        elif path.decide(z3.Extract(7, 5, b) == 6):
            out.append(simp(z3.Concat(z3.BitVecVal(0, 5), z3.Extract(4, 0, b), cont(i + 1))))
            i += 2
        elif path.decide(z3.Extract(7, 4, b) == 14):
            u = simp(z3.Concat(z3.Extract(3, 0, b), cont(i + 1), cont(i + 2)))
            if i == 0 and not keep_bom and path.decide(bv(u, 16) == 0xfeff):
                pass  # a byte order mark
            else:
                out.append(u)
            i += 3
        elif path.decide(z3.Extract(7, 3, b) == 30):
            c = z3.Concat(z3.Extract(2, 0, b), cont(i + 1), cont(i + 2), cont(i + 3)) - z3.BitVecVal(0x10000, 21)
            out.append(simp(z3.Concat(z3.BitVecVal(0x36, 6), z3.Extract(19, 10, c))))
            out.append(simp(z3.Concat(z3.BitVecVal(0x37, 6), z3.Extract(9, 0, c))))
            i += 4
        else:
            raise Unsupported("text which is not valid UTF-8")
    return out


# ---------------------------------------------------------------- the interpreter
class Env:
    __slots__ = ("vars", "parent", "this")

    def __init__(self, parent, this):
        self.vars, self.parent, self.this = {}, parent, this


def hoist(node, names, funs):
    """var and function declarations of a function body"""
    if isinstance(node, list):
        for x in node:
            hoist(x, names, funs)
        return
    if not isinstance(node, dict):
        return
    t = node.get("type")
    if t == "FunctionDeclaration":
        funs.append(node)
        return
    if t in ("FunctionExpression", "ArrowFunctionExpression"):
        return
    if t == "VariableDeclaration":
        if node["kind"] != "var":
            raise Unsupported("declaration with " + node["kind"])
        for d in node["declarations"]:
            names.append(d["id"]["name"])
    for k, v in node.items():
        if k != "loc" and isinstance(v, (dict, list)):
            hoist(v, names, funs)


MAX_ARGUMENTS = 125000  # what an engine (V8) accepts in one call


class World:
    """the interpreter and the browser around the script"""

    def __init__(self, path, max_steps):
        self.path, self.max_steps = path, max_steps
        self.obs, self.socket, self.functions = [], None, set()
        self.objectProto = Obj()
        self.functionProto = Fn(self.objectProto, "")
        self.arrayProto = Obj(self.objectProto)
        self.errorProto = Obj(self.objectProto)
        self.bufferProto = Obj(self.objectProto)
        self.typedProto = Obj(self.objectProto)
        self.viewProto = Obj(self.objectProto)
        self.encoderProto = Obj(self.objectProto)
        self.decoderProto = Obj(self.objectProto)
        self.socketProto = Obj(self.objectProto)
        self.window = Obj(self.objectProto, "Window")
        self.env = Env(None, self.window)
        self.browser()

    # ---- helpers
    def native(self, name, f):
        return Fn(self.functionProto, name, native=f)

    def throw(self, kind, text):
        e = Obj(self.errorProto, "Error")
        e.props["name"], e.props["message"] = kind, text
        raise JSThrow(e)

    def array(self, items):
        return Arr(self.arrayProto, items)

    def integer(self, v, default=0):
        if v is UNDEF:
            return default
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        if isinstance(v, float):
            return int(v) if math.isfinite(v) else 0
        if isinstance(v, SInt):
            return self.path.value(v.e)
        if isinstance(v, SBool):
            return int(self.path.decide(v.e))
        raise Unsupported("integer of " + type(v).__name__)

    def low(self, v, bits):
        """ToInt8 and the like"""
        if isinstance(v, SInt):
            return simp(z3.Extract(bits - 1, 0, v.e))
        if isinstance(v, SBool):
            return simp(z3.If(v.e, z3.BitVecVal(1, bits), z3.BitVecVal(0, bits)))
        if v is None or v is UNDEF:
            return 0
        return self.integer(v) & ((1 << bits) - 1)

    def truthy(self, v):
        if v is UNDEF or v is None:
            return False
        if isinstance(v, SBool):
            return self.path.decide(v.e)
        if isinstance(v, SInt):
            return self.path.decide(v.e != 0)
        if isinstance(v, SF64):
            return self.path.decide(z3.Extract(62, 0, v.e) != 0)
        if isinstance(v, SStr):
            return True
        if isinstance(v, float):
            return not (v == 0 or v != v)
        if isinstance(v, (bool, int, str)):
            return bool(v)
        return True

    def typeof(self, v):
        if v is UNDEF:
            return "undefined"
        if isinstance(v, (bool, SBool)):
            return "boolean"
        if isinstance(v, (int, float, SInt, SF64)):
            return "number"
        if isinstance(v, (str, SStr)):
            return "string"
        return "function" if isinstance(v, Fn) else "object"

    def text(self, v):
        if isinstance(v, (str, SStr)):
            return v
        if v is UNDEF:
            return "undefined"
        if v is None:
            return "null"
        if isinstance(v, bool):
            return "true" if v else "false"
        if isinstance(v, int):
            return str(v)
        if isinstance(v, SBool):
            return "true" if self.path.decide(v.e) else "false"
        if isinstance(v, SInt):
            return str(self.path.value(v.e))
        if isinstance(v, Arr):
            out = []
            for i, x in enumerate(v.items):
                out += units("," if i else "") + units("" if x is UNDEF or x is None else self.text(x))
            return mkstr(out)
        if isinstance(v, Obj):
            if isinstance(v, Fn):
                return "function"
            f = self.get(v, "toString")
            return self.call(f, v, [])
        raise Unsupported("text of " + type(v).__name__)

    def concat(self, a, b):
        return a + b if isinstance(a, str) and isinstance(b, str) else mkstr(units(a) + units(b))

    def strict(self, a, b):
        """a === b: a bool or an SBool"""
        ta, tb = self.typeof(a), self.typeof(b)
        if ta != tb:
            return False
        if ta == "boolean":
            if isinstance(a, bool) and isinstance(b, bool):
                return a == b
            return self.sb((a.e if isinstance(a, SBool) else z3.BoolVal(a)) == (b.e if isinstance(b, SBool) else z3.BoolVal(b)))
        if ta == "number":
            if isinstance(a, (int, float)) and isinstance(b, (int, float)):
                return a == b
            if isinstance(a, SF64) or isinstance(b, SF64):
                f = [z3.fpBVToFP(x.e, z3.Float64()) if isinstance(x, SF64) else z3.FPVal(float(x), z3.Float64()) if isinstance(x, (int, float)) else z3.fpSignedToFP(z3.RNE(), x.e, z3.Float64()) for x in (a, b)]
                return self.sb(z3.fpEQ(f[0], f[1]))
            if isinstance(a, float) or isinstance(b, float):
                return False
            return self.sb(bv(a.e if isinstance(a, SInt) else a, 64) == bv(b.e if isinstance(b, SInt) else b, 64))
        if ta == "string":
            if isinstance(a, str) and isinstance(b, str):
                return a == b
            x, y = units(a), units(b)
            if len(x) != len(y):
                return False
            return self.sb(z3.And([bv(p, 16) == bv(q, 16) for p, q in zip(x, y)]))
        return a is b

    def sb(self, e):
        e = z3.simplify(e)
        return True if z3.is_true(e) else False if z3.is_false(e) else SBool(e)

    def neg(self, v):
        return not v if isinstance(v, bool) else self.sb(z3.Not(v.e))

    def loose(self, a, b):
        if (a is UNDEF or a is None) or (b is UNDEF or b is None):
            return (a is UNDEF or a is None) and (b is UNDEF or b is None)
        if self.typeof(a) == self.typeof(b) or isinstance(a, Obj) and isinstance(b, Obj):
            return self.strict(a, b)
        num = lambda v: isinstance(v, (bool, SBool, int, SInt)) and True
        if num(a) and num(b):
            f = lambda v: SInt(z3.If(v.e, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))) if isinstance(v, SBool) else int(v) if isinstance(v, bool) else v
            return self.strict(f(a), f(b))
        raise Unsupported("== between different types")

    # ---- properties
    def key(self, k):
        if isinstance(k, (int, str, SStr)) and not isinstance(k, bool):
            return k
        if isinstance(k, SInt):
            return self.path.value(k.e)
        if isinstance(k, float) and k == int(k):
            return int(k)
        return self.text(k)

    def lookup(self, o, k):
        while o is not None:
            if k in o.props:
                return o
            o = o.proto
        return None

    def get(self, o, k):
        k = self.key(k)
        if o is UNDEF or o is None:
            self.throw("TypeError", "Cannot read properties of undefined")
        if isinstance(k, str) and k.isdigit() and str(int(k)) == k:
            k = int(k)
        if isinstance(k, SStr):
            us, seen, p = units(k), set(), o
            while isinstance(p, Obj):
                for name in list(p.props):
                    if isinstance(name, str) and name not in seen and len(units(name)) == len(us):
                        seen.add(name)
                        r = self.strict(k, name)
                        if self.truthy(r):
                            return self.get(o, name)
                p = p.proto
            return UNDEF
        if isinstance(o, (str, SStr)):
            if k == "length":
                return len(units(o))
            if isinstance(k, int):
                u = units(o)
                return mkstr([u[k]]) if 0 <= k < len(u) else UNDEF
            f = self.strings.get(k)
            return f if f else UNDEF
        if isinstance(o, Arr):
            if k == "length":
                return len(o.items)
            if isinstance(k, int):
                return o.items[k] if 0 <= k < len(o.items) else UNDEF
        elif isinstance(o, Typed):
            if k == "length":
                return o.length
            if k == "buffer":
                return o.buf
            if k == "byteLength":
                return o.length * o.size
            if k == "byteOffset":
                return o.off
            if isinstance(k, int):
                return self.load(o.buf, o.off + k * o.size, o.size, True) if 0 <= k < o.length else UNDEF
        elif isinstance(o, View):
            if k in ("buffer", "byteOffset", "byteLength"):
                return {"buffer": o.buf, "byteOffset": o.off, "byteLength": o.length}[k]
        elif isinstance(o, Buffer):
            if k == "byteLength":
                return len(o.data)
        elif isinstance(o, Fn):
            if k == "prototype" and k not in o.props and o.node is not None:
                p = Obj(self.objectProto)
                p.props["constructor"] = o
                o.props["prototype"] = p
            if k == "name":
                return o.name
        elif not isinstance(o, Obj):
            f = self.lookup(self.objectProto, k)
            return f.props[k] if f else UNDEF
        f = self.lookup(o, k)
        return f.props[k] if f else UNDEF

    def put(self, o, k, v):
        k = self.key(k)
        if o is UNDEF or o is None:
            self.throw("TypeError", "Cannot set properties of undefined")
        if not isinstance(o, Obj):
            return
        if isinstance(k, SStr):
            raise Unsupported("property with a symbolic name written")
        if isinstance(o, Arr):
            if isinstance(k, int) and k >= 0:
                if k > len(o.items) + 10000:
                    raise Unsupported("sparse array")
                while len(o.items) <= k:
                    o.items.append(UNDEF)
                o.items[k] = v
                return
            if k == "length":
                raise Unsupported("length of an array written")
        if isinstance(o, Typed):
            if isinstance(k, int):
                if 0 <= k < o.length:
                    self.store(o.buf, o.off + k * o.size, o.size, True, self.low(v, 8 * o.size))
                return
        o.props[k] = v

    # ---- memory
    def little(self, v):
        return self.truthy(v)

    def load(self, buf, off, n, little):
        d = buf.data[off:off + n]
        if little:
            d = d[::-1]
        if all(isinstance(x, int) for x in d):
            r = 0
            for x in d:
                r = r << 8 | x
            return r
        e = z3.Concat([bv(x, 8) for x in d]) if n > 1 else bv(d[0], 8)
        r = simp(z3.ZeroExt(64 - 8 * n, e)) if n < 8 else simp(e)
        return r if isinstance(r, int) else SInt(r)

    def store(self, buf, off, n, little, v):
        if isinstance(v, int):
            d = [(v >> (8 * i)) & 255 for i in range(n)]
        else:
            d = [simp(z3.Extract(8 * i + 7, 8 * i, v)) for i in range(n)]
        buf.data[off:off + n] = d if little else d[::-1]

    # ---- calls
    def call(self, f, this, args):
        if not isinstance(f, Fn):
            self.throw("TypeError", "not a function")
        if f.native:
            return f.native(this, args)
        if this is UNDEF or this is None:
            this = self.window
        node = f.node
        self.functions.add(f.name or "(anonymous at line %d)" % node["loc"]["start"]["line"])
        env = Env(f.env, this)
        hs = node.get("_hoisted")
        if hs is None:
            names, funs = [], []
            hoist(node["body"]["body"], names, funs)
            hs = node["_hoisted"] = (names, funs)
        for n in hs[0]:
            env.vars[n] = UNDEF
        if node.get("id") and node["type"] == "FunctionExpression":
            env.vars[node["id"]["name"]] = f
        for i, p in enumerate(node["params"]):
            if p["type"] != "Identifier":
                raise Unsupported("parameter " + p["type"])
            env.vars[p["name"]] = args[i] if i < len(args) else UNDEF
        if "arguments" not in env.vars:
            env.vars["arguments"] = self.array(list(args))
        for n in hs[1]:
            env.vars[n["id"]["name"]] = self.function(n, env)
        try:
            for s in node["body"]["body"]:
                self.run(s, env)
        except ReturnX as r:
            return r.value
        except RecursionError:
            self.throw("RangeError", "Maximum call stack size exceeded")
        return UNDEF

    def construct(self, f, args):
        if not isinstance(f, Fn):
            self.throw("TypeError", "not a constructor")
        if f.native:
            return f.native(None, args)
        p = self.get(f, "prototype")
        o = Obj(p if isinstance(p, Obj) else self.objectProto)
        r = self.call(f, o, args)
        return r if isinstance(r, Obj) else o

    def function(self, node, env):
        return Fn(self.functionProto, node["id"]["name"] if node.get("id") else "", node, env)

    # ---- statements
    def step(self):
        p = self.path
        p.steps += 1
        if p.steps & 0xfff == 0 and (p.steps > self.max_steps or time.time() > p.deadline):
            raise OutOfSteps()

    def program(self, tree):
        names, funs = [], []
        hoist(tree["body"], names, funs)
        for n in names:
            self.window.props.setdefault(n, UNDEF)
        for n in funs:
            self.window.props[n["id"]["name"]] = self.function(n, self.env)
        for s in tree["body"]:
            self.run(s, self.env)

    def run(self, s, env):
        self.step()
        return getattr(self, "s_" + s["type"], self.s_unknown)(s, env)

    def s_unknown(self, s, env):
        raise Unsupported("statement " + s["type"])

    def s_ExpressionStatement(self, s, env):
        self.ev(s["expression"], env)

    def s_EmptyStatement(self, s, env):
        pass

    def s_BlockStatement(self, s, env):
        for x in s["body"]:
            self.run(x, env)

    def s_FunctionDeclaration(self, s, env):
        pass

    def s_VariableDeclaration(self, s, env):
        for d in s["declarations"]:
            if d["init"]:
                v = self.ev(d["init"], env)
                if isinstance(v, Fn) and not v.name and d["init"]["type"] == "FunctionExpression":
                    v.name = d["id"]["name"]
                self.assign(d["id"], v, env)

    def s_IfStatement(self, s, env):
        if self.truthy(self.ev(s["test"], env)):
            self.run(s["consequent"], env)
        elif s["alternate"]:
            self.run(s["alternate"], env)

    def s_ReturnStatement(self, s, env):
        raise ReturnX(self.ev(s["argument"], env) if s["argument"] else UNDEF)

    def s_BreakStatement(self, s, env):
        if s["label"]:
            raise Unsupported("label")
        raise BreakX()

    def s_ContinueStatement(self, s, env):
        if s["label"]:
            raise Unsupported("label")
        raise ContinueX()

    def s_ThrowStatement(self, s, env):
        raise JSThrow(self.ev(s["argument"], env))

    def s_ForStatement(self, s, env):
        if s["init"]:
            if s["init"]["type"] == "VariableDeclaration":
                self.run(s["init"], env)
            else:
                self.ev(s["init"], env)
        while not s["test"] or self.truthy(self.ev(s["test"], env)):
            try:
                self.run(s["body"], env)
            except BreakX:
                return
            except ContinueX:
                pass
            if s["update"]:
                self.ev(s["update"], env)

    def s_WhileStatement(self, s, env):
        while self.truthy(self.ev(s["test"], env)):
            try:
                self.run(s["body"], env)
            except BreakX:
                return
            except ContinueX:
                pass

    def s_ForInStatement(self, s, env):
        o = self.ev(s["right"], env)
        names = []
        if isinstance(o, Arr):
            names = [str(i) for i in range(len(o.items))]
        if isinstance(o, Fn):
            names = [k for k in o.props if k != "prototype"]
        elif isinstance(o, Obj):
            names += list(o.props)
        left = s["left"]["declarations"][0]["id"] if s["left"]["type"] == "VariableDeclaration" else s["left"]
        for n in names:
            self.assign(left, n, env)
            try:
                self.run(s["body"], env)
            except BreakX:
                return
            except ContinueX:
                pass

    def s_SwitchStatement(self, s, env):
        v = self.ev(s["discriminant"], env)
        start = None
        for i, c in enumerate(s["cases"]):
            if c["test"] and self.truthy(self.strict(v, self.ev(c["test"], env))):
                start = i
                break
        if start is None:
            start = next((i for i, c in enumerate(s["cases"]) if not c["test"]), None)
        if start is None:
            return
        try:
            for c in s["cases"][start:]:
                for x in c["consequent"]:
                    self.run(x, env)
        except BreakX:
            pass

    def s_TryStatement(self, s, env):
        try:
            try:
                self.run(s["block"], env)
            except JSThrow as t:
                if not s["handler"]:
                    raise
                e = Env(env, env.this)
                if s["handler"]["param"]:
                    e.vars[s["handler"]["param"]["name"]] = t.value
                self.run(s["handler"]["body"], e)
        finally:
            if s["finalizer"]:
                self.run(s["finalizer"], env)

    # ---- expressions
    def ev(self, n, env):
        return getattr(self, "e_" + n["type"], self.e_unknown)(n, env)

    def e_unknown(self, n, env):
        raise Unsupported("expression " + n["type"])

    def e_Literal(self, n, env):
        if "regex" in n:
            raise Unsupported("regular expression")
        v = n["value"]
        return int(v) if isinstance(v, float) and v == int(v) else v

    def e_Identifier(self, n, env):
        name = n["name"]
        while env is not None:
            if name in env.vars:
                return env.vars[name]
            env = env.parent
        if name in self.window.props:
            return self.window.props[name]
        if name == "undefined":
            return UNDEF
        self.throw("ReferenceError", name + " is not defined")

    def e_ThisExpression(self, n, env):
        return env.this

    def e_ArrayExpression(self, n, env):
        if any(x is None or x["type"] == "SpreadElement" for x in n["elements"]):
            raise Unsupported("array literal")
        return self.array([self.ev(x, env) for x in n["elements"]])

    def e_ObjectExpression(self, n, env):
        o = Obj(self.objectProto)
        for p in n["properties"]:
            if p["type"] != "Property" or p["kind"] != "init" or p["computed"]:
                raise Unsupported("object literal")
            k = p["key"]["name"] if p["key"]["type"] == "Identifier" else str(p["key"]["value"])
            v = self.ev(p["value"], env)
            if k == "__proto__":
                o.proto = v if isinstance(v, Obj) else None
            else:
                o.props[k] = v
        return o

    def e_FunctionExpression(self, n, env):
        return self.function(n, env)

    def e_SequenceExpression(self, n, env):
        v = UNDEF
        for x in n["expressions"]:
            v = self.ev(x, env)
        return v

    def e_ConditionalExpression(self, n, env):
        c = self.ev(n["test"], env)
        return self.ev(n["consequent"] if self.truthy(c) else n["alternate"], env)

    def e_LogicalExpression(self, n, env):
        a = self.ev(n["left"], env)
        if n["operator"] == "||":
            return a if self.truthy(a) else self.ev(n["right"], env)
        if n["operator"] == "&&":
            return self.ev(n["right"], env) if self.truthy(a) else a
        raise Unsupported("operator " + n["operator"])

    def e_MemberExpression(self, n, env):
        return self.get(*self.member(n, env))

    def member(self, n, env):
        o = self.ev(n["object"], env)
        return o, self.ev(n["property"], env) if n["computed"] else n["property"]["name"]

    def e_CallExpression(self, n, env):
        c = n["callee"]
        this = UNDEF
        if c["type"] == "MemberExpression":
            this, k = self.member(c, env)
            f = self.get(this, k)
        else:
            f = self.ev(c, env)
        args = [self.ev(a, env) for a in n["arguments"]]
        return self.call(f, this, args)

    def e_NewExpression(self, n, env):
        f = self.ev(n["callee"], env)
        return self.construct(f, [self.ev(a, env) for a in n["arguments"]])

    def e_UnaryExpression(self, n, env):
        op = n["operator"]
        if op == "typeof":
            if n["argument"]["type"] == "Identifier":
                try:
                    return self.typeof(self.ev(n["argument"], env))
                except JSThrow:
                    return "undefined"
            return self.typeof(self.ev(n["argument"], env))
        v = self.ev(n["argument"], env)
        if op == "!":
            if isinstance(v, SBool):
                return self.neg(v)
            return not self.truthy(v)
        if op == "void":
            return UNDEF
        if op == "-" and isinstance(v, (int, float)):
            return -v if v != 0 or isinstance(v, float) else -0.0
        if op == "+" and isinstance(v, (int, float, SInt, SF64)):
            return int(v) if isinstance(v, bool) else v
        if op == "~" and isinstance(v, int):
            return ~v
        raise Unsupported("operator " + op)

    def assign(self, t, v, env):
        if t["type"] == "Identifier":
            name, e = t["name"], env
            while e is not None:
                if name in e.vars:
                    e.vars[name] = v
                    return
                e = e.parent
            self.window.props[name] = v
        elif t["type"] == "MemberExpression":
            o, k = self.member(t, env)
            self.put(o, k, v)
        else:
            raise Unsupported("assignment to " + t["type"])

    def e_AssignmentExpression(self, n, env):
        t, op = n["left"], n["operator"]
        if t["type"] == "MemberExpression":
            o, k = self.member(t, env)
            v = self.ev(n["right"], env) if op == "=" else self.binary(op[:-1], self.get(o, k), self.ev(n["right"], env))
            self.put(o, k, v)
            return v
        v = None
        if op == "=":
            v = self.ev(n["right"], env)
        else:
            a = self.ev(t, env)
            v = self.binary(op[:-1], a, self.ev(n["right"], env))
        self.assign(t, v, env)
        return v

    def e_UpdateExpression(self, n, env):
        t = n["argument"]
        d = 1 if n["operator"] == "++" else -1
        if t["type"] == "MemberExpression":
            o, k = self.member(t, env)
            a = self.get(o, k)
            b = self.binary("+", a, d)
            self.put(o, k, b)
        else:
            a = self.ev(t, env)
            b = self.binary("+", a, d)
            self.assign(t, b, env)
        return b if n["prefix"] else a

    def e_BinaryExpression(self, n, env):
        a = self.ev(n["left"], env)
        return self.binary(n["operator"], a, self.ev(n["right"], env))

    def binary(self, op, a, b):
        if op == "===":
            return self.strict(a, b)
        if op == "!==":
            return self.neg(self.strict(a, b))
        if op == "==":
            return self.loose(a, b)
        if op == "!=":
            return self.neg(self.loose(a, b))
        if op == "instanceof":
            p = self.get(b, "prototype")
            o = a.proto if isinstance(a, Obj) else None
            while o is not None:
                if o is p:
                    return True
                o = o.proto
            return False
        if op == "in":
            k = self.key(a)
            if isinstance(b, Arr) and (isinstance(k, int) or isinstance(k, str) and k.isdigit()):
                return 0 <= int(k) < len(b.items)
            return self.lookup(b, k) is not None
        if op == "+":
            if isinstance(a, Obj):
                a = self.text(a)
            if isinstance(b, Obj):
                b = self.text(b)
            if isinstance(a, (str, SStr)) or isinstance(b, (str, SStr)):
                return self.concat(self.text(a), self.text(b))
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            if op in ("&", "|", "^", "<<", ">>", ">>>"):
                x, y = int(a) & 0xffffffff, int(b) & 0xffffffff
                sx = x - (1 << 32) if x >> 31 else x
                if op == ">>>":
                    return x >> (y & 31)
                r = {"&": x & y, "|": x | y, "^": x ^ y, "<<": x << (y & 31), ">>": sx >> (y & 31)}[op] & 0xffffffff
                return r - (1 << 32) if r >> 31 else r
            if op == "+":
                r = a + b
            elif op == "-":
                r = a - b
            elif op == "*":
                r = a * b
            elif op == "/":
                if b == 0:
                    r = math.nan if a == 0 or a != a else math.inf if a > 0 else -math.inf
                else:
                    r = a / b
            elif op == "%":
                r = math.nan if b == 0 else math.fmod(a, b)
            elif op in ("<", ">", "<=", ">="):
                return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]
            else:
                raise Unsupported("operator " + op)
            return int(r) if isinstance(r, float) and math.isfinite(r) and r == int(r) and (r or math.copysign(1, r) > 0) else r
        if isinstance(a, (int, SInt)) and isinstance(b, (int, SInt)):
            x, y = bv(a.e if isinstance(a, SInt) else a, 64), bv(b.e if isinstance(b, SInt) else b, 64)
            if op in ("<", ">", "<=", ">="):
                return self.sb({"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[op])
            if op in ("+", "-", "*"):
                r = simp({"+": x + y, "-": x - y, "*": x * y}[op])
                return r - (1 << 64) if isinstance(r, int) and r >> 63 else r if isinstance(r, int) else SInt(r)
            if op in ("&", "|", "^"):
                x, y = z3.Extract(31, 0, x), z3.Extract(31, 0, y)
                r = simp(z3.SignExt(32, {"&": x & y, "|": x | y, "^": x ^ y}[op]))
                return r - (1 << 64) if isinstance(r, int) and r >> 63 else r if isinstance(r, int) else SInt(r)
            # other operators: one value at a time
            return self.binary(op, self.integer(a), self.integer(b))
        raise Unsupported("operator %s on %s and %s" % (op, type(a).__name__, type(b).__name__))

    # ---- the language's and the browser's objects
    def items(self, v):
        if isinstance(v, Arr):
            return list(v.items)
        if isinstance(v, Typed):
            return [self.get(v, i) for i in range(v.length)]
        if v is UNDEF or v is None:
            return []
        raise Unsupported("list of arguments")

    def browser(self):
        w, N = self.window.props, self.native
        w["window"] = self.window
        op = self.objectProto.props
        op["hasOwnProperty"] = N("hasOwnProperty", lambda t, a: self.key(a[0]) in t.props)
        op["toString"] = N("toString", lambda t, a: "[object Object]" if not isinstance(t, Arr) else self.text(t))
        obj = N("Object", lambda t, a: Obj(self.objectProto))
        w["Object"] = obj

        def set_proto(t, a):
            a[0].proto = a[1]
            return a[0]
        obj.props.update({"prototype": self.objectProto, "setPrototypeOf": N("setPrototypeOf", set_proto), "create": N("create", lambda t, a: Obj(a[0]))})
        # functions
        fp = self.functionProto.props

        def apply(t, a):
            args = self.items(a[1] if len(a) > 1 else UNDEF)
            if len(args) > MAX_ARGUMENTS:
                self.throw("RangeError", "Maximum call stack size exceeded")
            return self.call(t, a[0] if a else UNDEF, args)

        def bind(t, a):
            this, first = a[0] if a else UNDEF, a[1:]
            return N("bound", lambda t2, b: self.call(t, this, list(first) + list(b)))
        fp.update({"apply": N("apply", apply), "call": N("call", lambda t, a: self.call(t, a[0] if a else UNDEF, a[1:])), "bind": N("bind", bind)})
        # arrays
        ap = self.arrayProto.props

        def for_each(t, a):
            for i, x in enumerate(self.items(t)):
                self.call(a[0], a[1] if len(a) > 1 else UNDEF, [x, i, t])
            return UNDEF

        def push(t, a):
            t.items.extend(a)
            return len(t.items)

        def slice_list(t, a):
            if isinstance(t, Typed):
                n = t.length
            else:
                n = len(self.items(t))
            s, e = self.integer(a[0] if a else UNDEF, 0), self.integer(a[1] if len(a) > 1 else UNDEF, n)
            s, e = (max(0, n + s) if s < 0 else min(s, n)), (max(0, n + e) if e < 0 else min(e, n))
            return s, max(s, e)

        def slice_array(t, a):
            s, e = slice_list(t, a)
            return self.array(self.items(t)[s:e])

        def concat(t, a):
            out = list(t.items)
            for x in a:
                out += x.items if isinstance(x, Arr) else [x]
            return self.array(out)

        def mapped(t, a):
            return self.array([self.call(a[0], a[1] if len(a) > 1 else UNDEF, [x, i, t]) for i, x in enumerate(self.items(t))])

        def reduced(t, a):
            l = self.items(t)
            acc = a[1] if len(a) > 1 else l.pop(0)
            for i, x in enumerate(l):
                acc = self.call(a[0], UNDEF, [acc, x, i, t])
            return acc

        def joined(t, a):
            out, sep = [], units(self.text(a[0])) if a else units(",")
            for i, x in enumerate(t.items):
                out += (sep if i else []) + units(self.text(x))
            return mkstr(out)
        ap.update({"forEach": N("forEach", for_each), "push": N("push", push), "pop": N("pop", lambda t, a: t.items.pop() if t.items else UNDEF), "shift": N("shift", lambda t, a: t.items.pop(0) if t.items else UNDEF),
                   "slice": N("slice", slice_array), "concat": N("concat", concat), "map": N("map", mapped), "reduce": N("reduce", reduced), "join": N("join", joined)})
        arr = N("Array", lambda t, a: self.array(list(a)) if len(a) != 1 else self.array([UNDEF] * self.integer(a[0])))
        arr.props.update({"prototype": self.arrayProto, "isArray": N("isArray", lambda t, a: isinstance(a[0], Arr))})
        w["Array"] = arr
        # texts
        def s_concat(t, a):
            r = t
            for x in a:
                r = self.concat(r, self.text(x))
            return r

        def split(t, a):
            sep = units(a[0])
            if len(sep) != 1 or not isinstance(sep[0], int):
                raise Unsupported("split")
            out, cur = [], []
            for u in units(t):
                if (u == sep[0]) if isinstance(u, int) else self.path.decide(u == sep[0]):
                    out.append(mkstr(cur))
                    cur = []
                else:
                    cur.append(u)
            return self.array(out + [mkstr(cur)])
        self.strings = {"concat": N("concat", s_concat), "split": N("split", split), "toString": N("toString", lambda t, a: t)}
        w["String"] = N("String", lambda t, a: self.text(a[0]) if a else "")
        # errors
        self.errorProto.props.update({"name": "Error", "message": "", "toString": N("toString", lambda t, a: self.concat(self.concat(self.text(self.get(t, "name")), ": "), self.text(self.get(t, "message"))))})
        for kind in ("Error", "TypeError", "RangeError"):
            def make(t, a, kind=kind):
                e = Obj(self.errorProto, "Error")
                e.props["name"] = kind
                e.props["message"] = self.text(a[0]) if a else ""
                return e
            f = N(kind, make)
            f.props["prototype"] = self.errorProto
            w[kind] = f
        # memory
        def buffer(t, a):
            n = self.integer(a[0] if a else UNDEF)
            if n > 1 << 24:
                raise Unsupported("large memory")
            return Buffer(self.bufferProto, [0] * n)
        w["ArrayBuffer"] = N("ArrayBuffer", buffer)

        def bslice(t, a):
            n = len(t.data)
            s, e = self.integer(a[0] if a else UNDEF, 0), self.integer(a[1] if len(a) > 1 else UNDEF, n)
            s, e = (max(0, n + s) if s < 0 else min(s, n)), (max(0, n + e) if e < 0 else min(e, n))
            return Buffer(self.bufferProto, t.data[s:max(s, e)])
        self.bufferProto.props["slice"] = N("slice", bslice)

        def typed(size):
            def make(t, a):
                x = a[0] if a else UNDEF
                if isinstance(x, Buffer):
                    off = self.integer(a[1] if len(a) > 1 else UNDEF)
                    rest = len(x.data) - off
                    n = self.integer(a[2]) if len(a) > 2 and a[2] is not UNDEF else rest // size
                    if off % size or off > len(x.data) or n * size > rest or n < 0 or (len(a) < 3 and rest % size):
                        self.throw("RangeError", "Invalid typed array length")
                    return Typed(self.typedProto, size, x, off, n)
                if isinstance(x, (Arr, Typed)):
                    l = self.items(x)
                    r = Typed(self.typedProto, size, Buffer(self.bufferProto, [0] * (size * len(l))), 0, len(l))
                    for i, v in enumerate(l):
                        self.put(r, i, v)
                    return r
                n = self.integer(x)
                if n > 1 << 24:
                    raise Unsupported("large memory")
                return Typed(self.typedProto, size, Buffer(self.bufferProto, [0] * (size * n)), 0, n)
            return make
        for name, size in (("Uint8Array", 1), ("Uint16Array", 2), ("Uint32Array", 4)):
            w[name] = N(name, typed(size))

        def tslice(t, a, share=False):
            s, e = slice_list(t, a)
            if share:
                return Typed(self.typedProto, t.size, t.buf, t.off + s * t.size, e - s)
            return Typed(self.typedProto, t.size, Buffer(self.bufferProto, t.buf.data[t.off + s * t.size:t.off + e * t.size]), 0, e - s)

        def tset(t, a):
            l, off = self.items(a[0]), self.integer(a[1] if len(a) > 1 else UNDEF)
            if off + len(l) > t.length:
                self.throw("RangeError", "offset is out of bounds")
            for i, v in enumerate(l):
                self.put(t, off + i, v)
            return UNDEF
        self.typedProto.props.update({"slice": N("slice", tslice), "subarray": N("subarray", lambda t, a: tslice(t, a, True)), "forEach": N("forEach", for_each), "set": N("set", tset)})

        def view(t, a):
            if not isinstance(a[0], Buffer):
                self.throw("TypeError", "First argument to DataView constructor must be an ArrayBuffer")
            off = self.integer(a[1] if len(a) > 1 else UNDEF)
            n = self.integer(a[2]) if len(a) > 2 and a[2] is not UNDEF else len(a[0].data) - off
            if off < 0 or n < 0 or off + n > len(a[0].data):
                self.throw("RangeError", "Invalid DataView length")
            return View(self.viewProto, a[0], off, n)
        w["DataView"] = N("DataView", view)

        def at(t, off, n):
            off = self.integer(off)
            if off < 0 or off + n > t.length:
                self.throw("RangeError", "Offset is outside the bounds of the DataView")
            return t.off + off

        def getter(n, signed):
            def g(t, a):
                o = at(t, a[0], n)
                v = self.load(t.buf, o, n, n == 1 or self.little(a[1] if len(a) > 1 else UNDEF))
                if signed:
                    if isinstance(v, int):
                        return v - (1 << 8 * n) if v >> (8 * n - 1) else v
                    return SInt(z3.SignExt(64 - 8 * n, z3.Extract(8 * n - 1, 0, v.e)))
                return v
            return g

        def setter(n):
            def s(t, a):
                o = at(t, a[0], n)
                self.store(t.buf, o, n, n == 1 or self.little(a[2] if len(a) > 2 else UNDEF), self.low(a[1], 8 * n))
                return UNDEF
            return s

        def get64(t, a):
            o = at(t, a[0], 8)
            v = self.load(t.buf, o, 8, self.little(a[1] if len(a) > 1 else UNDEF))
            if isinstance(v, int):
                f = struct.unpack(">d", struct.pack(">Q", v))[0]
                return int(f) if math.isfinite(f) and f == int(f) and (f or not v >> 63) else f
            return SF64(v.e)

        def set64(t, a):
            o = at(t, a[0], 8)
            v = a[1]
            if isinstance(v, SF64):
                b = v.e
            elif isinstance(v, (int, float)):
                b = struct.unpack(">Q", struct.pack(">d", float(v)))[0]
            else:
                raise Unsupported("setFloat64 of " + type(v).__name__)
            self.store(t.buf, o, 8, self.little(a[2] if len(a) > 2 else UNDEF), b)
            return UNDEF
        vp = self.viewProto.props
        for n, b in ((8, 1), (16, 2), (32, 4)):
            vp["getUint%d" % n], vp["getInt%d" % n] = N("getUint", getter(b, False)), N("getInt", getter(b, True))
            vp["setUint%d" % n] = vp["setInt%d" % n] = N("setInt", setter(b))
        vp["getFloat64"], vp["setFloat64"] = N("getFloat64", get64), N("setFloat64", set64)

        # texts and bytes
        def encode(t, a):
            d = utf8(self.path, units(self.text(a[0]) if a else ""))
            return Typed(self.typedProto, 1, Buffer(self.bufferProto, d), 0, len(d))

        def decode(t, a):
            x = a[0] if a else UNDEF
            d = x.data if isinstance(x, Buffer) else x.buf.data[x.off:x.off + (x.length * x.size if isinstance(x, Typed) else x.length)] if isinstance(x, (Typed, View)) else []
            return mkstr(from_utf8(self.path, d, t.props.get("ignoreBOM") is True))
        w["TextEncoder"] = N("TextEncoder", lambda t, a: Obj(self.encoderProto))

        def decoder(t, a):
            if a and (not isinstance(a[0], str) or a[0].lower() not in ("utf-8", "utf8")):
                raise Unsupported("TextDecoder of another encoding")
            o = Obj(self.decoderProto)
            if len(a) > 1 and isinstance(a[1], Obj):
                o.props["ignoreBOM"] = self.truthy(self.get(a[1], "ignoreBOM"))
            return o
        w["TextDecoder"] = N("TextDecoder", decoder)
        self.encoderProto.props["encode"] = N("encode", encode)
        self.decoderProto.props["decode"] = N("decode", decode)
        # the page
        def value(v):
            return [value(x) for x in v.items] if isinstance(v, Arr) else v
        self.value = value

        def rec(name, self_of, then=None):
            def f(t, a):
                self.obs.append(("call", name, "self" if t is self_of() or (t is UNDEF and self_of() is self.window) else "other", [value(x) for x in a]))
                return then(a) if then else UNDEF
            return N(name, f)
        w["location"] = Obj(self.objectProto)
        w["location"].props["port"] = "8080"
        console = Obj(self.objectProto)
        console.props["log"] = N("log", lambda t, a: self.obs.append(("log", [value(x) for x in a])) or UNDEF)
        console.props["error"] = N("error", lambda t, a: self.obs.append(("error",)) or UNDEF)
        w["console"] = console
        doc, body = Obj(self.objectProto), Obj(self.objectProto)

        def create(t, a):
            e = Obj(self.objectProto)
            e.props["element"] = a[0]
            return e
        doc.props["createElement"] = N("createElement", create)
        doc.props["body"] = body
        body.props["appendChild"] = N("appendChild", lambda t, a: self.obs.append(("script", a[0].props.get("element"), a[0].props.get("text", UNDEF))) or a[0])
        w["document"] = doc
        w["f"] = rec("f", lambda: self.window)
        w["grow"] = rec("grow", lambda: self.window)
        ns, deep = Obj(self.objectProto), Obj(self.objectProto)
        w["ns"] = ns
        ns.props["f"] = rec("ns.f", lambda: ns)
        ns.props["deep"] = deep
        deep.props["h"] = rec("ns.deep.h", lambda: deep)
        w["bad"] = rec("bad", lambda: self.window, lambda a: self.throw("Error", "bad"))
        w["relay"] = rec("relay", lambda: self.window, lambda a: self.cpp("back", a))

        def socket(t, a):
            s = Obj(self.socketProto)
            s.props["binaryType"] = "blob"
            self.socket = s
            self.obs.append(("socket", a[0], a[1] if len(a) > 1 else UNDEF))
            return s

        def send(t, a):
            x = a[0]
            if isinstance(x, Buffer):
                d = list(x.data)
            elif isinstance(x, (Typed, View)):
                d = x.buf.data[x.off:x.off + (x.length * x.size if isinstance(x, Typed) else x.length)]
            else:
                raise Unsupported("send of " + type(x).__name__)
            self.obs.append(("send", list(d)))
            return UNDEF
        w["WebSocket"] = N("WebSocket", socket)
        self.socketProto.props["send"] = N("send", send)

    def bound(self, name):
        wf = self.get(self.window, "webFront")
        return self.call(self.get(wf, "cppFunction"), wf, [name])

    def cpp(self, name, args):
        self.call(self.bound(name), UNDEF, list(args))
        return UNDEF

    def lift(self, v):
        return self.array([self.lift(x) for x in v]) if isinstance(v, list) else Obj(self.objectProto) if v == {} else v

    def perform(self, op):
        """one operation of a scenario"""
        try:
            if op[0] in ("open", "close", "error"):
                ev = Obj(self.objectProto)
                if op[0] == "close":
                    ev.props.update({"wasClean": op[1], "code": 1000, "reason": ""})
                self.call(self.get(self.socket, "on" + op[0]), self.socket, [ev])
            elif op[0] == "message":
                if self.get(self.socket, "binaryType") != "arraybuffer":
                    self.obs.append(("not binary",))
                    return
                ev = Obj(self.objectProto)
                ev.props["data"] = Buffer(self.bufferProto, list(op[1]))
                self.call(self.get(self.socket, "onmessage"), self.socket, [ev])
            elif op[0] == "cpp":
                self.cpp(op[1], [self.lift(x) for x in op[2]])
            elif op[0] == "bind":
                self.window.props["bound%d" % op[1]] = self.bound(op[2])
            elif op[0] == "bound":
                self.call(self.window.props["bound%d" % op[1]], UNDEF, [self.lift(x) for x in op[2]])
        except JSThrow:
            self.obs.append(("throw",))
