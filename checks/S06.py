"""S06: the circuit read from a Verilog file behaves as the Verilog says."""
import itertools
import os
from checks import S07
from checks.S02 import PRE as SPRE, columns
from vk import core

FEATURES = ("generics", "yosys")
W = S07.W
W.update((i, i) for i in range(1, 40))

PRE = 'load "ste.fl";\n' + SPRE


def mask(w):
    return (1 << w) - 1


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) & 1 else v


class X(Exception):
    """an unknown value: the result is not judged"""


# ---- expressions: (text, width, signed, eval(env, width, signed) -> value of that many bits) -------------------------
class E:
    def __init__(self, txt, w, s, ev, vs):
        self.txt, self.w, self.s, self.ev, self.vs = txt, w, s, ev, vs

    def self_(self, env):
        return self.ev(env, self.w, self.s)

    def val(self, env):
        """as a number"""
        v = self.self_(env)
        return sgn(v, self.w) if self.s else v


def ext(v, w0, w, s):
    return (sgn(v, w0) if s else v) & mask(w)


def var(n, w, s):
    return E(n, w, s, lambda env, cw, cs: ext(env[n], w, cw, s and cs), (n,))


def const(w, v, s=False):
    t = "%s%d'%sd%d" % ("-" if v < 0 else "", w, "s" if s else "", abs(v))
    if v < 0:
        t = "(%s)" % t          # the minus works on the extended number
        return E(t, w, s, lambda env, cw, cs: -ext(-v, w, cw, s and cs) & mask(cw), ())
    return E(t, w, s, lambda env, cw, cs: ext(v & mask(w), w, cw, s and cs), ())


def vs(*es):
    return tuple(sorted(set(sum([e.vs for e in es], ()))))


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def arith(op, a, b):
    w, s = max(a.w, b.w), a.s and b.s

    def ev(env, cw, cs):
        x, y = a.ev(env, cw, cs), b.ev(env, cw, cs)
        if op in "/%":
            if y == 0:
                raise X
            if cs:
                x, y = sgn(x, cw), sgn(y, cw)
            q = tdiv(x, y)
            return (q if op == "/" else x - q * y) & mask(cw)
        return {"+": x + y, "-": x - y, "*": x * y, "&": x & y, "|": x | y, "^": x ^ y, "~^": ~(x ^ y)}[op] & mask(cw)
    return E("(%s %s %s)" % (a.txt, op, b.txt), w, s, ev, vs(a, b))


def shift(op, a, b):
    def ev(env, cw, cs):
        x, n = a.ev(env, cw, cs), b.self_(env)
        if op in ("<<", "<<<"):
            return (x << n) & mask(cw)
        if op == ">>>" and cs:
            return (sgn(x, cw) >> n) & mask(cw)
        return x >> n
    return E("(%s %s %s)" % (a.txt, op, b.txt), a.w, a.s, ev, vs(a, b))


def rel(op, a, b):
    w, s = max(a.w, b.w), a.s and b.s

    def ev(env, cw, cs):
        x, y = a.ev(env, w, s), b.ev(env, w, s)
        if s:
            x, y = sgn(x, w), sgn(y, w)
        return int({"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y, "==": x == y, "!=": x != y, "===": x == y, "!==": x != y}[op])
    return E("(%s %s %s)" % (a.txt, op, b.txt), 1, False, ev, vs(a, b))


def logic(op, a, b):
    def ev(env, cw, cs):
        x, y = a.self_(env) != 0, b.self_(env) != 0
        return int(x and y) if op == "&&" else int(x or y)
    return E("(%s %s %s)" % (a.txt, op, b.txt), 1, False, ev, vs(a, b))


def unary(op, a):
    if op in ("~", "-", "+"):
        def ev(env, cw, cs):
            x = a.ev(env, cw, cs)
            return {"~": ~x, "-": -x, "+": x}[op] & mask(cw)
        return E("(%s%s)" % (op, a.txt), a.w, a.s, ev, a.vs)

    def ev(env, cw, cs):
        x = a.self_(env)
        b = bin(x).count("1") & 1
        return int({"!": x == 0, "&": x == mask(a.w), "|": x != 0, "~&": x != mask(a.w), "~|": x == 0, "^": b, "~^": not b}[op])
    return E("(%s%s)" % (op, a.txt), 1, False, ev, a.vs)


def cond(c, a, b):
    return E("(%s ? %s : %s)" % (c.txt, a.txt, b.txt), max(a.w, b.w), a.s and b.s,
             lambda env, cw, cs: a.ev(env, cw, cs) if c.self_(env) else b.ev(env, cw, cs), vs(c, a, b))


def cat(*es):
    def ev(env, cw, cs):
        v = 0
        for e in es:
            v = v << e.w | e.self_(env)
        return v
    return E("{%s}" % ", ".join(e.txt for e in es), sum(e.w for e in es), False, ev, vs(*es))


def rep(n, e):
    r = cat(*[e] * n)
    return E("{%d{%s}}" % (n, e.txt), r.w, False, r.ev, e.vs)


def part(e, hi, lo):
    return E("%s[%s]" % (e.txt, hi if hi == lo else "%d:%d" % (hi, lo)), hi - lo + 1, False,
             lambda env, cw, cs: e.self_(env) >> lo & mask(hi - lo + 1), e.vs)


def bitsel(e, i):
    def ev(env, cw, cs):
        k = i.val(env)
        if not 0 <= k < e.w:
            raise X
        return e.self_(env) >> k & 1
    return E("%s[%s]" % (e.txt, i.txt), 1, False, ev, vs(e, i))


def ixsel(e, i, n, down=False):
    def ev(env, cw, cs):
        k = i.val(env)
        lo = k - n + 1 if down else k
        if lo < 0 or lo + n > e.w:
            raise X
        return e.self_(env) >> lo & mask(n)
    return E("%s[%s %s: %d]" % (e.txt, i.txt, "-" if down else "+", n), n, False, ev, vs(e, i))


def cast(k, e):
    return E("$%s(%s)" % (k, e.txt), e.w, k == "signed", lambda env, cw, cs: ext(e.self_(env), e.w, cw, k == "signed" and cs), e.vs)


def lift(e):
    """a self-determined operand in a context: every evaluation function above that ignores its context is zero extended"""
    return e


A, B, C, D, P, Q = var("a", 3, False), var("b", 2, False), var("c", 3, True), var("d", 2, True), var("p", 1, False), var("q", 1, False)
DECL = {"a": "[2:0] a", "b": "[1:0] b", "c": "signed [2:0] c", "d": "signed [1:0] d", "p": "p", "q": "q"}
WID = {"a": 3, "b": 2, "c": 3, "d": 2, "p": 1, "q": 1}
ARITH = ["+", "-", "*", "/", "%", "&", "|", "^", "~^"]
SHIFT = ["<<", ">>", "<<<", ">>>"]
REL = ["<", "<=", ">", ">=", "==", "!=", "===", "!=="]
UN = ["~", "-", "+", "!", "&", "|", "~&", "~|"]


class Mod(S07.Case):
    """A Verilog module t with inputs, outputs and a text; f(dict of inputs) gives the output values (None: not judged)."""

    def __init__(self, key, ins, outs, text, f, rows=None, decls=None, one=None):
        self.key, self.ins, self.outs, self.text, self.fn, self.rws = key, ins, outs, text, f, rows
        self.body = [one or text]
        self.nb = sum(w for _, w in ins)

    def rows(self):
        if self.rws is not None:
            return self.rws
        return ["".join(p) for p in itertools.product("01", repeat=self.nb)]

    def f(self, *vals):
        return self.fn(dict(zip([n for n, _ in self.ins], vals)))

    def script(self, nm, rows):
        d = os.path.join(core.scratch(), "verilog")
        os.makedirs(d, exist_ok=True)
        fn = os.path.join(d, "m%d_%d.v" % (os.getpid(), id(self)))
        with open(fn, "w") as fh:
            fh.write(self.text)
        inn = [x for n, t in self.ins for x in S07.nodes(n, t)]
        outn = [x for n, t in self.outs for x in S07.nodes(n, t)]
        q = lambda l: "[%s]" % ",".join('"%s"' % x for x in l)
        return 'let ck = pexlif2fsm (verilog2pexlif T "" "t" ["%s"] []);\n' % fn + \
            'let ss = STE "-e" ck [] (ants %s %s) [] [] "";\ntrs ss %s;\n' % (q(inn), q(rows), q(outn))


class Clocked(Mod):
    """the outputs of every phase come from run(list of input dictionaries)"""

    def judge(self, rows, got):
        env = []
        for r in rows:
            e, p = {}, 0
            for n, w in self.ins:
                e[n] = int(r[p:p + w], 2)
                p += w
            env.append(e)
        for k, (v, g) in enumerate(zip(self.fn(env), got)):
            e = "".join("x" * w if o is None else "".join(map(str, S07.tobits(o, w))) for o, (_, w) in zip(v, self.outs))
            if any(y == "z" or x != "x" and x != y for x, y in zip(e, g)):
                return " ".join(rows[:k + 1]) + " (phase %d)" % k, e, g
        return None


def expr_mods(name, items, per=24):
    """items: (expression, output width, output signed); modules of assignments over the same inputs"""
    by = {}
    for e, w, s in items:
        by.setdefault(e.vs, []).append((e, w, s))
    out = []
    for v, l in sorted(by.items()):
        for i in range(0, len(l), per):
            pt = l[i:i + per]
            ins = [(n, WID[n]) for n in v]

            def f(env, pt=pt):
                r = []
                for e, w, s in pt:
                    cw = max(w, e.w)
                    try:
                        r.append(e.ev(env, cw, e.s) & mask(w))
                    except X:
                        r.append(None)
                return r
            txt = "module t(%s);\n" % ", ".join(list(v) + ["y%d" % k for k in range(len(pt))])
            txt += "".join("  input %s;\n" % DECL[n] for n in v)
            for k, (e, w, s) in enumerate(pt):
                txt += "  output %s%sy%d;\n  assign y%d = %s;\n" % ("signed " if s else "", "[%d:0] " % (w - 1) if w > 1 else "", k, k, e.txt)
            txt += "endmodule\n"
            outs = [("y%d" % k, w) for k, (e, w, s) in enumerate(pt)]
            if len(pt) == 1:
                key = "assign y[%d] = %s" % (pt[0][1], pt[0][0].txt)
            else:
                key = "%s %s %d: %s[%d] .." % (name, "".join(v), i // per, pt[0][0].txt, pt[0][1])
            out.append(Mod(key, ins, outs, txt, f))
    return out


def level1(quick):
    pairs = [(A, A), (A, B), (B, A), (C, D), (D, C), (A, C), (C, A), (A, const(2, 1)), (C, const(3, -2, True)), (const(3, 5), B),
             (C, const(2, 1)), (A, P), (P, Q), (C, const(2, 1, True)), (const(4, -3, True), D)]
    out = []
    for a, b in pairs:
        for op in ARITH:
            out += [(arith(op, a, b), w, a.s) for w in (1, 2, 3, 5)]
        for op in SHIFT:
            out += [(shift(op, a, b), w, a.s) for w in (2, 3, 5)]
        for op in REL:
            out += [(rel(op, a, b), w, False) for w in (1, 2)]
        for op in ("&&", "||"):
            out += [(logic(op, a, b), w, False) for w in (1, 2)]
    for a in (A, C, P, D):
        for op in UN:
            out += [(unary(op, a), w, a.s) for w in (1, 2, 3, 5)]
        for k in ("signed", "unsigned"):
            out += [(cast(k, a), w, True) for w in (2, 5)]
        out += [(a, w, s) for w in (1, 2, 3, 5) for s in (False, True)]
    for c in (P, B, D):
        out += [(cond(c, a, b), w, False) for a, b in ((A, B), (C, D), (A, C), (C, const(2, 1, True)), (const(2, 2), const(1, 1))) for w in (1, 3, 5)]
    for es in ((A, B), (B, A), (C, P), (P, P, B), (const(2, 1), A, const(1, 0)), (D, D)):
        out += [(cat(*es), w, False) for w in (3, 5, 7)]
    for e in (P, B, C):
        out += [(rep(n, e), w, False) for n in (1, 2, 3) for w in (2, 6, 8)]
    out += [(part(e, h, l), w, False) for e in (A, C) for h in range(3) for l in range(h + 1) for w in (1, 3)]
    out += [(bitsel(e, i), w, False) for e in (A, C) for i in (B, P, A, D) for w in (1, 2)]
    out += [(ixsel(e, i, n, dn), 3, False) for e in (A, C) for i in (B, P) for n in (1, 2) for dn in (False, True)]
    return out


def level2(quick):
    """an operator on the result of another one: sizes and signs of intermediate results"""
    inner = []
    for a, b in ((A, B), (C, D), (A, C)):
        inner += [arith(op, a, b) for op in ("+", "-", "*", "^", "%", "/")]
        inner += [shift(op, a, b) for op in (">>", ">>>", "<<")]
        inner += [rel("<", a, b), logic("&&", a, b), cat(a, b), cond(P, a, b)]
    inner += [unary(op, a) for a in (A, C) for op in ("~", "-", "!", "&")]
    inner += [cast("signed", A), cast("unsigned", C), rep(2, P), part(A, 2, 1)]
    out = []
    for k, e in enumerate(inner):
        for z in (B, D) if quick else (A, B, C, D, const(2, 2), const(3, -1, True)):
            for op in ("+", "-", ">", ">>>", "<", "/", "*", "&", "==", "?"):
                g = arith if op in ARITH else shift if op in SHIFT else rel
                x = cond(Q, e, z) if op == "?" else g(op, e, z)
                out += [(x, w, False) for w in ((4,) if quick else (2, 4, 6))]
                if op != "?":
                    y = g(op, z, e)
                    out += [(y, w, False) for w in ((5,) if quick else (3, 5))]
        for op in ("~", "-", "!", "|", "~&"):
            out += [(unary(op, e), w, False) for w in (1, 4, 6)]
    return out


def m(key, ins, outs, body, f, extra="", rows=None, cls=Mod, head=None):
    """a module from its port declarations and body"""
    ports = [n for n, _ in ins] + [n for n, _ in outs]
    rng = lambda w: "[%d:0] " % (w - 1) if w > 1 else ""
    t = "module t(%s);\n" % ", ".join(ports)
    t += head or ("".join("  input %s%s;\n" % (rng(w), n) for n, w in ins) + "".join("  output %s%s;\n" % (rng(w), n) for n, w in outs))
    t += body + "\nendmodule\n" + extra
    return cls(key, list(ins), list(outs), t, f, rows)


def combinational():
    out = []
    a, b, s = ("a", 2), ("b", 2), ("s", 2)
    y = ("y", 2)
    reg = "reg [1:0] y;\n"
    # if / else chains, overriding assignments, blocking order
    out.append(m("if else chain", [a, b, s], [y], reg + "always @* if (s[0]) y = a; else if (s[1]) y = b; else y = a + b;",
                 lambda e: [e["a"] if e["s"] & 1 else e["b"] if e["s"] & 2 else (e["a"] + e["b"]) & 3]))
    out.append(m("overriding assignments", [a, b, s], [y], reg + "always @* begin y = a; if (s[0]) y = b; if (s == 3) y = y + 1; end",
                 lambda e: [((e["b"] if e["s"] & 1 else e["a"]) + (e["s"] == 3)) & 3]))
    out.append(m("blocking order", [a, b], [y], reg + "reg [1:0] t;\nalways @* begin t = a; t = t ^ b; y = t; t = 0; end",
                 lambda e: [e["a"] ^ e["b"]]))
    out.append(m("partial assignments", [a, b], [y], reg + "always @* begin y = a; y[1] = b[0]; end", lambda e: [e["a"] & 1 | (e["b"] & 1) << 1]))
    # case statements with every number of arms, constants and variables as results
    for n in range(1, 5):
        for deflt in (None, "b", "2'd1"):
            if deflt is None and n < 4:
                continue
            for kind in ("var", "const", "mix"):
                for perm in ((0, 1, 2, 3), (3, 1, 0, 2)):
                    res = lambda k: {"var": "a + %d" % k if k else "a", "const": "2'd%d" % (3 - k), "mix": ["a", "2'd2", "b", "~a"][k]}[kind]

                    def rv(k, e, kind=kind):
                        return {"var": e["a"] + k, "const": 3 - k, "mix": [e["a"], 2, e["b"], ~e["a"]][k]}[kind] & 3

                    def f(e, n=n, deflt=deflt, perm=perm, rv=rv):
                        for k in range(n):
                            if perm[k] == e["s"]:
                                return [rv(k, e)]
                        return [e["b"] if deflt == "b" else 1]
                    body = reg + "always @* case (s)\n" + "".join("  2'd%d: y = %s;\n" % (perm[k], res(k)) for k in range(n))
                    body += ("  default: y = %s;\n" % deflt if deflt else "") + "endcase"
                    out.append(m("case %d %s %s %s" % (n, deflt, kind, perm[0]), [a, b, s], [y], body, f))
    # several labels on an arm, overlapping casez arms, the first one wins; case on a constant
    out.append(m("labels", [a, b, s], [y], reg + "always @* case (s) 2'd0, 2'd3: y = a; 2'd1: y = b; default: y = 0; endcase",
                 lambda e: [{0: e["a"], 3: e["a"], 1: e["b"]}.get(e["s"], 0)]))
    for pats in (("1?", "?1"), ("?1", "1?"), ("11", "1?", "?1"), ("0?", "??")):
        def f(e, pats=pats):
            sb = format(e["s"], "02b")
            for k, p in enumerate(pats):
                if all(x == "?" or x == z for x, z in zip(p, sb)):
                    return [[e["a"], e["b"], e["a"] ^ e["b"]][k]]
            return [0]
        out.append(m("casez " + " ".join(pats), [a, b, s], [y], reg + "always @* casez (s) " +
                     " ".join("2'b%s: y = %s;" % (p, ["a", "b", "a ^ b"][k]) for k, p in enumerate(pats)) + " default: y = 0; endcase", f))
    out.append(m("case (1'b1)", [a, b, s], [y], reg + "always @* case (1'b1) s[1]: y = a; s[0]: y = b; default: y = 3; endcase",
                 lambda e: [e["a"] if e["s"] & 2 else e["b"] if e["s"] & 1 else 3]))
    out.append(m("nested case", [a, b, s], [y], reg + "always @* case (s[0]) 0: case (s[1]) 0: y = a; default: y = b; endcase default: y = a & b; endcase",
                 lambda e: [e["a"] & e["b"] if e["s"] & 1 else e["b"] if e["s"] & 2 else e["a"]]))
    # vectors with other ranges
    out.append(m("ascending range", [("a", 3), ("b", 1)], [("y", 3), ("z", 1)], "wire [0:2] v; assign v = a; assign y = {v[2], v[1], v[0]}; assign z = v[0] & b;",
                 lambda e: [int(format(e["a"], "03b")[::-1], 2), e["a"] >> 2 & e["b"]]))
    out.append(m("offset range", [("a", 3), ("b", 2)], [("y", 2), ("z", 3)], "wire [5:3] v; assign v = a; assign y = v[4:3]; assign z = {v[3], v[5:4]} ^ b;",
                 lambda e: [e["a"] & 3, ((e["a"] & 1) << 2 | e["a"] >> 1) ^ e["b"]]))
    out.append(m("assignment to parts", [("a", 3), ("b", 2)], [("y", 4)], "assign y[3:1] = a; assign y[0] = b[1];", lambda e: [e["a"] << 1 | e["b"] >> 1]))
    out.append(m("assignment to a concatenation", [("a", 3), ("b", 2)], [("y", 2), ("z", 2)], "assign {y, z} = a + b;",
                 lambda e: [(e["a"] + e["b"]) >> 2, (e["a"] + e["b"]) & 3]))
    out.append(m("carry", [("a", 2), ("b", 2), ("c", 1)], [("co", 1), ("y", 2)], "assign {co, y} = a + b + c;",
                 lambda e: [(e["a"] + e["b"] + e["c"]) >> 2, (e["a"] + e["b"] + e["c"]) & 3]))
    # loops, functions, generate, parameters
    out.append(m("for loop", [("a", 3)], [("y", 2)], "reg [1:0] y; integer i; always @* begin y = 0; for (i = 0; i < 3; i = i + 1) y = y + a[i]; end",
                 lambda e: [bin(e["a"]).count("1")]))
    out.append(m("function", [("a", 2), ("b", 2)], [("y", 2)], "function [1:0] mx; input [1:0] x, z; mx = x > z ? x : z; endfunction assign y = mx(a, b);",
                 lambda e: [max(e["a"], e["b"])]))
    out.append(m("generate", [("a", 3), ("b", 3)], [("y", 3)], "genvar i; generate for (i = 0; i < 3; i = i + 1) begin: g assign y[i] = a[2-i] ^ b[i]; end endgenerate",
                 lambda e: [int(format(e["a"], "03b")[::-1], 2) ^ e["b"]]))
    sub = "module sub(x, z, w);\n input [1:0] x; input z; output [1:0] w;\n assign w = z ? x : ~x;\nendmodule\n"
    sb = lambda x, z: x & 3 if z & 1 else ~x & 3
    out.append(m("instance, by name", [("a", 2), ("b", 1)], [("y", 2)], "sub u(.w(y), .z(b), .x(a));", lambda e: [sb(e["a"], e["b"])], sub))
    out.append(m("instance, by position", [("a", 2), ("b", 1)], [("y", 2)], "sub u(a, b, y);", lambda e: [sb(e["a"], e["b"])], sub))
    out.append(m("two instances in a row", [("a", 2), ("b", 2)], [("y", 2)], "wire [1:0] t; sub u1(a, b[0], t); sub u2(t, b[1], y);",
                 lambda e: [sb(sb(e["a"], e["b"]), e["b"] >> 1)], sub))
    out.append(m("narrow and wide connections", [("a", 1), ("b", 3)], [("y", 4)], "wire [3:0] w; sub u(a, b, w[2:1]); assign w[0] = a; assign w[3] = b[2]; assign y = w;",
                 lambda e: [e["a"] | sb(e["a"], e["b"]) << 1 | (e["b"] >> 2) << 3], sub))
    out.append(m("connections to expressions", [("a", 2), ("b", 2)], [("y", 2)], "sub u({a[0], b[1]}, a > b, y);",
                 lambda e: [sb((e["a"] & 1) << 1 | e["b"] >> 1, int(e["a"] > e["b"]))], sub))
    out.append(m("output to a concatenation", [("a", 2), ("b", 1)], [("y", 1), ("z", 1)], "sub u(a, b, {y, z});",
                 lambda e: [sb(e["a"], e["b"]) >> 1, sb(e["a"], e["b"]) & 1], sub))
    out.append(m("constant connections", [("a", 2)], [("y", 2), ("z", 2)], "sub u1(2'd2, a[0], y); sub u2(a, 1'b0, z);",
                 lambda e: [sb(2, e["a"]), sb(e["a"], 0)], sub))
    psub = "module sub(x, w);\n parameter N = 1; parameter K = 0;\n input [N-1:0] x; output [N-1:0] w;\n assign w = x + K;\nendmodule\n"
    out.append(m("parameters", [("a", 2), ("b", 3)], [("y", 2), ("z", 3), ("w", 1)],
                 "sub #(.N(2), .K(1)) u1(a, y); sub #(3, 5) u2(b, z); sub u3(a[0], w);",
                 lambda e: [(e["a"] + 1) & 3, (e["b"] + 5) & 7, e["a"] & 1], psub))
    deep = "module mid(x, w);\n input [1:0] x; output [1:0] w; wire [1:0] t;\n sub u1(x, x[1], t);\n sub u2({t[0], t[1]}, x[0], w);\nendmodule\n" + sub
    sw = lambda v: (v & 1) << 1 | v >> 1
    md = lambda x: sb(sw(sb(x, x >> 1)), x)
    out.append(m("three levels", [("a", 2), ("b", 2)], [("y", 2), ("z", 2)], "mid m1(a, y); mid m2(y ^ b, z);", lambda e: [md(e["a"]), md(md(e["a"]) ^ e["b"])], deep))
    # wires whose names need escapes, several drivers of parts
    out.append(m("escaped name", [("a", 2)], [("y", 2)], "wire [1:0] \\odd+name ; assign \\odd+name = ~a; assign y = \\odd+name ;", lambda e: [~e["a"] & 3]))
    # a ROM
    for w, k in ((2, 4), (3, 2)):
        tab = [(3 * i + 1) & mask(w) for i in range(k)]
        aw = (k - 1).bit_length()
        out.append(m("ROM %d" % w, [("a", aw)], [("y", w)], "reg [%d:0] mem [0:%d]; initial begin %s end assign y = mem[a];" % (
            w - 1, k - 1, " ".join("mem[%d] = %d;" % x for x in enumerate(tab))), lambda e, tab=tab: [tab[e["a"]]]))
    return out


def clocked(quick):
    """registers of every kind.  Inputs change when the clock goes to its inactive level only."""
    out = []

    def rows_for(alphabet, pol, order=3):
        seq = S07.histories(alphabet, order, 4000)[0]
        r = []
        for x in seq:
            r += [("1" if pol == "neg" else "0") + x, ("0" if pol == "neg" else "1") + x]
        return r

    def rows_async(alphabet, pol, at, lvl, order=2):
        """also asserts input number `at` during the active phase of the clock only"""
        al = [(x, x) for x in alphabet] + [(x, x[:at] + str(lvl) + x[at + 1:]) for x in alphabet if x[at] != str(lvl)]
        r = []
        for i in S07.histories(list(range(len(al))), order, 4000)[0]:
            x, y = al[i]
            r += [("1" if pol == "neg" else "0") + x, ("0" if pol == "neg" else "1") + y]
        return r

    def reg_run(next_, asyn=None, pol="pos", outf=None, width=2):
        """next_(state, env) at the active edge, asyn(env): value or None"""
        def run(env):
            st, res, last = None, [], None
            for e in env:
                ck = e["clk"] if pol == "pos" else 1 - e["clk"]
                if last == 0 and ck == 1:
                    st = next_(st, e)
                v = asyn(e, st) if asyn else None
                if v is not None:
                    st = v[0]
                last = ck
                res.append(outf(st, e) if outf else [st])
            return res
        return run

    bits = lambda n: ["".join(p) for p in itertools.product("01", repeat=n)]
    CK = ("clk", 1)
    for pol in ("pos", "neg"):
        ed = pol + "edge clk"
        for w in (1, 2):
            R = "reg %sq;\n" % ("[1:0] " if w == 2 else "")
            d = ("d", w)
            al = bits(w)
            out.append(m("register %s %d" % (pol, w), [CK, d], [("q", w)], R + "always @(%s) q <= d;" % ed,
                         reg_run(lambda s, e: e["d"], None, pol), "", rows_for(al, pol), Clocked))
        R = "reg [1:0] q;\n"
        d, en, rst = ("d", 2), ("en", 1), ("rst", 1)
        al3 = ["%s%s" % (x, y) for x in ("01", "10", "11") for y in "01"]
        al4 = ["%s%s%s" % (x, y, z) for x in ("01", "10") for y in "01" for z in "01"]
        out.append(m("enable " + pol, [CK, d, en], [("q", 2)], R + "always @(%s) if (en) q <= d;" % ed,
                     reg_run(lambda s, e: e["d"] if e["en"] else s, None, pol), "", rows_for(al3, pol), Clocked))
        out.append(m("low enable " + pol, [CK, d, en], [("q", 2)], R + "always @(%s) if (!en) q <= d;" % ed,
                     reg_run(lambda s, e: s if e["en"] else e["d"], None, pol), "", rows_for(al3, pol), Clocked))
        for val in (0, 2):
            for lvl in (1, 0):
                on = lambda e, lvl=lvl: e["rst"] == lvl
                c = "rst" if lvl else "!rst"
                nm = "%s reset to %d by %d" % (pol, val, lvl)
                out.append(m("synchronous " + nm, [CK, d, rst], [("q", 2)], R + "always @(%s) if (%s) q <= %d; else q <= d;" % (ed, c, val),
                             reg_run(lambda s, e, on=on, val=val: val if on(e) else e["d"], None, pol), "", rows_for(al3, pol), Clocked))
                out.append(m("synchronous, enable " + nm, [CK, d, rst, en], [("q", 2)],
                             R + "always @(%s) if (%s) q <= %d; else if (en) q <= d;" % (ed, c, val),
                             reg_run(lambda s, e, on=on, val=val: val if on(e) else e["d"] if e["en"] else s, None, pol), "",
                             rows_for(al4, pol), Clocked))
                out.append(m("enabled synchronous " + nm, [CK, d, rst, en], [("q", 2)],
                             R + "always @(%s) if (en) begin if (%s) q <= %d; else q <= d; end" % (ed, c, val),
                             reg_run(lambda s, e, on=on, val=val: (val if on(e) else e["d"]) if e["en"] else s, None, pol), "",
                             rows_for(al4, pol), Clocked))
                ev = "%s or %s rst" % (ed, "posedge" if lvl else "negedge")
                asyn = lambda e, s, on=on, val=val: (val,) if on(e) else None
                out.append(m("asynchronous " + nm, [CK, d, rst], [("q", 2)], R + "always @(%s) if (%s) q <= %d; else q <= d;" % (ev, c, val),
                             reg_run(lambda s, e: e["d"], asyn, pol), "", rows_async(al3, pol, 2, lvl), Clocked))
                out.append(m("asynchronous, enable " + nm, [CK, d, rst, en], [("q", 2)],
                             R + "always @(%s) if (%s) q <= %d; else if (en) q <= d;" % (ev, c, val),
                             reg_run(lambda s, e: e["d"] if e["en"] else s, asyn, pol), "",
                             rows_async(al4, pol, 2, lvl), Clocked))
                out.append(m("counter %s" % nm, [CK, rst, en], [("q", 2)], R + "always @(%s) if (%s) q <= %d; else if (en) q <= q + 1;" % (ev, c, val),
                             reg_run(lambda s, e: None if s is None else (s + 1) & 3 if e["en"] else s, asyn, pol), "",
                             rows_async(bits(2), pol, 0, lvl), Clocked))
        # asynchronous load of a signal
        for lvl in (1, 0):
            out.append(m("asynchronous load %s %d" % (pol, lvl), [CK, ("d", 1), ("i", 1), rst], [("q", 1)],
                         "reg q; always @(%s or %s rst) if (%s) q <= i; else q <= d;" % (ed, "posedge" if lvl else "negedge", "rst" if lvl else "!rst"),
                         reg_run(lambda s, e: e["d"], lambda e, s, lvl=lvl: (e["i"],) if e["rst"] == lvl else None, pol), "",
                         rows_async(bits(3), pol, 2, lvl), Clocked))
        # two registers exchanging their values, a shift register, blocking assignment
        out.append(m("exchange " + pol, [CK, ("d", 1), ("ld", 1)], [("p", 1), ("q", 1)],
                     "reg p, q; always @(%s) if (ld) begin p <= d; q <= ~d; end else begin p <= q; q <= p; end" % ed,
                     reg_run(lambda s, e: (e["d"], 1 - e["d"]) if e["ld"] else s and (s[1], s[0]), None, pol, lambda s, e: list(s) if s else [None, None]),
                     "", rows_for(bits(2), pol), Clocked))
        out.append(m("shift register " + pol, [CK, ("d", 1)], [("q", 3)], "reg [2:0] q; always @(%s) q <= {q[1:0], d};" % ed,
                     reg_run(lambda s, e: ([e["d"]] + (s or [None] * 3))[:3], None, pol,
                             lambda s, e: [None if not s or None in s else s[0] | s[1] << 1 | s[2] << 2]), "", rows_for(bits(1), pol, 5), Clocked))
        out.append(m("blocking in a register " + pol, [CK, ("d", 2)], [("q", 2)], "reg [1:0] q, t; always @(%s) begin t = ~d; q = t + 1; end" % ed,
                     reg_run(lambda s, e: (-e["d"]) & 3, None, pol), "", rows_for(bits(2), pol), Clocked))
        # a state machine
        def fsm(s, e):
            if e["rst"]:
                return 0
            if s is None:
                return None
            return {0: 1 if e["go"] else 0, 1: 2 if e["go"] else 1, 2: 3, 3: 0 if e["go"] else 3}[s]
        out.append(m("state machine " + pol, [CK, rst, ("go", 1)], [("q", 2), ("o", 1)],
                     R + "always @(%s) if (rst) q <= 0; else case (q) 0: if (go) q <= 1; 1: if (go) q <= 2; 2: q <= 3; default: if (go) q <= 0; endcase\n"
                     "assign o = q == 2 && go;" % ed,
                     reg_run(fsm, None, pol, lambda s, e: [s, None if s is None else int(s == 2 and e["go"])]), "", rows_for(bits(2), pol, 4), Clocked))
        # memories: one write port, asynchronous and synchronous reads, with and without enable
        for lines, w in ((2, 1), (4, 1), (2, 2)):
            aw = (lines - 1).bit_length()
            ins = [CK, ("wa", aw), ("ra", aw), ("din", w), ("we", 1)]
            al = bits(2 * aw + w + 1)
            if len(al) > 40:
                al = [x for x in al if x[-1] == "1" or "1" not in x[:aw] + x[2 * aw:-1]]
            rw = rows_for(al, pol, 2)
            decl = "reg [%d:0] mem [0:%d];\n" % (w - 1, lines - 1)

            def wr(s, e):
                mem = dict(s[0]) if s else {}
                if e["we"]:
                    mem[e["wa"]] = e["din"]
                return mem
            out.append(m("memory %dx%d %s" % (lines, w, pol), ins, [("y", w)], decl + "always @(%s) if (we) mem[wa] <= din;\nassign y = mem[ra];" % ed,
                         reg_run(lambda s, e: (wr(s, e),), None, pol, lambda s, e: [s[0].get(e["ra"]) if s else None]), "", rw, Clocked))
            out.append(m("memory %dx%d %s, read register" % (lines, w, pol), ins, [("y", w)],
                         decl + "reg [%d:0] y;\nalways @(%s) begin if (we) mem[wa] <= din; y <= mem[ra]; end" % (w - 1, ed),
                         reg_run(lambda s, e: (wr(s, e), s[0].get(e["ra"]) if s else None), None, pol, lambda s, e: [s[1] if s else None]), "", rw, Clocked))
            if w == 2:
                def wm(s, e):
                    mem = dict(s[0]) if s else {}
                    old = mem.get(e["wa"])
                    if e["be"] == 3:
                        mem[e["wa"]] = e["din"]
                    elif e["be"]:
                        mem[e["wa"]] = None if old is None else old & ~e["be"] | e["din"] & e["be"]
                    return mem
                out.append(m("memory, bit enables %s" % pol, [CK, ("wa", 1), ("ra", 1), ("din", 2), ("be", 2)], [("y", 2)],
                             decl + "always @(%s) begin if (be[0]) mem[wa][0] <= din[0]; if (be[1]) mem[wa][1] <= din[1]; end\nassign y = mem[ra];" % ed,
                             reg_run(lambda s, e: (wm(s, e),), None, pol, lambda s, e: [s[0].get(e["ra"]) if s else None]), "",
                             rows_for([x for x in bits(6) if x[0] == x[1] or x[4:] == "00"], pol, 2), Clocked))
        # memories: addresses and data that change at the clock edge; two write ports; two read ports; controlled read registers
        D = "reg mem [0:1];\n"
        ins = [CK, ("wa", 1), ("ra", 1), ("din", 1), ("we", 1)]

        def step(s, e):
            mem = dict(s["m"]) if s else {}
            if s and s["we"] is not None and s["wa"] is not None and s["we"]:
                mem[s["wa"]] = s["din"]
            return {"m": mem, "wa": e["wa"], "ra": e["ra"], "din": e["din"], "we": e["we"], "y": (s["m"] if s else {}).get(s["ra"]) if s else None}
        rgs = "reg rwa, rra, rdin, rwe;\n"
        smp = "rwa <= wa; rra <= ra; rdin <= din; rwe <= we; if (rwe) mem[rwa] <= rdin;"
        out.append(m("memory, registered inputs " + pol, ins, [("y", 1)], D + rgs + "always @(%s) begin %s end\nassign y = mem[rra];" % (ed, smp),
                     reg_run(step, None, pol, lambda s, e: [s["m"].get(s["ra"]) if s else None]), "", rows_for(bits(4), pol, 2), Clocked))
        out.append(m("memory, registered inputs and output " + pol, ins, [("y", 1)], D + rgs + "reg y; always @(%s) begin %s y <= mem[rra]; end" % (ed, smp),
                     reg_run(step, None, pol, lambda s, e: [s["y"] if s else None]), "", rows_for(bits(4), pol, 2), Clocked))

        def two(s, e):
            mem = dict(s) if s else {}
            if e["we"]:
                mem[e["wa"]] = e["din"]
            if e["we2"]:
                mem[e["wb"]] = 1 - e["din"]
            return mem
        out.append(m("memory, two write and two read ports " + pol, [CK, ("wa", 1), ("wb", 1), ("din", 1), ("we", 1), ("we2", 1)], [("y", 1), ("z", 1)],
                     D + "always @(%s) begin if (we) mem[wa] <= din; if (we2) mem[wb] <= ~din; end\nassign y = mem[wa]; assign z = mem[~wa];" % ed,
                     reg_run(two, None, pol, lambda s, e: [s.get(e["wa"]), s.get(1 - e["wa"])] if s is not None else [None, None]), "",
                     rows_for(bits(5), pol, 2), Clocked))
        ins = [CK, ("a", 1), ("din", 1), ("we", 1), ("c", 1)]
        for nm, txt, rd, asy in (
                ("enable", "if (c) y <= mem[a];", lambda e, v, o: v if e["c"] else o, None),
                ("low enable", "if (!c) y <= mem[a];", lambda e, v, o: o if e["c"] else v, None),
                ("reset", "if (c) y <= 1; else y <= mem[a];", lambda e, v, o: 1 if e["c"] else v, None)):
            def nxt(s, e, rd=rd):
                mem = dict(s[0]) if s else {}
                old = s[0].get(e["a"]) if s else None
                if e["we"]:
                    mem[e["a"]] = e["din"]
                return mem, rd(e, old, s[1] if s else None)
            out.append(m("memory, read register with %s %s" % (nm, pol), ins, [("y", 1)],
                         D + "reg y; always @(%s) begin if (we) mem[a] <= din; %s end" % (ed, txt),
                         reg_run(nxt, None, pol, lambda s, e: [s[1] if s else None]), "", rows_for(bits(4), pol, 2), Clocked))

            def nx2(s, e, rd=rd):
                mem = dict(s[0]) if s else {}
                if e["we"]:
                    mem[e["a"]] = e["din"]
                return mem, rd(e, mem.get(e["a"]), s[1] if s else None)
            out.append(m("memory, new value read with %s %s" % (nm, pol), ins, [("y", 1)],
                         D + "reg y; always @(%s) begin if (we) mem[a] = din; %s end" % (ed, txt),
                         reg_run(nx2, None, pol, lambda s, e: [s[1] if s else None]), "", rows_for(bits(4), pol, 2), Clocked))
    # latches: the enable takes the place of the clock
    lat = lambda on: lambda env: _latch(env, on)
    out.append(m("latch", [("g", 1), ("d", 2)], [("q", 2)], "reg [1:0] q; always @* if (g) q = d;", lat(lambda e: e["g"]), "",
                 S07.histories(bits(3), 3, 4000)[0], Clocked))
    out.append(m("low latch", [("g", 1), ("d", 2)], [("q", 2)], "reg [1:0] q; always @* if (!g) q = d;", lat(lambda e: not e["g"]), "",
                 S07.histories(bits(3), 3, 4000)[0], Clocked))
    for lvl in (0, 1):
        for glv in (0, 1):
            for val in (0, 2):
                out.append(m("latch %d with reset %d to %d" % (glv, lvl, val), [("g", 1), ("r", 1), ("d", 2)], [("q", 2)],
                             "reg [1:0] q; always @* if (%sr) q = %d; else if (%sg) q = d;" % ("" if lvl else "!", val, "" if glv else "!"),
                             lambda env, lvl=lvl, glv=glv, val=val: _latch(env, lambda e: e["g"] == glv, lambda e: val if e["r"] == lvl else None), "",
                             S07.histories(bits(4), 2, 4000)[0], Clocked))
    return out


def _latch(env, on, res=lambda e: None):
    st, out = None, []
    for e in env:
        v = res(e)
        if v is not None:
            st = v
        elif on(e):
            st = e["d"]
        out.append([st])
    return out


def uniq(items):
    seen, out = set(), []
    for e, w, s in items:
        k = (e.txt, w, s)
        if k not in seen:
            seen.add(k)
            out.append((e, w, s))
    return out


def run_cases(c, name, cases):
    old = S07.PRE
    S07.PRE = PRE
    try:
        S07.run_cases(c, name, cases, 200)
    finally:
        S07.PRE = old


def run(c):
    quick = c.quick
    run_cases(c, "operators", expr_mods("operators", uniq(level1(quick))))
    run_cases(c, "nested operators", expr_mods("nested", uniq(level2(quick)), 32))
    run_cases(c, "combinational modules", combinational())
    run_cases(c, "registers, latches and memories", clocked(quick))
