"""Shared by A02 (bv) and A03 (bev): symbolic two's-complement vectors against integers.

A symbolic vector over the variables a, b is one integer per assignment; every combination of
constant, variable and complemented bits up to the length bound is enumerated."""
import itertools
from . import bddlib as L

NV = 2
NAMES = ("a", "b")
ROWS = 1 << NV
TT = {"F": 0, "T": L.full(NV), "a": L.var(NV, 0), "b": L.var(NV, 1), "n": L.full(NV) & ~L.var(NV, 0)}


def sval(bits):
    """Signed value of MSB-first 0/1 bits."""
    v = 0
    for x in bits:
        v = v * 2 + x
    return v - (bits[0] << len(bits)) if bits else 0


def values(tts):
    """Value per assignment of a list of truth tables (MSB first)."""
    return tuple(sval([(t >> r) & 1 for t in tts]) for r in range(ROWS))


def decode(tok):
    """Token -> tuple of values; bits are separated by '.'; '!' marks an exception."""
    if tok == "!":
        return "EXN"
    tts = []
    for d in tok.split(".")[:-1]:
        t = L.parse_dump(d, NAMES, NV)
        if t is None:
            return "malformed %r" % tok
        tts.append(t)
    return values(tts)


def trimlen(w):
    """Length of a vector after redundant sign bits are dropped (the stored form)."""
    w = list(w)
    while len(w) > 1 and TT[w[0]] == TT[w[1]]:
        w = w[1:]
    return len(w)


def cond(fn):
    return lambda x, y: tuple(-1 if fn(p, q) else 0 for p, q in zip(x, y))


def word(fn):
    return lambda x, y: tuple(fn(p, q) for p, q in zip(x, y))


def div(fn):
    # the result at assignments where the divisor is 0 is not defined: not compared
    return lambda x, y: tuple(fn(p, q) if q else None for p, q in zip(x, y))


# tag, bv expression, bev expression, kind, reference
BIN = [
    ("add", "V", word(lambda p, q: p + q)), ("sub", "V", word(lambda p, q: p - q)),
    ("mul", "V", word(lambda p, q: p * q)),
    ("div", "V", div(lambda p, q: p // q)), ("mod", "V", div(lambda p, q: p % q)),
    ("AND", "V", word(lambda p, q: p & q)), ("OR", "V", word(lambda p, q: p | q)),
    ("XOR", "V", word(lambda p, q: p ^ q)), ("XNOR", "V", word(lambda p, q: ~(p ^ q))),
    ("less", "C", cond(lambda p, q: p < q)), ("leq", "C", cond(lambda p, q: p <= q)),
    ("greater", "C", cond(lambda p, q: p > q)), ("geq", "C", cond(lambda p, q: p >= q)),
    ("eq", "C", cond(lambda p, q: p == q)), ("neq", "C", cond(lambda p, q: p != q)),
]


def run(c, kind):
    bev = kind == "bev"
    c.assumptions = ["bits are read back through bv2list/bev2list, conversion to a BDD and top_cofactor"]
    pre = 'VARS "a b";\nlet order = var_order ["a","b"] fseq ();\norder;\n' + L.PRE
    if bev:
        pre += 'let ea = bvariable "a";\nlet eb = bvariable "b";\n'
        lit = {"F": "bF", "T": "bT", "a": "ea", "b": "eb", "n": "(bNOT ea)"}
        pre += 'let dv v = (itlist (\\x.\\r. (bs (prim_bexpr2bdd x))^"."^r) (bev2list v) "") catch "!";\n'
        pre += 'let dc x = ((bs (prim_bexpr2bdd x))^".") catch "!";\n'
    else:
        lit = {"F": "F", "T": "T", "a": "a", "b": "b", "n": "(NOT a)"}
        pre += 'let dv v = (itlist (\\x.\\r. (bs x)^"."^r) (bv2list v) "") catch "!";\n'
        pre += 'let dc x = ((bs x)^".") catch "!";\n'
    pre += '''letrec row op x [] = () /\\ row op x (y:ys) = (print ((op x y)^" ")) fseq (row op x ys);
letrec rows op [] l = () /\\ rows op (x:xs) l = (print "@") fseq (row op x l) fseq (print "\\n") fseq (rows op xs l);
'''

    def vecs(alpha, lens):
        return ["".join(w) for n in lens for w in itertools.product(alpha, repeat=n)]

    def src(w):
        return "(list2%s [%s])" % (kind, ",".join(lit[ch] for ch in w))

    def vals(w):
        return values([TT[ch] for ch in w])

    # decoded comparison: got tokens -> value tuples, undefined positions dropped
    def norm_for(expfn, xs_of_line, ys):
        def norm(i, line):
            toks = line.split(" ")
            if toks and toks[-1] == "":
                toks = toks[:-1]
            out = []
            x = xs_of_line[i]
            for k, t in enumerate(toks):
                d = decode(t)
                if k < len(ys) and isinstance(d, tuple):
                    e = expfn(x, ys[k])
                    d = tuple(None if ev is None else dv for dv, ev in zip(d, e))
                out.append(d)
            return " ".join(map(str, out))
        return norm

    # constant-heavy and symbolic vectors
    if bev and c.quick:
        A = vecs("FTab", (1, 2)) + vecs("Fan", (3,)) + vecs("an", (4,))
        Y = vecs("FTab", (1, 2)) + vecs("Tab", (3,)) + vecs("Fb", (4,))
    else:
        A = vecs("FTab", (1, 2, 3)) + vecs("Fan", (4,))
        Y = vecs("FTab", (1, 2, 3)) if c.quick else vecs("FTabn", (1, 2, 3)) + vecs("Fab", (4,))
    if not c.quick and not bev:
        A = vecs("FTabn", (1, 2, 3)) + vecs("FTab", (4,))
    if not c.quick and bev:
        Y = vecs("FTab", (1, 2, 3))
    items = []
    parts = 2 if c.quick else 8
    Ysrc = "let ys = [%s];\n" % ",".join(src(w) for w in Y)
    YV = [vals(w) for w in Y]
    norms = {}
    for op, k, fn in BIN:
        e = "%s (%s_%s x y)" % ("dv" if k == "V" else "dc", kind, op)
        per = (len(A) + parts - 1) // parts
        for lo in range(0, len(A), per):
            ws = A[lo:lo + per]
            xv = [vals(w) for w in ws]
            scr = lambda ws, e=e: pre + Ysrc + "rows (\\x.\\y. %s) [%s] ys;\nquit;\n" % (e, ",".join(src(w) for w in ws))
            key = "%s %d" % (op, lo)
            items.append((key, scr(ws), [" ".join(str(fn(x, y)) for y in YV) for x in xv],
                          lambda i, ws=ws, scr=scr, op=op: ("%s x=%s" % (op, ws[i]), scr([ws[i]]))))
            norms[key] = norm_for(fn, xv, YV)
    c.run_streams("symbolic operand pairs", items, transitions_per_line=len(Y), norm=norms)

    # unary operations, conversions, sizes
    items, norms = [], {}
    W = A + (vecs("Fab", (4,)) if c.quick else vecs("FTab", (4,)))
    per = (len(W) + 3) // 4
    UN = [("list", "dv x", lambda v, w: v), ("NOT", "dv (%s_NOT x)" % kind, lambda v, w: tuple(~p for p in v)),
          ("ZX", "dv (%s_ZX x)" % kind, lambda v, w: tuple(p if p >= 0 else p + (1 << trimlen(w)) for p in v)),
          ("neg", "dv (%s_neg x)" % kind, lambda v, w: tuple(-p for p in v)),
          ("unary minus", "dv (-x)", lambda v, w: tuple(-p for p in v)),
          ("size ok", "dv (list2%s [%s])" % (kind, "IF (%s_size x = length (%s2list x)) THEN %s ELSE %s" % (
              kind, kind, "bT" if bev else "T", "bF" if bev else "F")) , lambda v, w: (-1,) * ROWS)]
    if bev:
        UN[-1] = ("size", "(%s_size x) = (length (bev2list x)) => \"1.\" | \"0.\"", lambda v, w: (-1,) * ROWS)
        UN[-1] = ("size", "(bev_size x) = (length (bev2list x)) => \"1.\" | \"0.\"", lambda v, w: (-1,) * ROWS)
    else:
        UN[-1] = ("size", "(bv_size x) = (length (bv2list x)) => \"1.\" | \"0.\"", lambda v, w: (-1,) * ROWS)
    for n in range(0, 5):
        UN.append(("ashr %d" % n, "dv (%s_ashr x %d)" % (kind, n), lambda v, w, n=n: tuple(p >> n for p in v)))
    UN.append(("abs", "dv (abs x)", lambda v, w: tuple(abs(p) for p in v)))
    if not bev:
        UN.append(("cond", "dv (IF a THEN x ELSE (bv_NOT x))", lambda v, w: tuple(p if (r >> 1) & 1 else ~p for r, p in enumerate(v))))
        UN.append(("cond2", "dv (b => (int2bv 5) | x)", lambda v, w: tuple(5 if r & 1 else p for r, p in enumerate(v))))
        UN.append(("subst", "dv (substitute [(\"a\",b),(\"b\",NOT a)] x)",
                   lambda v, w: tuple(v[((r & 1) << 1) | (1 - (r >> 1))] for r in range(ROWS))))
        UN.append(("shl", "dv (bv_shl x (int2bv 2))", lambda v, w: tuple(4 * p for p in v)))
        UN.append(("pow", "dv (bv_pow x (int2bv 3))", lambda v, w: tuple(p ** 3 for p in v)))
        UN.append(("ashr sym", "dv (bv_ashr x (list2bv [F,a]))", lambda v, w: tuple(p >> (r >> 1) for r, p in enumerate(v))))
    else:
        UN.append(("subst", "dv (bsubstitute [(\"a\",eb),(\"b\",bNOT ea)] x)",
                   lambda v, w: tuple(v[((r & 1) << 1) | (1 - (r >> 1))] for r in range(ROWS))))
        UN.append(("shl", "dv (bev_shl x (int2bev 2))", lambda v, w: tuple(4 * p for p in v)))
        UN.append(("pow", "dv (bev_pow x (int2bev 3))", lambda v, w: tuple(p ** 3 for p in v)))
        UN.append(("pow sym", "dv (bev_pow (int2bev 3) x)", lambda v, w: tuple(3 ** max(p, 0) for p in v)))
        UN.append(("ashr sym", "dv (bev_ashr x (list2bev [bF,ea]))", lambda v, w: tuple(p >> (r >> 1) for r, p in enumerate(v))))
    for tag, e, fn in UN:
        if tag in ("pow", "pow sym"):
            ws_all = [w for w in W if len(w) <= 3]
        else:
            ws_all = W
        # one line per x: the list of xs is the row
        for lo in range(0, len(ws_all), 64):
            ws = ws_all[lo:lo + 64]
            key = "%s %d" % (tag, lo)
            exp = [" ".join(str(fn(vals(w), w)) for w in ws)]
            scr = lambda ws, e=e: pre + "rows (\\y.\\x. %s) [0] [%s];\nquit;\n" % (e, ",".join(src(w) for w in ws))
            items.append((key, scr(ws), exp, lambda i, ws=ws, scr=scr, tag=tag, lo=lo: ("unary %s %d" % (tag, lo), scr(ws))))
            norms[key] = lambda i, line: " ".join(str(decode(t)) for t in line.split(" ") if t)
    # merge the unary streams into few processes
    merged = merge(items, 8)
    c.run_streams("unary, shifts, conditionals", merged[0], transitions_per_line=64,
                  norm={k: (lambda i, line: " ".join(str(decode(t)) for t in line.split(" ") if t)) for k in merged[1]})

    # concrete values: every pair of integers, and the word-size boundaries
    n = 9 if c.quick else 33
    sm = list(range(-n, n + 1))
    big = sorted(set(s * ((1 << k) + d) for k in ((7, 31, 32, 63, 64) if c.quick else (7, 8, 15, 16, 31, 32, 62, 63, 64, 65))
                     for d in (-1, 0, 1) for s in (1, -1)))
    ints = lambda vs: "[%s]" % ",".join("int2%s %s" % (kind, v if v >= 0 else "(0-%d)" % -v) for v in vs)
    items = []
    for op, k, fn in BIN:
        if k == "V":
            e = '(int2str (%s2int (%s_%s x y))) catch "!"' % (kind, kind, op)
        elif bev:
            e = '(bs (prim_bexpr2bdd (bev_%s x y)))' % op
        else:
            e = '(bs (bv_%s x y))' % op
        for tag, vs, ys in (("small", sm, [y for y in sm if y or op not in ("div", "mod")]),
                            ("wide", big, [y for y in big + [1, -1, 3, -7] if True][::3 if c.quick else 1])):
            ex = []
            for x in vs:
                row = []
                for y in ys:
                    r = fn((x,), (y,))[0]
                    row.append(str(r) if k == "V" else str(-r))
                ex.append("".join(t + " " for t in row))
            if bev and tag == "wide" and op in ("mul", "div", "mod"):
                continue
            scr = lambda xs, e=e, ys=ys: pre + "rows (\\x.\\y. %s) %s %s;\nquit;\n" % (e, ints(xs), ints(ys))
            items.append(("%s %s" % (op, tag), scr(vs), ex,
                          lambda i, vs=vs, scr=scr, op=op, tag=tag: ("%s %s %d" % (op, tag, vs[i]), scr([vs[i]]))))
    e = '(int2str (%s2int x))^","^(int2str (%s2int (%s_NOT y)))' % (kind, kind, kind)
    items.append(("conversions", pre + "rows (\\x.\\y. %s) %s %s;\nquit;\n" % (e, ints(sm + big), ints(sm + big)),
                  ["".join("%d,%d " % (x, ~y) for y in sm + big) for x in sm + big], None))
    c.run_streams("concrete pairs", items, transitions_per_line=len(sm))


def merge(items, k):
    """Concatenates single-line streams into k processes (they share the preamble)."""
    groups = [[] for _ in range(k)]
    for i, it in enumerate(items):
        groups[i % k].append(it)
    out, keys = [], []
    for gi, g in enumerate(groups):
        if not g:
            continue
        pre = g[0][1].split("rows (\\y.\\x.", 1)[0]
        body = "".join(it[1][len(pre):].replace("quit;\n", "") for it in g)
        key = "unary group %d" % gi
        keys.append(key)
        out.append((key, pre + body + "quit;\n", [it[2][0] for it in g], lambda i, g=g: g[i][3](0)))
    return out, keys
