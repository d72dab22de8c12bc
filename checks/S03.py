"""Hierarchical circuits mean their flat netlists: every way of naming a part of a vector as an argument, a formal
or inside a leaf, and every wiring of small module trees, observed on every net of every level."""
import itertools
from vk import hier as H
from vk.hier import Fn, Mod, Flat, TT, vec, var, xvar, slc, cat, expand

PRE = r"""
let sI {n::int} = sprintf "%d" n;
let sV st n {t::int} = (let v = get_trace_val st n t in sprintf "%B/%B" (fst v) (snd v)) gen_catch (\m. "?"^m);
letrec times st n {t::int} {k::int} = (t = k) => "" | (sV st n t)^"|"^(times st n (t+1) k);
let show st k ns = list2str T "" ";" "" (\n. times st n 0 k) ns;
let ant vs k = map (\p. T, (fst p), (variable (snd p)), 0, k) vs;
let run p vs {k::int} ns =
   let ckt = pexlif2fsm p in
   let st = STE "" ckt [] (ant vs k) [] (map (\n. n, 0, k) ns) in
   show st k ns;
"""


def esc(n):
    return n.replace("\\", "\\\\")


def ref_ranges(ix, short):
    """all ways to name some of the indices of one dimension."""
    r = ["[%d]" % i for i in ix]
    s = set(ix)
    for a in ix:
        for b in ix:
            if a != b and set(H.idxs([(a, b)])) <= s:
                r.append("[%d:%d]" % (a, b))
    for a in ix:
        for b in ix:
            if a != b:
                r.append("[%d,%d]" % (a, b))
    if not short:
        for a, b, c in itertools.permutations(ix, 3):
            r.append("[%d,%d,%d]" % (a, b, c))
            if abs(b - c) == 1:
                r.append("[%d,%d:%d]" % (a, b, c))
                r.append("[%d:%d,%d]" % (c, b, a))
    return r


def refs(shape, base, short=True):
    out = [""]
    for t in H.tokens(shape):
        if isinstance(t, str):
            ch = [t]
        else:
            ch = ref_ranges(H.idxs(t), short)
        out = [o + c for o in out for c in ch]
    return [base + o for o in out]


def formals(k, q):
    f = [vec("f", k)]
    if k > 1:
        f += ["f[0:%d]" % (k - 1), "f[%d:1]" % k]
    if k == 4:
        f += ["f[1:0][0:1]"]
    if k == 6:
        f += ["f[0:1][0:2]"]
    if k == 3 and not q:
        f += ["f[4,2,0]", "f[0:1,5]"]
    return f


def circuit(shape, ref, k, F):
    """shape and ref without the base name."""
    P = vec("p", k)
    f = xvar(F)
    body = []
    body.append(Mod("u1", [(F, ["v" + ref])], [(vec("g", k), [vec("o", k)])], [], [Fn("not", var("g", k), [f])]))
    body.append(Mod("u2", [(vec("q", k), [P])], [(F, ["w" + ref])], [], [Fn("wire", f, [var("q", k)])]))
    body.append(Mod("u3", [("h" + shape, ["v" + shape])], [(vec("g", k), [vec("r", k)])], [],
                    [Fn("not", var("g", k), [xvar("h" + ref)])]))
    body.append(Mod("u4", [(vec("q", k), [P])], [("h" + shape, ["z" + shape])], [], [Fn("not", xvar("h" + ref), [var("q", k)])]))
    full = expand("h" + shape)
    n = len(full)
    ix = [n - 1 - full.index(b) for b in expand("h" + ref)]
    if shape:
        body.append(Mod("u5", [(vec("q", k), [P])], [("h" + shape, ["y" + shape])], [],
                        [Fn("wire", slc(ix, xvar("h" + shape)), [var("q", k)])]))
    # through one more level, the part first named inside
    body.append(Mod("u6", [("x" + shape, ["v" + shape]), (P, [P])], [("m" + shape, ["t" + shape])], [],
                    [Mod("u7", [(F, ["x" + ref])], [(vec("g", k), ["m" + ref])], [], [Fn("not", var("g", k), [f])])]))
    ins = [("v" + shape, ["v" + shape]), (P, [P])]
    outs = [(vec("o", k), [vec("o", k)]), ("w" + shape, ["w" + shape])]
    ints = [vec("r", k), "z" + shape, "t" + shape] + (["y" + shape] if shape else [])
    return Mod("top", ins, outs, ints, body)


def case(key, m, nt, times=1, extra=None):
    flat = Flat()
    m.flatten(flat)
    vs, inp, names = [], {}, []
    tt_vars = []
    for f, _ in m.inps:
        for i, b in enumerate(expand(f)):
            v = "x%d" % len(tt_vars)
            tt_vars.append(v)
            vs.append((b, v))
            names.append((flat.names[b], v))
    assert len(vs) <= nt
    T = TTS.setdefault(len(vs), TT(["x%d" % i for i in range(len(vs))]))
    sim = T.simulate(flat, {b: [T.var(v)] * times for b, v in names}, times)
    ns = sorted(flat.names)
    want = [[sim[t][flat.names[n]] for t in range(times)] for n in ns]

    def check(got):
        g = got.split(";")
        if len(g) != len(ns):
            return "expected %d nets, got: %s" % (len(ns), got[:200])
        for n, x, w in zip(ns, g, want):
            for t, (a, b) in enumerate(zip(x.split("|"), w)):
                if "/" not in a:
                    return "%s at %d: %s" % (n, t, x)
                h, l = a.split("/")
                if (T.parse(h), T.parse(l)) != b:
                    return "%s at %d is %s, expected table %x/%x" % (n, t, a, b[0], b[1])
        return None
    e = "run %s [%s] %d [%s]" % (esc(m.fl()), ",".join('("%s","%s")' % (esc(b), v) for b, v in vs), times,
                                 ",".join('"%s"' % esc(n) for n in ns))
    return (key, e, check)


TTS = {}


def naming(c):
    q = c.quick
    shapes = ["", "[2:0]", "[0:2]", "[4:3]", "[3:2,0]", "[0,2:3]", "[1:0][2:0]", "[0:1][0:2]", "[1:0][0:1]", "[2:1][1:2]",
              ".f[1:0]", "[1:0].f[0:1]", "[0:1].f", "\\a[0] [1:0]"]
    if not q:
        shapes += ["[3:0]", "[1:0][1:0][1:0]", "[0:1][0:1][0:1]", "[7,5,3]", "[0:1,4:3]", "[1:0].f[1:0].g[0:1]", "[2:0][0:1]"]
    for sh in shapes:
        cs = []
        seen = set()
        for r in refs(sh, "", q or len(expand("v" + sh)) > 6):
            k = len(expand("v" + r))
            if k > 4 and len(expand("v" + sh)) > 6:
                continue                       # at most 12 variables
            for F in formals(k, q):
                cs.append(case("%s as %s of %s" % ("v" + r, F, "v" + sh), circuit(sh, r, k, F), 12))
        c.run_cases("parts of v%s" % sh, PRE + VARS, cs, transitions_per_case=len(cs[0][1]) // 40)


VARS = 'VARS "%s";\n' % " ".join("x%d" % i for i in range(16))


# --- wiring of module trees
def leafs():
    x, y = var("x", 2), var("y", 2)
    b = lambda n, i: xvar("%s[%d]" % (n, i))
    return {
        "not": [Fn("not", y, [x])],
        "reg": [Fn("wire", y, [x], True)],
        "mix": [Fn("and", b("y", 1), [b("x", 1), b("x", 0)]), Fn("not", b("y", 0), [b("x", 0)], True)],
        "swap": [Fn("or", cat([b("y", 0), b("y", 1)]), [x, slc([0, 0], x)])],
    }


def leaf(kind, a, o):
    return Mod("l_" + kind, [("x[1:0]", a)], [("y[1:0]", o)], [], leafs()[kind])


A1 = [["x[1:0]"], ["x[0]", "x[1]"], ["x[0:1]"], ["x[0]", "x[0]"], ["0b1", "x[1]"], ["x[0]", "0b0"], ["0bx0"]]
O1 = [["t[1:0]"], ["t[2:1]"], ["t[0]", "t[2]"], ["t[0:1]"], ["t[2,0]"]]


def inner(k1, a1, o1, k2, a2, o2, swap):
    b = [leaf(k1, a1, o1), leaf(k2, a2, o2)]
    return b[::-1] if swap else b


def trees(c):
    q = c.quick
    kinds = ["mix", "swap", "reg", "not"]
    cs = []
    n = 0
    A2 = [["t[1:0]"], ["t[2]", "x[1]"], ["t[0]", "t[2]"], ["t[0,2]"], ["x[0]", "t[1]"], ["t[1]", "t[1]"]]
    O2 = [["y[1:0]"], ["y[0]", "y[1]"], ["y[0:1]"]]
    lib = []
    for i, (a1, o1, a2, o2) in enumerate(itertools.product(A1, O1, A2, O2)):
        for j in range(4):
            k1, k2 = kinds[(i + j) % 4], kinds[(i // 4 + 2 * j + 1) % 4]
            body = inner(k1, a1, o1, k2, a2, o2, (i + j) % 2)
            m = Mod("top", [("x[1:0]", ["x[1:0]"])], [("y[1:0]", ["y[1:0]"])], ["t[2:0]"], body)
            cs.append(case("%s %s>%s %s %s>%s%s" % (k1, a1, o1, k2, a2, o2, " (swapped)" * ((i + j) % 2)), m, 4, 3))
            lib.append((k1, a1, o1, k2, a2, o2, (i + j) % 2))
    c.run_cases("two instances", PRE + VARS, cs, transitions_per_case=30)
    # three levels: a module with two instances of two-instance modules
    cs = []
    step = 1
    for i, (a1, o1, a2, o2) in enumerate(itertools.product(A1, O1, A2, O2)):
        if i % step:
            continue
        d1, d2 = lib[(7 * i + 3) % len(lib)], lib[(11 * i + 5) % len(lib)]
        if i % 3 == 0:
            d2 = d1

        def sub(d, a, o):
            return Mod("sub", [("x[1:0]", a)], [("y[1:0]", o)], ["t[2:0]"], inner(*d))
        body = [sub(d1, a1, o1), sub(d2, a2, o2)]
        m = Mod("top", [("x[1:0]", ["x[1:0]"])], [("y[1:0]", ["y[1:0]"])], ["t[2:0]"], body)
        cs.append(case("levels %s>%s %s>%s over %d" % (a1, o1, a2, o2, i), m, 4, 4))
    c.run_cases("three levels", PRE + VARS, cs, transitions_per_case=80)
    # depth: the same wiring repeated 1..8 levels down
    cs = []
    for a in A1[:4] + [["x[1]", "0b1"]]:
        for o in (["y[1:0]"], ["y[0]", "y[1]"], ["y[0:1]"]):
            for k in kinds:
                for depth in range(1, 9):
                    m = leaf(k, a, o)
                    for _ in range(depth):
                        m = Mod("lvl", [("x[1:0]", a)], [("y[1:0]", o)], [], [m])
                    m.name, m.inps, m.outs = "top", [("x[1:0]", ["x[1:0]"])], [("y[1:0]", ["y[1:0]"])]
                    cs.append(case("depth %d %s %s %s" % (depth, k, a, o), m, 4, 3))
    c.run_cases("depth", PRE + VARS, cs, transitions_per_case=30)


def run(c):
    naming(c)
    trees(c)
