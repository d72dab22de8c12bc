"""L18: evaluating a program on symbolic Booleans gives, under every assignment, the value the program has
on the Booleans of that assignment."""
import itertools

N = 3
NAMES = "abc"
ROWS = list(itertools.product((0, 1), repeat=N))
ALL = frozenset(range(8))


class Err(Exception):
    pass


# ---- values per context: a leaf of type bool is a dict row -> 0/1; everything else is a structure
# ("b", {row: bit}) | ("k", text) constant leaf | ("s", tag, [parts]) | ("v"/"u", {row: int})

def bconst(x):
    return ("b", {r: x for r in ALL})


VARV = {n: ("b", {r: ROWS[r][i] for r in ALL}) for i, n in enumerate(NAMES)}


def merge(ctx_t, x, ctx_e, y):
    if x[0] == "b":
        d = {}
        for r in ctx_t:
            d[r] = x[1][r]
        for r in ctx_e:
            d[r] = y[1][r]
        return ("b", d)
    if x[0] in "vu":
        d = {}
        for r in ctx_t:
            d[r] = x[1][r]
        for r in ctx_e:
            d[r] = y[1][r]
        return (x[0], d)
    if x[0] == "k":
        if x[1] != y[1]:
            raise Err()
        return x
    if x[1] != y[1] or len(x[2]) != len(y[2]):
        raise Err()
    return ("s", x[1], [merge(ctx_t, p, ctx_e, q) for p, q in zip(x[2], y[2])])


def cond(ctx, c, t, e):
    """c: evaluated bool; t, e: functions ctx -> value"""
    tr = frozenset(r for r in ctx if c[1][r])
    fa = ctx - tr
    if not fa:
        return t(ctx)
    if not tr:
        return e(ctx)
    x = t(tr)
    y = e(fa)
    return merge(tr, x, fa, y)


def show(v):
    """Text as printed by the fl side."""
    if v[0] == "b":
        return "".join(str(v[1].get(r, "?")) for r in range(8))
    if v[0] in "vu":
        return ",".join(str(v[1].get(r, "?")) for r in range(8))
    if v[0] == "k":
        return v[1]
    return v[1] + "(" + ";".join(show(p) for p in v[2]) + ")"


def lst(ps):
    return ("s", "L%d" % len(ps), ps)


PRE = '''
VARS "a b c";
lettype tree = LF bool | ND tree tree | NM int;
lettype {*a} opt = NO | YES *a;
let asg = [%s];
let bit x = x == T => "1" | "0";
let land x y = x AND y;
let tt f = itlist (\\s.\\r. (bit (substitute s f))^r) asg "";
let sB f = tt f;
let vint s v = let l = bv2list v in let i = list2bv (map (substitute s) l) in sprintf "%%d" (bv2int i);
let sV v = let r = map (\\s. vint s v) asg in (hd r)^(itlist (\\x.\\y. ","^x^y) (tl r) "");
let sL sx l = "L"^(sprintf "%%d" (length l))^"("^(l = [] => "" | (sx (hd l))^(itlist (\\x.\\y. ";"^(sx x)^y) (tl l) ""))^")";
let sP sx sy (x,y) = "P("^(sx x)^";"^(sy y)^")";
let sI {x::int} = sprintf "%%d" x;
let sS {x::string} = x;
letrec sT (LF x) = "LF("^(sB x)^")" /\\ sT (ND x y) = "ND("^(sT x)^";"^(sT y)^")" /\\ sT (NM i) = "NM("^(sI i)^")";
let sO sx NO = "NO()" /\\ sO sx (YES x) = "YES("^(sx x)^")";
''' % ", ".join("[" + ",".join('("%s",%s)' % (NAMES[i], "FT"[v]) for i, v in enumerate(r)) + "]" for r in ROWS)

# conditions: (text, value)


def mk_conds():
    def tab(f):
        return ("b", {r: int(bool(f(*ROWS[r]))) for r in ALL})
    return [("a", tab(lambda a, b, c: a)), ("b", tab(lambda a, b, c: b)),
            ("NOT a", tab(lambda a, b, c: not a)), ("a AND b", tab(lambda a, b, c: a and b)),
            ("a OR c", tab(lambda a, b, c: a or c)), ("a XOR b", tab(lambda a, b, c: a != b)),
            ("NOT a AND NOT b", tab(lambda a, b, c: not a and not b)), ("a OR T", tab(lambda a, b, c: 1)),
            ("b AND F", tab(lambda a, b, c: 0))]


CONDS = mk_conds()
ERRV = None

T1, F1 = bconst(1), bconst(0)


def neg(v):
    return ("b", {r: 1 - x for r, x in v[1].items()})


def iv(k, t="v"):
    return (t, {r: k for r in ALL})


def leaves():
    a, b, c = VARV["a"], VARV["b"], VARV["c"]
    na = neg(a)
    s = lambda tag, *ps: ("s", tag, list(ps))
    vec = lambda f, t="v": (t, {r: f(*ROWS[r]) for r in ALL})
    L = {}
    L["B"] = ("sB", [("T", T1), ("F", F1), ("c", c), ("(NOT a)", na), ("ERRB", ERRV)])
    L["L"] = ("(sL sB)", [("[T,b]", lst([T1, b])), ("[c,F]", lst([c, F1])), ("[c]", lst([c])), ("[a,a]", lst([a, a])),
                          ("[T,{(error \"e\")::bool}]", ERRV)])
    L["P"] = ("(sP sB (sL sB))", [("(T,[b])", s("P", T1, lst([b]))), ("(c,[a])", s("P", c, lst([a]))),
                                  ("(F,[])", s("P", F1, lst([]))), ("{(error \"e\")::bool#(bool list)}", ERRV)])
    L["I"] = ("sI", [("1", ("k", "1")), ("2", ("k", "2")), ("(3-2)", ("k", "1")),
                     ("100000000000000000000", ("k", "100000000000000000000"))])
    L["S"] = ("sS", [('"x"', ("k", "x")), ('"y"', ("k", "y")), ('("x"^"")', ("k", "x"))])
    L["M"] = ("(sL (sP sI sB))", [("[(1,a),(2,b)]", lst([s("P", ("k", "1"), a), s("P", ("k", "2"), b)])),
                                  ("[(1,c),(2,T)]", lst([s("P", ("k", "1"), c), s("P", ("k", "2"), T1)])),
                                  ("[(1,c),(3,T)]", lst([s("P", ("k", "1"), c), s("P", ("k", "3"), T1)])),
                                  ("(map (\\i. (i, i=1)) [1,2])", lst([s("P", ("k", "1"), T1), s("P", ("k", "2"), F1)]))])
    L["T"] = ("sT", [("(LF a)", s("LF", a)), ("(LF c)", s("LF", c)), ("(ND (LF b) (LF T))", s("ND", s("LF", b), s("LF", T1))),
                     ("(ND (LF c) (LF c))", s("ND", s("LF", c), s("LF", c))), ("(NM 1)", s("NM", ("k", "1"))),
                     ("(ND (NM 1) (LF c))", s("ND", s("NM", ("k", "1")), s("LF", c)))])
    L["O"] = ("(sO (sL sB))", [("NO", s("NO")), ("(YES [a])", s("YES", lst([a]))), ("(YES [c])", s("YES", lst([c]))),
                               ("(YES [])", s("YES", lst([])))])
    L["V"] = ("sV", [("'1", iv(1)), ("'-3", iv(-3)), ("(list2bv [a,b])", vec(lambda a, b, c: -2 * a + b)),
                     ("(list2bv [F,c,T])", vec(lambda a, b, c: 2 * c + 1)), ("(list2bv [c])", vec(lambda a, b, c: -c)),
                     ("(list2bv [F,a,b,c])", vec(lambda a, b, c: 4 * a + 2 * b + c))])
    L["LV"] = ("(sL sV)", [("['1,list2bv [a,b]]", lst([iv(1), vec(lambda a, b, c: -2 * a + b)])),
                           ("[list2bv [c], list2bv [c]]", lst([vec(lambda a, b, c: -c)] * 2)),
                           ("(replicate 2 (list2bv [F,a,b,c]))", lst([vec(lambda a, b, c: 4 * a + 2 * b + c)] * 2))])
    return L


def leaf(v):
    def f(ctx):
        if v is ERRV:
            raise Err()
        return v
    return f


FLT = {"B": "bool", "L": "bool list"}


def txt(t):
    return '{(error "e")::bool}' if t == "ERRB" else t


def case(key, fn, shower, ctx=ALL):
    """fn: ctx -> value; text is made by the caller."""
    try:
        return show(fn(ctx))
    except Err:
        return "EXN"


def trees(c):
    L = leaves()
    for ty, (sh, vs) in sorted(L.items()):
        cases = []
        n = 0
        cs = CONDS if not c.quick else CONDS[:7]
        for (t1, c1) in cs:
            for (x, vx), (y, vy) in itertools.product(vs, vs):
                n += 1
                e = "(%s) => %s | %s" % (t1, txt(x), txt(y))
                cases.append(("%s: %s" % (ty, e), e, case("", lambda k: cond(k, c1, leaf(vx), leaf(vy)), sh)))
        inner = vs if not c.quick else vs[:4]
        for (t1, c1), (t2, c2) in itertools.product(cs, cs):
            if t1 == t2 and t1 in ("a OR T", "b AND F"):
                continue
            for (x, vx), (y, vy), (z, vz) in itertools.product(inner, inner, inner):
                e = "(%s) => ((%s) => %s | %s) | %s" % (t1, t2, txt(x), txt(y), txt(z))
                cases.append(("%s: %s" % (ty, e), e, case("", lambda k: cond(
                    k, c1, lambda k2: cond(k2, c2, leaf(vx), leaf(vy)), leaf(vz)), sh)))
                if x != y or not c.quick:
                    e = "(%s) => %s | ((%s) => %s | %s)" % (t1, txt(z), t2, txt(x), txt(y))
                    cases.append(("%s: %s" % (ty, e), e, case("", lambda k: cond(
                        k, c1, leaf(vz), lambda k2: cond(k2, c2, leaf(vx), leaf(vy))), sh)))
        defs = []
        # each program is a function of its Boolean inputs
        out = [(k, "%s ((\\a.\\b.\\c. %s) a b c)" % (sh, e), exp) for k, e, exp in cases]
        c.run_cases("conditional trees over " + ty, PRE, out, chunk=max(400, len(out) // 16 + 1), timeout=120)


# ---- consumers of conditional values and conditionals inside structures
def consumers(c):
    a, b, cc = VARV["a"], VARV["b"], VARV["c"]
    C = CONDS[:7]
    out = []

    def add(sh, e, fn):
        out.append((e, "%s ((\\a.\\b.\\c. %s) a b c)" % (sh, e), case("", fn, sh)))
    bl = [("T", T1), ("F", F1), ("c", cc), ("(NOT a)", neg(a))]
    el = bl + [("ERRB", ERRV)]

    def pw(f, *vs):
        return ("b", {r: int(bool(f(*[v[1][r] for v in vs]))) for r in set.intersection(*[set(v[1]) for v in vs])})
    # boolean operators over conditionals
    ops = [("AND", lambda x, y: x and y), ("OR", lambda x, y: x or y), ("XOR", lambda x, y: x != y), ("=", lambda x, y: x == y)]
    for (t1, c1), (t2, c2) in itertools.product(C, C):
        for (x, vx), (y, vy) in itertools.product(bl, bl):
            for on, of in ops if not c.quick else ops[:2]:
                add("sB", "((%s) => %s | %s) %s ((%s) => %s | %s)" % (t1, x, y, on, t2, y, x),
                    lambda k: pw(of, cond(k, c1, leaf(vx), leaf(vy)), cond(k, c2, leaf(vy), leaf(vx))))
            # a conditional as condition
            add("sB", "((%s) => %s | %s) => ((%s) => T | b) | c" % (t1, x, y, t2),
                lambda k: cond(k, cond(k, c1, leaf(vx), leaf(vy)),
                               lambda k2: cond(k2, c2, leaf(T1), leaf(b)), leaf(cc)))
    # structures with conditional parts: independent merging of the parts, laziness of the rest
    for (t1, c1), (t2, c2) in itertools.product(C, C):
        for (x, vx), (y, vy) in itertools.product(el, el):
            f1 = lambda k: cond(k, c1, leaf(vx), leaf(vy))
            f2 = lambda k: cond(k, c2, leaf(vy), leaf(vx))
            X, Y = txt(x), txt(y)
            add("sB", "hd [((%s) => %s | %s), ((%s) => %s | %s)]" % (t1, X, Y, t2, Y, X), f1)
            add("sB", "hd ((%s) => [%s,b] | [%s,c])" % (t1, X, Y), f1)
            add("sL sB", "map (\\x. x AND b) [((%s) => %s | %s), ((%s) => %s | %s)]" % (t1, X, Y, t2, Y, X),
                lambda k: lst([pw(lambda p, q: p and q, f1(k), b), pw(lambda p, q: p and q, f2(k), b)]))
            add("sB", "fst ((%s) => (%s,[b]) | (%s,[T]))" % (t1, X, Y), f1)
            # an unused failing branch under a contradicting context is never evaluated
            add("sB", "(%s) => ((%s) => %s | b) | ((%s) => c | %s)" % (t1, t1, X, t1, Y),
                lambda k: cond(k, c1, lambda k2: cond(k2, c1, leaf(vx), leaf(b)),
                               lambda k2: cond(k2, c1, leaf(cc), leaf(vy))))
            # functions as results of conditionals (the same function applied to different arguments)
            if "(NOT a)" not in (x, y):
                add("sB", "((%s) => land %s | land %s) b" % (t1, X, Y),
                    lambda k: pw(lambda p, q: p and q, f1(k), b))
    seen = {}
    for k, e, x in out:
        if k in seen and seen[k][2] != x:
            raise RuntimeError("two answers for " + k)
        seen[k] = (k, e, x)
    out = list(seen.values())
    c.run_cases("consumers of conditional values", PRE, out, chunk=1200, timeout=120)


REC = '''
letrec cnt v n = (v = '0) => n | cnt (v - '1) (n + '1);
letrec sh_ l v = (v = '0) => l | sh_ (tl l @ [hd l]) (v - '1);
letrec pc [] n = n /\\ pc (b:bs) n = b => pc bs (n + '1) | pc bs n;
letrec nth (x:xs) v = (v = '0) => x | nth xs (v - '1);
letrec gcd_ x y = (y = '0) => x | (y > x) => gcd_ y x | gcd_ (x - y) y;
letrec col v n = (v <= '1) => n | ((v % '2) = '0) => col (v / '2) (n + '1) | col ('3*v + '1) (n + '1);
letrec lk [] v = {(error "none")::bool} /\\ lk ((k,d):r) v = (v = k) => d | lk r v;
letrec ins x [] = [x] /\\ ins x (y:ys) = val (m,n) = ((x > y) => (y,x) | (x,y)) in m:(ins n ys);
letrec srt [] = [] /\\ srt (x:xs) = ins x (srt xs);
'''


def recursion(c):
    out = []
    # all vectors of 3 bits over constants and variables; nonnegative
    atoms = [("F", lambda a, b, c: 0), ("T", lambda a, b, c: 1), ("a", lambda a, b, c: a), ("b", lambda a, b, c: b),
             ("(NOT a)", lambda a, b, c: 1 - a)]
    if not c.quick:
        atoms += [("c", lambda a, b, c: c), ("(a AND b)", lambda a, b, c: a & b)]

    def rows(f):
        return [f(*ROWS[r]) for r in range(8)]

    def vtxt(vals):
        return ",".join(map(str, vals))
    vecs = []
    for t in itertools.product(atoms, repeat=3):
        vals = [sum(b << (2 - i) for i, b in enumerate(x[1](*ROWS[r]) for x in t)) for r in range(8)]
        vecs.append(("list2bv [F,%s]" % ",".join(x[0] for x in t), vals, t))
    lv = {r: [ROWS[r][0], ROWS[r][1], ROWS[r][2], 1, 0, 1 - ROWS[r][0], 1, 0] for r in range(8)}
    ltx = "[a,b,c,T,F,(NOT a),T,F]"

    def gcd(x, y):
        while y:
            if y > x:
                x, y = y, x
            else:
                x -= y
        return x

    def add(sh, e, vals):
        out.append((e, "%s ((\\a.\\b.\\c. %s) a b c)" % (sh, e), vals))
    for (v, vals, t) in vecs:
        add("sV", "cnt (%s) '0" % v, vtxt(vals))
        add("sL sB", "sh_ %s (%s)" % (ltx, v), "L8(" + ";".join("".join(str((lv[r][vals[r]:] + lv[r][:vals[r]])[i])
                                                                       for r in range(8)) for i in range(8)) + ")")
        add("sV", "pc (bv2list (%s)) '0" % v, vtxt([bin(x).count("1") for x in vals]))
        add("sB", "nth %s (%s)" % (ltx, v), "".join(str(lv[r][vals[r]]) for r in range(8)))
        okl = all(x < 6 for x in vals)
        add("sB", "lk [('0,a),('1,T),('2,b),('3,F),('4,(NOT c)),('5,c)] (%s)" % v,
            "".join(str([ROWS[r][0], 1, ROWS[r][1], 0, 1 - ROWS[r][2], ROWS[r][2]][vals[r]]) for r in range(8)) if okl else "EXN")
        if not c.quick or vals[0] % 2 == 0:
            def coll(x):
                n = 0
                while x > 1:
                    x = x // 2 if x % 2 == 0 else 3 * x + 1
                    n += 1
                return n
            add("sV", "col (%s) '0" % v, vtxt([coll(x) for x in vals]))
    sub = vecs[:: (1 if not c.quick else 3)]
    for (v, vals, t) in sub:
        for (w, wals, t2) in (vecs[31], vecs[57], vecs[88], vecs[102]):
            if all(x + y > 0 for x, y in zip(vals, wals)):
                add("sV", "gcd_ (%s) (%s)" % (v, w), vtxt([gcd(x, y) for x, y in zip(vals, wals)]))
            ss = [sorted([vals[r], wals[r], 3]) for r in range(8)]
            add("sL sV", "srt [%s, '3, %s]" % (v, w), "L3(" + ";".join(vtxt([ss[r][i] for r in range(8)]) for i in range(3)) + ")")
    c.run_cases("recursion on symbolic vectors", PRE + REC, out, chunk=60 if c.quick else 120, timeout=120)


# ---- assignments to references inside conditionals
def refs(c):
    """statements over two references to bool: per-assignment imperative semantics"""
    atoms = [("r := T", lambda s, e: (1, s[1])), ("r := (NOT (deref s))", lambda s, e: (1 - s[1], s[1])),
             ("s := (deref r)", lambda s, e: (s[0], s[0])), ("s := c", lambda s, e: (s[0], e[2])),
             ("r := ((deref r) XOR b)", lambda s, e: (s[0] ^ e[1], s[1]))]
    cnd = [("a", lambda s, e: e[0]), ("b", lambda s, e: e[1]), ("(NOT a)", lambda s, e: 1 - e[0]),
           ("(deref r)", lambda s, e: s[0]), ("(a OR (deref s))", lambda s, e: e[0] | s[1])]
    if not c.quick:
        atoms.append(("s := F", lambda s, e: (s[0], 0)))
        cnd.append(("(a AND b)", lambda s, e: e[0] & e[1]))
    ident = lambda s, e: s
    st1 = [(t, f) for t, f in atoms]
    for (ct, cf), (t, f) in itertools.product(cnd, atoms):
        st1.append(("(%s => (%s) | ())" % (ct, t), lambda s, e, cf=cf, f=f: f(s, e) if cf(s, e) else s))
    both = []
    for (ct, cf), (t, f), (u, g) in itertools.product(cnd, atoms, atoms):
        if t != u:
            both.append(("(%s => (%s) | (%s))" % (ct, t, u),
                         lambda s, e, cf=cf, f=f, g=g: f(s, e) if cf(s, e) else g(s, e)))
    nest = []
    for (ct, cf), (dt, df), (t, f), (u, g) in itertools.product(cnd, cnd, atoms, atoms):
        if t != u and ct != dt:
            nest.append(("(%s => ((%s) fseq (%s => (%s) | ())) | (%s))" % (ct, t, dt, u, u),
                         lambda s, e, cf=cf, df=df, f=f, g=g:
                         (lambda s1: g(s1, e) if df(s1, e) else s1)(f(s, e)) if cf(s, e) else g(s, e)))
    progs = [(p,) for p in st1 + both + nest]
    progs += [(p, q) for p in st1 for q in st1]
    if c.quick:
        progs += [(p, q) for p in both[::7] for q in st1]
    else:
        progs += [(p, q) for p in both for q in st1] + [(p, q) for p in st1 for q in both]
        progs += [(p, q, r) for p in atoms for q in st1[len(atoms):] for r in st1]
    out = []
    for init in ("FF", "cT") if not c.quick else ("cT",):
        for p in progs:
            body = " fseq ".join("(%s)" % s[0] if not s[0].startswith("(") else s[0] for s in p)
            e = "let r = ref {%s::bool} in let s = ref {%s::bool} in let z = %s in z seq (deref r, deref s)" % (
                init[0], init[1], body)
            fin = []
            for row in ROWS:
                st = tuple({"F": 0, "T": 1, "c": row[2]}[x] for x in init)
                for s in p:
                    st = s[1](st, row)
                fin.append(st)
            exp = "P(" + ";".join("".join(str(f[i]) for f in fin) for i in (0, 1)) + ")"
            out.append((init + ": " + body, "sP sB sB ((\\a.\\b.\\c. %s) a b c)" % e, exp))
    c.run_cases("assignments inside conditionals", PRE, out, chunk=400, timeout=120)


# ---- a memoised function called in several contexts
def memo(c):
    pre = PRE + '''
clet mf x y = x => y | (NOT y);
clet ml x y = x => [y,T] | [F,y];
cletrec mr v n = (v = '0) => n | mr (v - '1) (n + '1);
'''
    out = []
    C = CONDS[:7]

    def tb(f):
        return {r: f(*ROWS[r]) for r in range(8)}
    ar = [("a", tb(lambda a, b, c: a)), ("(NOT a)", tb(lambda a, b, c: 1 - a)), ("(a AND b)", tb(lambda a, b, c: a & b)),
          ("T", tb(lambda a, b, c: 1)), ("c", tb(lambda a, b, c: c))]
    for (t1, c1) in C:
        for (x, vx), (y, vy) in itertools.product(ar, ar):
            mf = lambda p, q: {r: q[r] if p[r] else 1 - q[r] for r in range(8)}
            g, h = mf(vx, vy), mf(vy, vx)
            st = lambda d: "".join(str(d[r]) for r in range(8))
            ite = lambda d, e: {r: d[r] if c1[1][r] else e[r] for r in range(8)}
            e = "(((%s) => mf %s %s | mf %s %s), [mf %s %s, mf %s %s])" % (t1, x, y, y, x, x, y, y, x)
            out.append((e, "sP sB (sL sB) ((\\a.\\b.\\c. %s) a b c)" % e,
                        "P(%s;L2(%s;%s))" % (st(ite(g, h)), st(g), st(h))))
            ml = lambda p, q: ({r: q[r] if p[r] else 0 for r in range(8)}, {r: 1 if p[r] else q[r] for r in range(8)})
            A, B = ml(vx, vy), ml(vy, vx)
            e = "(((%s) => ml %s %s | ml %s %s), ml %s %s)" % (t1, x, y, y, x, x, y)
            out.append((e, "sP (sL sB) (sL sB) ((\\a.\\b.\\c. %s) a b c)" % e,
                        "P(L2(%s;%s);L2(%s;%s))" % (st(ite(A[0], B[0])), st(ite(A[1], B[1])), st(A[0]), st(A[1]))))
            e = "(%s) => mr (list2bv [F,%s,%s]) '0 | mr (list2bv [F,%s]) '1" % (t1, x, y, y)
            out.append((e, "sV ((\\a.\\b.\\c. %s) a b c)" % e, ",".join(
                str(2 * vx[r] + vy[r] if c1[1][r] else vy[r] + 1) for r in range(8))))
    c.run_cases("memoised functions in contexts", pre, out, chunk=300, timeout=120)


def shared(c):
    """Shared conditionals first evaluated where their condition is decided."""
    out = []
    for nm, use in (("pair", "(y, x)"), ("value only", "y seq x")):
        sh = "sP sB sB" if nm == "pair" else "sB"
        for (t1, neg1, exp) in (("NOT a", 1, "P(00001111;00001111)"), ("a", 0, "P(11111111;00001111)")):
            e = "let x = (a => T | F) in let y = (%s) => %s in %s" % (t1, "x | T" if neg1 else "x | T", use)
            y = {r: (0 if not ROWS[r][0] else 1) if neg1 else 1 for r in range(8)}
            x = {r: ROWS[r][0] for r in range(8)}
            st = lambda d: "".join(str(d[r]) for r in range(8))
            out.append(("shared: " + e, "%s ((\\a.\\b.\\c. %s) a b c)" % (sh, e),
                        "P(%s;%s)" % (st(y), st(x)) if nm == "pair" else st(x)))
    out.append(("closed: function without use of its argument",
                "sB ((\\k. (NOT a) => kf 1 | kf 2) 0)", "00001111"))
    # each in its own process: the effect is permanent
    c.run_cases("shared conditionals", PRE + "let kf {k::int} = (a => T | F);\n", out, chunk=1, timeout=120)


def run(c):
    trees(c)
    consumers(c)
    recursion(c)
    refs(c)
    memo(c)
    shared(c)
    c.note("all conditionals with 1 condition and all with 2 nested ones from %d conditions over 11 value types; "
           "recursion over all 3-bit vectors of %d bit functions; assignment programs of up to %d statements" % (
               7 if c.quick else 9, 5 if c.quick else 7, 2 if c.quick else 3))
