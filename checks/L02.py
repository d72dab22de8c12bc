"""L02: type inference accepts exactly the typable expressions and reports their principal types."""
import functools, itertools, re
from vk import core

PRE = '''let hdf l = hd l;
let consf x y = x:y;
let tupf x y = (x,y);
let add a b = i_plus {a::int} {b::int};
let ite c a b = {c::bool} => a | b;
let app f x = f x;
let nilf = [];
lettype {*a} opt = NO | YES *a;
lettype {*a,*b} ei = LE *a | RI *b;
let un e = val (YES x) = e in x;
'''
# name -> type; a type is ("v", n) | (constructor, args...)
V0, V1 = ("v", 0), ("v", 1)
INT, BOOL, STR = ("int",), ("bool",), ("string",)


def fn(a, b):
    return ("->", a, b)


CONST = {
    "1": INT, "T": BOOL, "[]": ("list", V0), "hd": fn(("list", V0), V0), "consf": fn(V0, fn(("list", V0), ("list", V0))),
    "fst": fn(("#", V0, V1), V0), "add": fn(INT, fn(INT, INT)), "ite": fn(BOOL, fn(V0, fn(V0, V0))),
    "NO": ("opt", V0), "YES": fn(V0, ("opt", V0)), "LE": fn(V0, ("ei", V0, V1)), "RI": fn(V1, ("ei", V0, V1)),
    "un": fn(("opt", V0), V0),
}


class No(Exception):
    pass


class U:
    """Unification."""

    def __init__(self):
        self.s = {}
        self.n = 0

    def new(self):
        self.n += 1
        return ("v", "u%d" % self.n)

    def find(self, t):
        while t[0] == "v" and t[1] in self.s:
            t = self.s[t[1]]
        return t

    def occurs(self, v, t):
        t = self.find(t)
        if t[0] == "v":
            return t[1] == v
        return any(self.occurs(v, x) for x in t[1:])

    def unify(self, a, b):
        a, b = self.find(a), self.find(b)
        if a == b:
            return
        if a[0] == "v":
            if self.occurs(a[1], b):
                raise No()
            self.s[a[1]] = b
        elif b[0] == "v":
            self.unify(b, a)
        else:
            if a[0] != b[0] or len(a) != len(b):
                raise No()
            for x, y in zip(a[1:], b[1:]):
                self.unify(x, y)

    def inst(self, t):
        m = {}

        def go(t):
            if t[0] == "v":
                if t[1] not in m:
                    m[t[1]] = self.new()
                return m[t[1]]
            return (t[0],) + tuple(go(x) for x in t[1:])
        return go(t)

    def full(self, t):
        t = self.find(t)
        if t[0] == "v":
            return t
        return (t[0],) + tuple(self.full(x) for x in t[1:])


def infer(u, e, env, glob):
    k = e[0]
    if k == "c":
        return u.inst(glob[e[1]])
    if k == "x":
        return env[e[1]]
    if k == "lam":
        a = u.new()
        return fn(a, infer(u, e[2], dict(env, **{e[1]: a}), glob))
    if k == "ap":
        f = infer(u, e[1], env, glob)
        a = infer(u, e[2], env, glob)
        r = u.new()
        u.unify(f, fn(a, r))
        return r
    if k == "pair":
        return ("#", infer(u, e[1], env, glob), infer(u, e[2], env, glob))
    if k == "cons":
        a = infer(u, e[1], env, glob)
        b = infer(u, e[2], env, glob)
        u.unify(b, ("list", a))
        return b
    if k == "let":      # local definitions are monomorphic in fl
        a = infer(u, e[2], env, glob)
        return infer(u, e[3], dict(env, **{e[1]: a}), glob)
    if k == "letrec":
        a = u.new()
        ne = dict(env, **{e[1]: a})
        u.unify(a, infer(u, e[2], ne, glob))
        return infer(u, e[3], ne, glob)
    if k == "ann":
        a = infer(u, e[1], env, glob)
        u.unify(a, e[2])
        return a
    raise KeyError(k)


def norm(t):
    m = {}

    def go(t):
        if t[0] == "v":
            return ("v", m.setdefault(t[1], len(m)))
        return (t[0],) + tuple(go(x) for x in t[1:])
    return go(t)


def typeof(e, glob=CONST):
    u = U()
    try:
        return norm(u.full(infer(u, e, {}, glob)))
    except No:
        return None


def show(e):
    k = e[0]
    if k in "cx":
        return e[1]
    if k == "lam":
        return "(\\%s. %s)" % (e[1], show(e[2]))
    if k == "ap":
        return "(%s %s)" % (show(e[1]), show(e[2]))
    if k == "pair":
        return "(%s, %s)" % (show(e[1]), show(e[2]))
    if k == "cons":
        return "(%s : %s)" % (show(e[1]), show(e[2]))
    if k == "let":
        return "(let %s = %s in %s)" % (e[1], show(e[2]), show(e[3]))
    if k == "letrec":
        if e[2][0] == "lam":
            return "(letrec %s %s = %s in %s)" % (e[1], e[2][1], show(e[2][2]), show(e[3]))
        return "(letrec %s = %s in %s)" % (e[1], show(e[2]), show(e[3]))
    if k == "ann":
        return "({%s :: %s})" % (show(e[1]), tshow(e[2]))
    raise KeyError(k)


def tshow(t):
    if t[0] == "->":
        return "(%s -> %s)" % (tshow(t[1]), tshow(t[2]))
    if t[0] == "#":
        return "(%s # %s)" % (tshow(t[1]), tshow(t[2]))
    if t[0] == "list":
        return "(%s list)" % tshow(t[1])
    return t[0]


TOK = re.compile(r"\s*(->|#|\{|\}|,|\(|\)|\*+|list\b|ref\b|[a-z_][a-z_0-9]*)")


def parse(s):
    """The type printed by fl."""
    toks = []
    i = 0
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            return ("unreadable", s)
        toks.append(m.group(1))
        i = m.end()
    pos = [0]

    def peek():
        return toks[pos[0]] if pos[0] < len(toks) else None

    def top():          # '#' binds weaker than '->', both are right associative
        a = arrow()
        if peek() == "#":
            pos[0] += 1
            return ("#", a, top())
        return a

    def arrow():
        a = post()
        if peek() == "->":
            pos[0] += 1
            return fn(a, arrow())
        return a

    def post():
        t = peek()
        pos[0] += 1
        if t == "(":
            a = top()
            pos[0] += 1
        elif t == "{":
            args = [top()]
            while peek() == ",":
                pos[0] += 1
                args.append(top())
            pos[0] += 1
            a = (toks[pos[0]],) + tuple(args)
            pos[0] += 1
        elif t and t[0] == "*":
            a = ("v", t)
        else:
            a = (t,)
        while peek() in ("list", "ref"):
            a = (peek(), a)
            pos[0] += 1
        return a
    try:
        r = top()
    except (TypeError, IndexError):
        return ("unreadable", s)
    return norm(r) if pos[0] == len(toks) else ("unreadable", s)


LEAVES = ["1", "T", "[]", "hd", "consf", "fst", "add", "ite"]


@functools.lru_cache(maxsize=None)
def gen(n, env, leaves):
    if n == 1:
        return tuple([("x", v) for v in env] + [("c", k) for k in leaves])
    out = []
    m = n - 1
    v = "vwxyz"[len(env)] if len(env) < 5 else None
    for i in range(1, m):
        for a in gen(i, env, leaves):
            for b in gen(m - i, env, leaves):
                out += [("ap", a, b), ("pair", a, b), ("cons", a, b)]
        if v:
            for b in gen(m - i, env + (v,), leaves):
                if not uses(b, v):
                    continue
                for a in gen(i, env, leaves):
                    out.append(("let", v, a, b))
                for a in gen(i, env + (v,), leaves):
                    if uses(a, v):
                        out.append(("letrec", v, a, b))
    if v:
        for b in gen(m, env + (v,), leaves):
            out.append(("lam", v, b))
    return tuple(out)


def uses(e, v):
    return e == ("x", v) or any(isinstance(x, tuple) and uses(x, v) for x in e[1:])


def prt(t):
    return "rejected" if t is None else str(t)


def ask(c, name, progs, chunk):
    """progs: [(key, [definition, ...], expected type of the last or None)], asked in interactive mode."""
    chunks = [progs[i:i + chunk] for i in range(0, len(progs), chunk)]

    def script(ps):
        out = [PRE]
        for i, (k, ds, t) in enumerate(ps):
            for j, d in enumerate(ds):
                last = j == len(ds) - 1
                out.append("let %s = %s;\n" % ("q%d" % i if last else "p%d" % j, d))
        out.append("let qend = 1;\nquit;\n")
        return "".join(out)

    def answers(r):
        got = {}
        for m in re.finditer(r"^[: ]*q(\d+)::(.*)$", r.out, re.M):
            got[int(m.group(1))] = m.group(2).strip()
        return got, "qend::int" in r.out

    def one(p):
        s = script([p])
        r = core.run_fl(s, stdin_mode=True)
        got, end = answers(r)
        if not end:
            return s, "NO ANSWER (rc=%s) %s" % (r.rc, r.err[-200:])
        return s, prt(parse(got[0]) if 0 in got else None)

    def do(ps):
        if c.full():
            return 0, [], set()
        r = core.run_fl(script(ps), stdin_mode=True)
        got, end = answers(r)
        bad = []
        outs = set()
        n = 0
        for i, p in enumerate(ps):
            g = prt(parse(got[i]) if i in got else None)
            outs.add(g)
            n += 1
            if g != prt(p[2]):
                bad.append(p)
                if not end and i not in got and not any(j > i for j in got):
                    break
        return n, bad, outs
    import hashlib, time
    t0 = time.time()
    tot = 0
    outs = set()
    for n, bad, o in core.pmap(do, chunks):
        tot += n
        outs |= o
        for p in bad:
            if c.full():
                break
            s, g = one(p)
            if g != prt(p[2]):
                c.violation(p[0], prt(p[2]), g, s, "alone", (), stdin_mode=True)
            else:
                k = progs.index(p)
                ps = progs[k - k % chunk:k + 1]
                s = script(ps)
                got, end = answers(core.run_fl(s, stdin_mode=True))
                g = prt(parse(got[len(ps) - 1]) if len(ps) - 1 in got else None)
                if g != prt(p[2]):
                    c.violation(p[0], prt(p[2]), g, s, "with the history before it", (), stdin_mode=True)
    c.states += tot
    c.validated += tot
    c.transitions += tot
    c.outcomes |= set(hashlib.md5(x.encode()).hexdigest() for x in outs)
    c.per_group[name] = {"cases": tot, "distinct_outcomes": len(outs), "wall_s": round(time.time() - t0, 1)}
    if tot != len(progs):
        c.exhaustive = False
    p = progs[len(progs) // 2]
    c.sample({"group": name, "case": p[0], "expected": prt(p[2])})
    print("  %-34s cases=%d outcomes=%d  %.1f s" % (name, tot, len(outs), time.time() - t0), flush=True)


def run(c):
    q = c.quick
    N = 6 if q else 7
    leaves = tuple(LEAVES)
    for n in range(1, N + 1):
        lv = leaves if n <= 4 else ("1", "[]", "hd", "add", "fst") if n == 5 else ("1", "hd")
        ps = [(show(e), [show(e)], typeof(e)) for e in gen(n, (), lv)]
        ask(c, "terms of size %d" % n, ps, 400)
        c.note("all closed untyped terms of %d constructors over the constants %s" % (n, ", ".join(lv)))
    lv = ("NO", "YES", "LE", "RI", "un", "1", "T")
    for n in range(1, 5 if q else 6):
        ps = [(show(e), [show(e)], typeof(e)) for e in gen(n + 1, (), lv)]
        ask(c, "user data types, size %d" % (n + 1), ps, 400)
    c.note("all closed untyped terms over the constructors of two user defined polymorphic types")
    # a definition at top level is polymorphic: use it twice in a second definition
    lv = ("1", "[]", "consf", "fst")
    firsts = [e for n in (1, 2, 3) for e in gen(n, (), lv)]
    ps = []
    for e in firsts:
        t = typeof(e)
        if t is None:
            continue
        g = dict(CONST, p0=t)
        for b in gen(3, (), ("p0", "1", "T")):
            if uses2(b, "p0"):
                ps.append(("%s ; %s" % (show(e), show(b)), [show(e), show(b)], typeof(b, g)))
    seen = set()
    ps = [p for p in ps if not (p[0] in seen or seen.add(p[0]))]
    ask(c, "generalised definitions", ps, 200)
    # annotations
    anns = [INT, BOOL, ("list", INT), fn(INT, INT), fn(INT, ("list", BOOL)), ("#", INT, BOOL), ("list", ("list", INT))]
    ps = []
    for n in (1, 2, 3):
        for e in gen(n, (), ("1", "T", "[]", "consf", "hd")):
            for a in anns:
                x = ("ann", e, a)
                ps.append((show(x), [show(x)], typeof(x)))
    for b in gen(3, ("v",), ("1", "T", "hd")):
        for a in anns:
            x = ("lam", "v", sub(b, ("ann", ("x", "v"), a)))
            ps.append((show(x), [show(x)], typeof(x)))
    seen = set()
    ps = [p for p in ps if not (p[0] in seen or seen.add(p[0]))]
    ask(c, "annotated expressions", ps, 300)
    c.note("two definitions, the first used in the second; type annotations on expressions and variables")


def uses2(e, k):
    return e == ("c", k) or any(isinstance(x, tuple) and uses2(x, k) for x in e[1:])


def sub(e, by):
    if e == ("x", "v"):
        return by
    if e[0] in ("c", "x"):
        return e
    return tuple(sub(x, by) if isinstance(x, tuple) else x for x in e)
