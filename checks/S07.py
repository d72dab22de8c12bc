"""S07: a design written in HFL computes what its operators and components say."""
import itertools
import re
from checks.S02 import PRE as SPRE, columns

W = {"bit": 1, "u2": 2, "s2": 2, "u3": 3, "s3": 3, "u4": 4, "st": 6, "se": 5, "en": 2, "mx": 3, "ec": 3, "un": 3}

HIER = '''let inc =
 u2_input x.
 u2_output z.
 CELL "inc" [ z <- (x '+' '1) ];
let swp =
 u2_input x.
 u2_output z.
 CELL "swp" [ z <- (x ~~~ [0,1]) ];
let both =
 u2_input x y.
 u2_output z w.
 u2_internal m.
 CELL "both" [ m <- (x '&' y), z <- (m '|' '2), w <- (m '^' x) ];
let lst =
 u2_list_input {xs::u2 list}.
 u2_output z.
 CELL "lst" [ z <- (itlist (\\a.\\b. a '-' b) xs '0) ];
let lou =
 u2_input x.
 list_output {zs::bit list}.
 CELL "lou" (map2 (\\z.\\i. z <- (x '=' ''i)) zs (0 upto ((length zs)-1)));
let any =
 input x y.
 output z.
 CELL "any" [ z <- (x '&' ('~' y)) ];
'''


PRE = '''load "ste.fl";
UNSIGNED "u2" 2;
SIGNED "s2" 2;
UNSIGNED "u3" 3;
SIGNED "s3" 3;
UNSIGNED "u4" 4;
ENUM "en" ["EA","EB","EC"];
ENUM "ec" [("CA",5),("CB",0),("CC",2)];
MUTEX_ENUM "mx" ["MA","MB","MC"];
STRUCT "st" ["fa" ? "u2", "fb" ? "bit", "fc" ? "s3"];
STRUCT "se" 5 [("ga","u2",[0,1]),("gb","bit",[2]),("gc","u2",[4,3])];
''' + HIER + SPRE + '''
let tr2 ste n = implode (map (\\(t,(H,L)). sprintf "%d%s " t (cd H L)) (get_trace ste n));
let trs ste ns = let s = implode (map (\\n. (tr2 ste n)^"/") ns) in s seq (print ("\\n@"^s^"\\n"));
'''


def nodes(n, t):
    w = W[t]
    return [n] if w == 1 else ["%s[%d]" % (n, w - 1 - i) for i in range(w)]


def tobits(v, w):
    return tuple((v >> (w - 1 - i)) & 1 for i in range(w))


def num(b):
    r = 0
    for x in b:
        r = 2 * r + x
    return r


def sg(v, w):
    return v - (1 << w) if v >> (w - 1) & 1 else v


class Case:
    """A cell with typed inputs, outputs and internals and a body of statements; f(*input values) gives the tuple of
    output values (None: not judged)."""

    def __init__(self, key, ins, outs, body, f, ints=(), pre=""):
        self.key, self.ins, self.outs, self.body, self.f, self.ints, self.pre = key, ins, outs, body, f, ints, pre
        self.nb = sum(W[t] for _, t in ins)

    def rows(self):
        return ["".join(p) for p in itertools.product("01x" if self.nb <= 4 else "01", repeat=self.nb)]

    def decl(self, nm):
        s = self.pre + "let %s =\n" % nm
        for k, l in (("input", self.ins), ("output", self.outs), ("internal", self.ints)):
            for n, t in l:
                s += " %s_%s %s.\n" % (t, k, n)
        s += ' CELL "%s" [\n  %s\n ];\n' % (nm, ",\n  ".join(self.body))
        return s

    def script(self, nm, rows):
        inn = [x for n, t in self.ins for x in nodes(n, t)]
        outn = [x for n, t in self.outs for x in nodes(n, t)]
        q = lambda l: "[%s]" % ",".join('"%s"' % x for x in l)
        return self.decl(nm) + 'let ck = pexlif2fsm (%s %s);\n' % (nm, " ".join("'" + n for n, _ in list(self.ins) + list(self.outs))) + \
            'let ss = STE "-e" ck [] (ants %s %s) [] [] "";\ntrs ss %s;\n' % (q(inn), q(rows), q(outn))

    def judge(self, rows, got):
        res = {}
        ow = [W[t] for _, t in self.outs]
        for r, g in zip(rows, got):
            if "z" in g:
                return r, "no contradiction", g
            if "x" not in r:
                vals, p = [], 0
                for _, t in self.ins:
                    vals.append(int(r[p:p + W[t]], 2))
                    p += W[t]
                v = self.f(*vals)
                if v is None:
                    res[r] = None
                    continue
                e = ""
                for o, w in zip(v, ow):
                    e += "x" * w if o is None else "".join(map(str, tobits(o, w)))
                res[r] = e
                if any(a != b for a, b in zip(e, g) if a != "x"):
                    return r, e, g
        for r, g in zip(rows, got):
            if "x" in r:
                ok = [res["".join(p)] for p in itertools.product(*[("0", "1") if ch == "x" else (ch,) for ch in r])]
                if None in ok:
                    continue
                for i, ch in enumerate(g):
                    if ch != "x" and any(o[i] not in (ch, "x") for o in ok):
                        return r, "not " + ch + " in every completion", g
        return None


class Seq(Case):
    """step(i, p): i the inputs of this phase, p a function giving the value of a signal in the phase before; returns all
    signals.  keep lists the signals step looks back at."""

    def __init__(self, key, ins, outs, body, step, keep, seqs, **kw):
        Case.__init__(self, key, ins, outs, body, None, **kw)
        self.step, self.keep, self.seqs = step, keep, seqs

    def rows(self):
        return self.seqs

    def simulate(self, rows):
        wid = dict((n, W[t]) for n, t in list(self.ins) + list(self.outs) + list(self.ints))
        wid.update(self.step(None, None) or {})
        names = [n for n, _ in self.ins]
        ter = dict((k, (2,) * wid[k]) for k in self.keep)
        sts = set(itertools.product(*[list(itertools.product((0, 1), repeat=wid[k])) for k in self.keep]))
        memo = {}
        out = []
        for r in rows:
            i, p = {}, 0
            for n, t in self.ins:
                i[n] = tuple("01x".index(ch) for ch in r[p:p + W[t]])
                p += W[t]
            s = self.step(i, ter)
            ter = dict((k, s[k]) for k in self.keep)
            pess = "".join("01x"[b] for n, _ in self.outs for b in s[n])
            key = (r, frozenset(sts))
            if key not in memo:
                nxt, res = set(), None
                for comp in itertools.product(*[(0, 1) if ch == "x" else (int(ch),) for ch in r]):
                    j, p = {}, 0
                    for n, t in self.ins:
                        j[n] = comp[p:p + W[t]]
                        p += W[t]
                    for st in sts:
                        s = self.step(j, dict(zip(self.keep, st)))
                        nxt.add(tuple(s[k] for k in self.keep))
                        o = [b for n, _ in self.outs for b in s[n]]
                        res = o if res is None else [a if a == b else 2 for a, b in zip(res, o)]
                memo[key] = (nxt, "".join("01x"[b] for b in res))
            sts, ex = memo[key]
            out.append((pess, ex))
        return out

    def judge(self, rows, got):
        for t, (r, g, (pess, ex)) in enumerate(zip(rows, got, self.simulate(rows))):
            for a, lo, hi in zip(g, pess, ex):
                if a == "z" or (a == "x" and lo != "x") or (a != "x" and a != hi):
                    return "%s (phase %d, before: %s)" % (r, t, " ".join(rows[max(0, t - 4):t])), \
                        pess if pess == ex else "%s to %s" % (pess, ex), g
        return None


def run_cases(c, name, cases, per=60):
    seen = set()
    cases = [x for x in cases if not (x.key in seen or seen.add(x.key))]
    for i in range(0, len(cases), 8 * per):
        _run(c, name if len(cases) <= 8 * per else "%s %d" % (name, i // (8 * per) + 1), cases[i:i + 8 * per])


def _run(c, name, cases):
    n = min(8, (len(cases) + 3) // 4)
    items, norm = [], {}
    for k in range(n):
        part = cases[k::n]
        rl = [x.rows() for x in part]
        scr = PRE + "".join(x.script("t%d" % j, r) for j, (x, r) in enumerate(zip(part, rl))) + "quit;\n"
        key = "%s %s .. %s" % (name, part[0].key, part[-1].key)

        def nf(j, l, part=part, rl=rl):
            if j >= len(part):
                return l
            x, rows = part[j], rl[j]
            cols = columns(l, len(rows))
            if len(cols) != sum(W[t] for _, t in x.outs):
                return "unreadable " + l[:100]
            got = ["".join(col[t] for col in cols) for t in range(len(rows))]
            b = x.judge(rows, got)
            return "ok %d" % len(rows) if b is None else "%s: inputs %s = %s: expected %s = %s, got %s" % (
                "; ".join(x.body), " ".join("%s:%s" % y for y in x.ins), b[0], " ".join(y for y, _ in x.outs), b[1], b[2])
        norm[key] = nf
        for j in range(len(part)):
            norm[part[j].key] = lambda jj, l, j=j, nf=nf: nf(j, l)

        def single(j, part=part, rl=rl):
            return part[j].key, PRE + part[j].script("t", rl[j]) + "quit;\n"
        items.append((key, scr, ["ok %d" % len(r) for r in rl], single))
    tot = sum(len(x.rows()) for x in cases)
    before = c.states
    c.run_streams(name, items, norm=norm)
    if c.states - before == len(cases):
        c.states += tot - len(cases)
        c.transitions += tot
        c.validated += tot - len(cases)


def pack(cases, k):
    """cells with up to k of the statements, over the same inputs"""
    by = {}
    for x in cases:
        by.setdefault(tuple(sorted(x.ins)), []).append(x)
    out = []
    for ins, l in sorted(by.items()):
        for i in range(0, len(l), k):
            part = l[i:i + k]
            if len(part) == 1:
                out.append(part[0])
                continue
            outs, body, pre = [], [], ""
            for j, x in enumerate(part):
                assert len(x.outs) == 1 and len(x.body) == 1 and not x.ints and not x.pre
                outs.append(("o%d" % j, x.outs[0][1]))
                # each statement is a function of its own: the type checker gives up on long definitions
                pre += "let f%d %s {o::%s} = %s;\n" % (j, " ".join("{%s::%s}" % y for y in ins), x.outs[0][1], x.body[0])
                body.append("f%d %s o%d" % (j, " ".join(n for n, _ in ins), j))

            def f(*v, part=part, ins=ins):
                e = dict(zip([n for n, _ in ins], v))
                r = []
                for x in part:
                    y = x.f(*[e[n] for n, _ in x.ins])
                    r.append(None if y is None else y[0])
                return tuple(r)
            out.append(Case(part[0].key + " and %d more" % (len(part) - 1), list(ins), outs, body, f, pre=pre))
    return out


# ---------------------------------------------------------------- expressions
class E:
    def __init__(self, t, txt, f, vs=()):
        self.t, self.txt, self.f, self.vs = t, txt, f, tuple(vs)


VARS = {"bit": ["a", "b", "c", "d"], "u2": ["p", "q", "y"], "s2": ["r", "s", "z"], "u3": ["m"], "s3": ["n"]}


def V(t, i=0):
    n = VARS[t][i]
    return E(t, n, lambda e: e[n], [(n, t)])


def C(t, v, form="%d"):
    w = W[t]
    if v < 0:
        return E(t, "'-%d" % -v, lambda e: v % (1 << w))
    return E(t, "'" + form % v, lambda e: v)


def mk(t, txt, f, *args):
    vs = []
    for x in args:
        vs += [v for v in x.vs if v not in vs]
    return E(t, "(" + txt % tuple(x.txt for x in args) + ")", lambda e: f(*[x.f(e) for x in args]), vs)


def ops2(t):
    """[(result type, text, function)] of two arguments of type t"""
    w = W[t]
    M = (1 << w) - 1
    l = [(t, "%s '&' %s", lambda a, b: a & b), (t, "%s '|' %s", lambda a, b: a | b), (t, "%s '^' %s", lambda a, b: a ^ b),
         ("bit", "%s '=' %s", lambda a, b: int(a == b)), ("bit", "%s '!=' %s", lambda a, b: int(a != b))]
    if t != "bit":
        k = (lambda v: sg(v, w)) if t[0] == "s" else (lambda v: v)
        l += [(t, "%s '+' %s", lambda a, b: (a + b) & M), (t, "%s '-' %s", lambda a, b: (a - b) & M),
              (t, "%s '*' %s", lambda a, b: (a * b) & M),
              ("bit", "%s '>' %s", lambda a, b: int(k(a) > k(b))), ("bit", "%s '<' %s", lambda a, b: int(k(a) < k(b))),
              ("bit", "%s '>=' %s", lambda a, b: int(k(a) >= k(b))), ("bit", "%s '<=' %s", lambda a, b: int(k(a) <= k(b)))]
    if t[0] == "u":
        l += [(t, "%s '/' %s", lambda a, b: a // b if b else None), (t, "%s '%%' %s", lambda a, b: a % b if b else None),
              (t, "%s '<<' %s", lambda a, b: (a << b) & M), (t, "%s '>>' %s", lambda a, b: a >> b),
              (t, "%s '|>>' %s", lambda a, b: (sg(a, w) >> b) & M)]
    return l


def ann(x):
    return E(x.t, "{%s :: %s}" % (x.txt, x.t), x.f, x.vs)


def strict(f):
    return lambda *a: None if any(x is None for x in a) else f(*a)


def case_of(x, key=None):
    ins = [(n, t) for n, t in x.vs] or [("a", "bit")]
    return Case(key or "o:%s <- %s" % (x.t, x.txt), ins, [("o", x.t)], ["o <- %s" % x.txt],
                lambda *v: (lambda r: None if r is None else (r,))(x.f(dict(zip([n for n, _ in ins], v)))))


def level1(quick=False):
    out = []
    for t in ("bit", "u2", "s2", "u3", "s3"):
        w = W[t]
        vs = [V(t, 0)] + ([V(t, 1)] if w < 3 else [])
        cs = [C(t, v) for v in range(1 << w)] if t[0] != "s" else \
            [C(t, v) for v in range(-(1 << (w - 1)), 1 << (w - 1))]
        for x in cs + [C(t, v, "0x%x") for v in range(1 << w)] + [E(t, "'0b" + format(v, "b"), lambda e, v=v: v) for v in range(1 << w)]:
            out.append(case_of(x))
        if t[0] == "s":
            out += [case_of(C(t, v)) for v in range(1 << (w - 1), 1 << w)]
        out.append(case_of(mk(t, "'~' %s", lambda a, w=w: ~a & ((1 << w) - 1), vs[0])))
        out.append(case_of(vs[0]))
        for rt, txt, f in ops2(t):
            prs = [(vs[0], vs[-1])] + ([(vs[0], vs[0])] if len(vs) > 1 else [])
            prs += [(vs[0], k) for k in cs] + [(k, vs[0]) for k in cs]
            if w == 3 and quick:
                prs = [(vs[0], k) for k in cs[:1] + cs[-2:]] + [(k, vs[0]) for k in cs[:1] + cs[-2:]]
            if w < 3:
                prs += list(itertools.product(cs, cs))
            if txt in ("%s '/' %s", "%s '%%' %s"):
                # refused when the circuit is built
                prs = [(x, y) for x, y in prs if x.vs or y.txt != "'0"]
            out += [case_of(mk(rt, txt, strict(f), E(t, "{%s :: %s}" % (x.txt, t), x.f, x.vs), y)) for x, y in prs]
    for t, o in (("bit", "bit"), ("bit", "u2"), ("bit", "s3"), ("u2", "u2"), ("u2", "u3"), ("s2", "s3"), ("s2", "u3"), ("u2", "u4")):
        x = V(t)
        ty = "{%%s :: %s}" % t
        out.append(case_of(mk(o, "ZX " + ty, lambda a: a, x)))
        out.append(case_of(mk(o, "SX " + ty, lambda a, t=t, o=o: sg(a, W[t]) % (1 << W[o]), x)))
    return out


def exprs1(t):
    """one expression per operator giving a t, over fresh variables"""
    out = []
    for u in ("bit", "u2", "s2"):
        for rt, txt, f in ops2(u):
            if rt == t:
                out.append(mk(rt, txt, strict(f), V(u, 0), V(u, 1)))
    w = W[t]
    out.append(mk(t, "'~' %s", lambda a: ~a & ((1 << w) - 1), V(t, 0)))
    out.append(mk(t, "IF %s THEN %s ELSE %s", lambda c, a, b: a if c else b, V("bit", 2), V(t, 0), V(t, 1)))
    return out


def level2(quick):
    out = []
    for u in ("bit", "u2", "s2"):
        z = V(u, 2)
        if u == "bit":
            ks = [C(u, 0), C(u, 1)]
        else:
            ks = [C(u, 1), C(u, 2)] if u == "u2" else [C(u, 1), C(u, -1)]
        if quick:
            ks = ks[1:]
        ks = [ann(k) for k in ks]
        for x in exprs1(u):
            w = W[u]
            out.append(mk(u, "'~' %s", strict(lambda a, w=w: ~a & ((1 << w) - 1)), x))
            for rt, txt, f in ops2(u):
                if quick and u == "s2" and not re.search("'[-+<>=]+'", txt):
                    continue
                for y in [z] + ks:
                    out.append(mk(rt, txt, strict(f), x, y))
                    out.append(mk(rt, txt, strict(f), y, x))
                out.append(mk(rt, txt, strict(f), x, x))
            out.append(mk(u, "IF %s THEN %s ELSE %s", strict(lambda c, a, b: a if c else b), V("bit", 3), x, z))
            out.append(mk(u, "IF %s THEN %s ELSE %s", strict(lambda c, a, b: a if c else b), V("bit", 3), z, x))
            if u != "bit":
                out.append(mk("u3", "ZX %s", strict(lambda a: a), mk(u, "{%s :: " + u + "}", lambda a: a, x)))
                out.append(mk("s3", "SX %s", strict(lambda a: sg(a, 2) % 8), mk(u, "{%s :: " + u + "}", lambda a: a, x)))
                out.append(mk("bit", "%s ~~ 0", strict(lambda a: a & 1), x))
                out.append(mk("bit", "%s ~~ 1", strict(lambda a: a >> 1), x))
                out.append(mk(u, "%s ~~~ [0,1]", strict(lambda a: (a & 1) << 1 | a >> 1), x))
                out.append(mk("u3", "%s ++ %s", strict(lambda a, b: a << 1 | b), x, V("bit", 3)))
                out.append(mk("u3", "%s ++ %s", strict(lambda b, a: b << 2 | a), V("bit", 3), x))
        if u == "bit":
            for x in exprs1("bit"):
                for t in ("u2", "s2"):
                    out.append(mk(t, "IF %s THEN %s ELSE %s", strict(lambda c, a, b: a if c else b), x, V(t, 0), V(t, 2)))
    res, seen = [], set()
    for x in out:
        if x.txt not in seen and sum(W[t] for _, t in x.vs) <= 9:
            seen.add(x.txt)
            res.append(case_of(x))
    return res


def formulas(quick):
    """and/or trees with four leaves and negations anywhere: the wide gates of the assignment"""
    res = []
    names = ["a", "b", "c", "d"]

    def trees(l):
        if len(l) == 1:
            yield l[0], None
            return
        for i in range(1, len(l)):
            for x in trees(l[:i]):
                for y in trees(l[i:]):
                    yield (x, y), None

    def shapes(l):
        if len(l) == 1:
            yield l[0]
            return
        for i in range(1, len(l)):
            for x in shapes(l[:i]):
                for y in shapes(l[i:]):
                    yield (x, y)

    def fill(s):
        if isinstance(s, str):
            yield E("bit", s, lambda e: e[s], [(s, "bit")])
            return
        for x in fill(s[0]):
            for y in fill(s[1]):
                for rt, txt, f in ops2("bit")[:2]:
                    z = mk("bit", txt, f, x, y)
                    yield z
                    yield mk("bit", "'~' %s", lambda a: 1 - a, z)
    for s in shapes(names):
        res += [case_of(x) for x in fill(s)]
    leafneg = []
    for s in ((("a", "b"), "c"), ("a", ("b", "c"))):
        for x in fill(s):
            t = x.txt
            for m in range(1, 8):
                tt = t
                for i, n in enumerate("abc"):
                    if m >> i & 1:
                        tt = tt.replace(n, "('~' %s)" % n)
                leafneg.append(case_of(E("bit", tt, lambda e, x=x, m=m: x.f(dict((n, e[n] ^ (m >> i & 1)) for i, n in enumerate("abc"))), x.vs)))
    return res + (leafneg if not quick else [])


def conditionals(quick=False):
    """nested conditionals with equal and different results, written as IF, CASE and MUX"""
    out = []
    for t in ("bit", "u2"):
        va, vb = (V("bit", 3), C("bit", 1)) if t == "bit" else (V(t, 0), V(t, 1))
        vals = [va, vb, mk(t, "%s '|' %s", lambda a, b: a | b, va, vb if t == "u2" else V("bit", 2)), C(t, 0)]
        conds = [V("bit", 0), V("bit", 1), mk("bit", "%s '&' %s", lambda a, b: a & b, V("bit", 0), V("bit", 1)),
                 mk("bit", "'~' %s", lambda a: 1 - a, V("bit", 0)), ann(C("bit", 1))]
        if t == "u2":
            conds.append(mk("bit", "%s '=' %s", lambda a, b: int(a == b), va, C("u2", 1)))
        if quick:
            conds = [conds[i] for i in ((0, 1, 2) if t == "bit" else (2, 3, 4, 5))]
        ite = lambda c, a, b: mk(t, "IF %s THEN %s ELSE %s", lambda c, a, b: a if c else b, c, a, b)
        for c1, c2 in itertools.product(conds, repeat=2):
            for x, y, z in itertools.product(vals[:3], repeat=3):
                if len(set((x.txt, y.txt, z.txt))) == 3 and x is not vals[0]:
                    continue
                out.append(case_of(ite(c1, x, ite(c2, y, z))))
                out.append(case_of(ite(c1, ite(c2, x, y), z)))
        for n in (1, 2, 3):
            if quick and n == 3:
                continue
            cl = conds[:3] if t == "bit" else [conds[1], conds[-1], conds[0]]
            for rs in itertools.product(range(4), repeat=n + 1):
                if n == 3 and len(set(rs)) > 2:
                    continue
                for rot in range(n):
                    cs = [cl[(rot + i) % len(cl)] for i in range(n)]
                    allx = cs + [vals[r] for r in rs]
                    vs = []
                    for x in allx:
                        vs += [v for v in x.vs if v not in vs]
                    vs = vs or [("a", "bit")]

                    def f(*v, vs=vs, cs=cs, rs=rs, vals=vals):
                        e = dict(zip([x for x, _ in vs], v))
                        for cc, r in zip(cs, rs):
                            if cc.f(e):
                                return (vals[r].f(e),)
                        return (vals[rs[-1]].f(e),)
                    body = "CASE o [%s] %s" % (", ".join("(%s, %s)" % (cc.txt, vals[r].txt) for cc, r in zip(cs, rs)), vals[rs[-1]].txt)
                    out.append(Case("%s:%s" % (t, body), vs, [("o", t)], [body], f))
    res, seen = [], set()
    for x in out:
        if x.key not in seen:
            seen.add(x.key)
            res.append(x)
    return res


def lhs_forms():
    out = []
    for perm in itertools.permutations(range(3)):
        l = "o ~~~ [%s]" % ",".join(map(str, perm))

        def f(v, perm=perm):
            r = 0
            for i, j in enumerate(perm):
                r |= (v >> (2 - i) & 1) << j
            return (r,)
        out.append(Case("lhs %s" % l, [("m", "u3")], [("o", "u3")], ["(%s) <- m" % l], f))
        out.append(Case("lhs %s expression" % l, [("m", "u3")], [("o", "u3")], ["(%s) <- (m '+' '1)" % l],
                        lambda v, f=f: f((v + 1) & 7)))
        out.append(Case("lhs bits %s" % (perm,), [("m", "u3")], [("o", "u3")],
                        ["(o ~~ %d) <- (m ~~ %d)" % (j, 2 - i) for i, j in enumerate(perm)], f))
        out.append(Case("rhs slice %s" % (perm,), [("m", "u3")], [("o", "u3")], ["o <- (m ~~~ [%s])" % ",".join(map(str, perm))],
                        lambda v, perm=perm: (num([v >> j & 1 for j in perm]),)))
        out.append(Case("frombits tobits %s" % (perm,), [("m", "u3")], [("o", "u3")],
                        ["o <- frombits [%s]" % ",".join("el %d (tobits m)" % (j + 1) for j in perm)],
                        lambda v, perm=perm: (num([tobits(v, 3)[j] for j in perm]),)))
        out.append(Case("unsplit split %s" % (perm,), [("m", "u3")], [("o", "u3")],
                        ["o <- hw_unsplit [%s]" % ",".join("el %d (hw_split m)" % (j + 1) for j in perm)],
                        lambda v, perm=perm: (num([tobits(v, 3)[j] for j in perm]),)))
        out.append(Case("unsplit split of an expression %s" % (perm,), [("m", "u3")], [("o", "u3")],
                        ["o <- hw_unsplit [%s]" % ",".join("el %d (hw_split (m '-' '1))" % (j + 1) for j in perm)],
                        lambda v, perm=perm: (num([tobits((v - 1) & 7, 3)[j] for j in perm]),)))
    out.append(Case("lhs concatenation", [("m", "u3")], [("x", "bit"), ("o", "u2")], ["({(x ++ o)::u3}) <- m"], lambda v: (v >> 2, v & 3)))
    out.append(Case("lhs concatenation of an expression", [("m", "u3")], [("o", "u2"), ("x", "bit")], ["({(o ++ x)::u3}) <- (m '+' '3)"],
                    lambda v: ((v + 3 & 7) >> 1, (v + 3) & 1)))
    for pos in range(3):
        for n in (1, 2):
            if pos + n > 3:
                continue
            t = "bit" if n == 1 else "u2"
            idx = ",".join(str(i) for i in range(pos + n - 1, pos - 1, -1))
            out.append(Case("slice [%s]" % idx, [("m", "u3")], [("o", t)], ["o <- {(m ~~~ [%s]) :: %s}" % (idx, t)],
                            lambda v, pos=pos, n=n: (v >> pos & ((1 << n) - 1),)))
            out.append(Case("slice [%s] of an expression" % idx, [("m", "u3")], [("o", t)], ["o <- {((m '*' m) ~~~ [%s]) :: %s}" % (idx, t)],
                            lambda v, pos=pos, n=n: ((v * v & 7) >> pos & ((1 << n) - 1),)))
    return out


def records():
    out = []
    ST = [("fa", "u2", [5, 4]), ("fb", "bit", [3]), ("fc", "s3", [2, 1, 0])]
    SE = [("ga", "u2", [0, 1]), ("gb", "bit", [2]), ("gc", "u2", [4, 3])]

    def get(v, idx):
        return num([v >> i & 1 for i in idx])

    def put(v, idx, x):
        for k, i in enumerate(idx):
            b = x >> (len(idx) - 1 - k) & 1
            v = v & ~(1 << i) | b << i
        return v
    for t, fl in (("st", ST), ("se", SE)):
        for n, ft, idx in fl:
            out.append(Case("%s %s" % (t, n), [("s", t)], [("o", ft)], ["o <- (%s s)" % n], lambda v, idx=idx: (get(v, idx),)))
            out.append(Case("%s --> %s" % (t, n), [("s", t)], [("o", ft)], ["o <- (s-->%s)" % n], lambda v, idx=idx: (get(v, idx),)))
            out.append(Case("%s <-- %s" % (t, n), [("s", t), ("x", ft)], [("o", t)], ["o <- (s <-- %s ? x)" % n],
                            lambda v, x, idx=idx: (put(v, idx, x),)))
            out.append(Case("%s --> %s after <-- %s" % (t, n, n), [("s", t), ("x", ft)], [("o", ft)], ["o <- ((s <-- %s ? ('~' x))-->%s)" % (n, n)],
                            lambda v, x, ft=ft: (~x & ((1 << W[ft]) - 1),)))
            for n2, ft2, idx2 in fl:
                if n2 != n:
                    out.append(Case("%s <-- %s <-- %s" % (t, n, n2), [("s", t), ("x", ft), ("y", ft2)][0:3], [("o", t)],
                                    ["o <- ((s <-- %s ? x) <-- %s ? y)" % (n, n2)],
                                    lambda v, x, y, idx=idx, idx2=idx2: (put(put(v, idx, x), idx2, y),)))
                    out.append(Case("%s <-- %s read %s" % (t, n, n2), [("s", t), ("x", ft)], [("o", ft2)],
                                    ["o <- ((s <-- %s ? x)-->%s)" % (n, n2)], lambda v, x, idx2=idx2: (get(v, idx2),)))
        args = [("xyz"[i], f[1]) for i, f in enumerate(fl)]

        def all_(*a, fl=fl):
            v = 0
            for x, f in zip(a, fl):
                v = put(v, f[2], x)
            return v
        out.append(Case("mk_%s" % t, args, [("o", t)], ["o <- (mk_%s x y z)" % t], lambda *a, g=all_: (g(*a),)))
        for i, f in enumerate(fl):
            out.append(Case("%s of mk_%s" % (f[0], t), args, [("o", f[1])], ["o <- (%s (mk_%s x y z))" % (f[0], t)],
                            lambda *a, i=i: (a[i],)))
        out.append(Case("field by field %s" % t, args, [("o", t)], ["(o-->%s) <- %s" % (f[0], "xyz"[i]) for i, f in enumerate(fl)],
                        lambda *a, g=all_: (g(*a),)))
        out.append(Case("mk_%s of its fields" % t, [("s", t)], [("o", t)], ["o <- (mk_%s %s)" % (t, " ".join("(%s s)" % f[0] for f in fl))],
                        lambda v: (v,)))
        out.append(Case("%s equality" % t, [("s", t)], [("o", "bit")], ["o <- (s '=' (s <-- %s ? (%s s)))" % (fl[0][0], fl[0][0])], lambda v: (1,)))
    enums = {"en": {"EA": 0, "EB": 1, "EC": 2}, "ec": {"CA": 5, "CB": 0, "CC": 2}, "mx": {"MA": 1, "MB": 2, "MC": 4}}
    for t, d in enums.items():
        for k, v in d.items():
            out.append(Case("%s constant %s" % (t, k), [("a", "bit")], [("o", t)], ["o <- %s" % k], lambda a, v=v: (v,)))
            out.append(Case("%s enum_value %s" % (t, k), [("a", "bit")], [("o", t)], ['o <- (enum_value "%s")' % k], lambda a, v=v: (v,)))
            out.append(Case("%s is_%s" % (t, k), [("e", t)], [("o", "bit")], ["o <- (is_%s e)" % k],
                            lambda e, v=v, d=d: (int(e == v),) if e in d.values() else None))
            out.append(Case("%s = %s" % (t, k), [("e", t)], [("o", "bit")], ["o <- (e '=' %s)" % k], lambda e, v=v: (int(e == v),)))
            for k2, v2 in d.items():
                out.append(Case("%s IF %s %s" % (t, k, k2), [("e", t), ("a", "bit")], [("o", t)],
                                ["o <- (IF (is_%s e '&' a) THEN %s ELSE e)" % (k, k2)],
                                lambda e, a, v=v, v2=v2, d=d: (v2 if e == v and a else e,) if e in d.values() else None))
    return out


def components():
    out = []
    U = lambda n: ("u%d" % n if n > 1 else "bit")
    for t in ("bit", "u2"):
        out.append(Case("MUX %s" % t, [("c", "bit"), ("p", t), ("q", t)], [("o", t)], ["MUX c p q o"], lambda c, p, q: (p if c else q,)))
        out.append(Case("MUX %s with expressions" % t, [("c", "bit"), ("p", t), ("q", t)], [("o", t)], ["MUX ('~' c) (p '&' q) (p '|' q) o"],
                        lambda c, p, q: (p & q if not c else p | q,)))
    out.append(Case("MUX3", [("c", "bit"), ("d", "bit"), ("p", "u2")], [("o", "u2")], ["MUX c p '1 x", "MUX d x '2 o"],
                    lambda c, d, p: ((p if c else 1) if d else 2,), ints=[("x", "u2")]))
    for it, at, ot in (("u2", "bit", "bit"), ("u3", "u2", "bit"), ("u4", "u2", "bit"), ("u4", "bit", "u2"), ("u4", "u2", "u2")):
        n = W[it] // W[ot]
        out.append(Case("SELECT %s %s %s" % (it, at, ot), [("v", it), ("k", at)], [("o", ot)], ["SELECT v k o"],
                        lambda v, k, n=n, w=W[ot]: (v >> (k * w) & ((1 << w) - 1),) if k < n else (None,)))
    for n, at in ((1, "bit"), (2, "bit"), (3, "u2"), (4, "u2")):
        out.append(Case("SELECT_list %d" % n, [("k", at)] + [("w%d" % i, "bit") for i in range(n)], [("o", "bit")],
                        ["SELECT_list [%s] k o" % ",".join("w%d" % i for i in range(n))],
                        lambda k, *w, n=n: (w[n - 1 - k],) if k < n else (None,)))
    for at, ot in (("bit", "u2"), ("u2", "u4")):
        out.append(Case("DECODER %s" % at, [("k", at)], [("o", ot)], ["DECODER k o"], lambda k: (1 << k,)))
        out.append(Case("EN_DECODER %s" % at, [("e", "bit"), ("k", at)], [("o", ot)], ["EN_DECODER e k o"], lambda e, k: (1 << k if e else 0,)))
        n = 1 << W[at]
        bits = [("w%d" % i, "bit") for i in range(n)]
        out.append(Case("DECODER_list %s" % at, [("k", at)], bits, ["DECODER_list k [%s]" % ",".join(x for x, _ in bits)],
                        lambda k, n=n: tuple(int(n - 1 - i == k) for i in range(n))))
        out.append(Case("EN_DECODER_list %s" % at, [("e", "bit"), ("k", at)], bits, ["EN_DECODER_list e k [%s]" % ",".join(x for x, _ in bits)],
                        lambda e, k, n=n: tuple(int(n - 1 - i == k and e) for i in range(n))))
    low = lambda v: (v & -v).bit_length() - 1
    for it, at in (("u2", "bit"), ("u3", "u2"), ("u4", "u2")):
        out.append(Case("ENCODER %s" % it, [("v", it)], [("ok", "bit"), ("o", at)], ["ENCODER v ok o"],
                        lambda v: (1, low(v)) if v else (0, None)))
    for n, at in ((2, "bit"), (3, "u2"), (4, "u2"), (5, "u3"), (6, "u3"), (7, "u3"), (8, "u3")):
        bits = [("w%d" % i, "bit") for i in range(n)]

        def f(*w, n=n):
            v = num(w)
            return (1, low(v)) if v else (0, None)
        out.append(Case("list_ENCODER %d" % n, bits, [("ok", "bit"), ("o", at)], ["list_ENCODER [%s] ok o" % ",".join(x for x, _ in bits)], f))
    for vt, nt, at in (("u2", "bit", "bit"), ("u3", "bit", "u2"), ("u4", "u2", "bit"), ("u4", "bit", "u2")):
        w = W[nt]
        m = (1 << w) - 1
        out.append(Case("INSERT %s %s %s" % (vt, nt, at), [("v", vt), ("x", nt), ("k", at)], [("o", vt)], ["INSERT v x k o"],
                        lambda v, x, k, w=w, m=m, n=W[vt] // w: (v & ~(m << k * w) | x << k * w if k < n else v,)))
    for n in range(0, 6):
        bits = [("w%d" % i, "bit") for i in range(n)]
        l = "[%s]" % ",".join(x for x, _ in bits)
        ins = bits or [("a", "bit")]
        fs = [("OR_n", lambda *w: (int(any(w)),)), ("AND_n", lambda *w: (int(all(w)),)), ("XOR_n", lambda *w: (sum(w) & 1,))]
        for k, f in fs:
            if n == 0 and k == "XOR_n":
                continue
            out.append(Case("%s %d" % (k, n), ins, [("o", "bit")], ["o <- (%s %s)" % (k, l)],
                            f if n else (lambda a, k=k: (0 if k == "OR_n" else 1,))))
        if n:
            for nm, fn, f in (("and", "wAND", fs[1][1]), ("or", "wOR", fs[0][1]), ("xor", "wXOR", fs[2][1])):
                out.append(Case("reduce_tree %s %d" % (nm, n), ins, [("o", "bit")], ["reduce_tree %s %s o" % (fn, l)], f))
    for n in (1, 2, 3, 4, 5):
        bits = [("w%d" % i, "u2") for i in range(min(n, 4))]
        if n < 5:
            out.append(Case("reduce_tree + %d" % n, bits, [("o", "u2")], ["reduce_tree wADD [%s] o" % ",".join(x for x, _ in bits)],
                            lambda *w: (sum(w) & 3,)))
            out.append(Case("reduce_tree - %d" % n, bits, [("o", "u2")], ["reduce_tree wSUB [%s] o" % ",".join(x for x, _ in bits)],
                            (lambda *w: (tree(lambda a, b: (a - b) & 3, w),))))
    for t in ("bit", "u2", "u3", "u4"):
        out.append(Case("is_mutex %s" % t, [("v", t)], [("o", "bit")], ["o <- is_mutex v"], lambda v: (int(bin(v).count("1") <= 1),)))
        out.append(Case("is_strong_mutex %s" % t, [("v", t)], [("o", "bit")], ["o <- is_strong_mutex v"], lambda v: (int(bin(v).count("1") == 1),)))
    for n in (1, 2, 3):
        cs = [("abc"[i], "bit") for i in range(n)]
        rs = ["p", "(p '+' q)", "'2"]
        vf = [lambda p, q: p, lambda p, q: (p + q) & 3, lambda p, q: 2]
        for perm in itertools.permutations(range(3), n):
            out.append(Case("MUTEX_CASE %d %s" % (n, perm), cs + [("p", "u2"), ("q", "u2")], [("o", "u2")],
                            ["MUTEX_CASE o [%s]" % ",".join("(%s,%s)" % (cs[i][0], rs[k]) for i, k in enumerate(perm))],
                            lambda *v, perm=perm, n=n: (vf[perm[v[:n].index(1)]](*v[n:]) if 1 in v[:n] else 0,) if sum(v[:n]) <= 1 else None))
    return out


def tree(f, l):
    if len(l) == 1:
        return l[0]
    k = len(l) // 2
    return f(tree(f, l[:k]), tree(f, l[k:]))


def hierarchy():
    out = []
    acts = [("p", lambda p, q: p), ("'2", lambda p, q: 2), ("(p '^' q)", lambda p, q: p ^ q), ("(q ~~~ [0,1])", lambda p, q: (q & 1) << 1 | q >> 1),
            ("{((p ~~ 0) ++ (q ~~ 1)) :: u2}", lambda p, q: (p & 1) << 1 | q >> 1), ("(IF (p '>' q) THEN p ELSE '1)", lambda p, q: p if p > q else 1)]
    sw = lambda v: (v & 1) << 1 | v >> 1
    one = [("inc", lambda x: (x + 1) & 3), ("swp", sw)]
    io = [("p", "u2"), ("q", "u2")]

    def add(key, outs, body, f, ints=()):
        out.append(Case("hier " + key, io, outs, body, f, ints=ints))
    o = [("o", "u2")]
    for (n1, f1), (a, fa) in itertools.product(one, acts):
        add("%s %s" % (n1, a), o, ["%s %s o" % (n1, a)], lambda p, q, f1=f1, fa=fa: (f1(fa(p, q)),))
        add("%s %s permuted" % (n1, a), o, ["%s %s (o ~~~ [0,1])" % (n1, a)], lambda p, q, f1=f1, fa=fa: (sw(f1(fa(p, q))),))
        add("%s %s bits" % (n1, a), [("g", "bit"), ("h", "bit")], ["%s %s {(g ++ h)::u2}" % (n1, a)],
            lambda p, q, f1=f1, fa=fa: (f1(fa(p, q)) >> 1, f1(fa(p, q)) & 1))
        for n2, f2 in one:
            add("%s %s %s" % (n1, n2, a), o, ["%s %s m" % (n1, a), "%s m o" % n2], lambda p, q, f1=f1, f2=f2, fa=fa: (f2(f1(fa(p, q))),), [("m", "u2")])
            add("%s %s %s, reversed" % (n1, n2, a), o, ["%s (m '^' p) o" % n2, "%s %s m" % (n1, a)],
                lambda p, q, f1=f1, f2=f2, fa=fa: (f2(f1(fa(p, q)) ^ p),), [("m", "u2")])
    for (a, fa), (b, fb) in itertools.product(acts, repeat=2):
        add("both %s %s" % (a, b), [("o", "u2"), ("o2", "u2")], ["both %s %s o o2" % (a, b)],
            lambda p, q, fa=fa, fb=fb: ((fa(p, q) & fb(p, q)) | 2, (fa(p, q) & fb(p, q)) ^ fa(p, q)))
        add("any %s %s" % (a, b), o, ["any %s %s o" % (a, b)], lambda p, q, fa=fa, fb=fb: (fa(p, q) & ~fb(p, q) & 3,))
        add("lst [%s,%s]" % (a, b), o, ["lst [%s,%s] o" % (a, b)], lambda p, q, fa=fa, fb=fb: ((fa(p, q) - fb(p, q)) & 3,))
        add("lst [%s,p,%s]" % (a, b), o, ["lst [%s,p,%s] o" % (a, b)], lambda p, q, fa=fa, fb=fb: ((fa(p, q) - (p - fb(p, q))) & 3,))
    for a, fa in acts:
        add("lst [%s]" % a, o, ["lst [%s] o" % a], lambda p, q, fa=fa: (fa(p, q),))
        bits = [("w%d" % i, "bit") for i in range(3)]
        add("lou %s" % a, bits, ["lou %s [w0,w1,w2]" % a], lambda p, q, fa=fa: tuple(int(fa(p, q) == i) for i in range(3)))
        add("any bit %s" % a, [("g", "bit")], ["any ({%s::u2} ~~ 0) (q ~~ 1) g" % a.strip("{}").replace(" :: u2", "")], lambda p, q, fa=fa: (fa(p, q) & 1 & ~(q >> 1),))
    return out


# ---------------------------------------------------------------- state
def ite(c, a, b):
    c = c[0]
    return a if c == 1 else b if c == 0 else tuple(x if x == y else 2 for x, y in zip(a, b))


def inv(a):
    return tuple((1, 0, 2)[x] for x in a)


def an(a, b):
    return tuple(0 if 0 in (x, y) else 2 if 2 in (x, y) else 1 for x, y in zip(a, b))


def eqv(a, b):
    if any(x != 2 and y != 2 and x != y for x, y in zip(a, b)):
        return (0,)
    return (2,) if 2 in a or 2 in b else (1,)


def debruijn(k, n):
    a = [0] * (k * n)
    seq = []

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    return seq + seq[:n - 1]


def histories(alphabet, order, limit=400):
    """runs that together contain every history of `order` inputs of the alphabet; each starts from an unknown state"""
    s = [alphabet[i] for i in debruijn(len(alphabet), order)]
    out = []
    i = 0
    while i < len(s):
        out.append(s[i:i + limit])
        i += limit - order + 1
        if i + order - 1 >= len(s):
            break
    return out


def alpha(widths, chars="01x"):
    return ["".join(p) for p in itertools.product(chars, repeat=sum(widths))]


def sequential(quick):
    out = []

    def add(key, ins, outs, body, step, keep, alphabet, order, **kw):
        for k, h in enumerate(histories(alphabet, order)):
            out.append(Seq("%s run %d" % (key, k), ins, outs, body, step, keep, h, **kw))

    def edge(i, p, fall):
        return an(p["clk"], inv(i["clk"])) if fall else an(inv(p["clk"]), i["clk"])

    def ff(reset=None, en=False, sync=False, val=0, fall=False):
        def step(i, p):
            if i is None:
                return {"cur": None, "mid": None}
            w = len(i["d"])
            v = tobits(val, w) if isinstance(val, int) else val(w)
            cur = ite(edge(i, p, fall), p["mid"], p["cur"])
            q = cur
            if reset and not sync:
                q = ite(i[reset], v, cur)
            mid = i["d"]
            if en:
                mid = ite(i["en"], mid, q)
            if reset:
                mid = ite(i[reset], v, mid)
            return {"clk": i["clk"], "cur": cur, "q": q, "mid": mid}
        return step
    ones = lambda w: (1,) + (0,) * 0 if w == 1 else tobits(1, w)
    kinds = [("re_ff", [], dict()), ("re_ff_reset", ["reset"], dict(reset="reset")), ("re_ff_set", ["set"], dict(reset="set", val=1)),
             ("re_ff_en", ["en"], dict(en=True)), ("re_ff_en_reset", ["en", "reset"], dict(en=True, reset="reset")),
             ("re_ff_en_reset_with_value '1", ["en", "reset"], dict(en=True, reset="reset", val=1)),
             ("re_ff_sreset", ["reset"], dict(reset="reset", sync=True)),
             ("re_ff_en_sreset", ["en", "reset"], dict(en=True, reset="reset", sync=True)),
             ("re_ff_en_sreset_with_value '1", ["en", "reset"], dict(en=True, reset="reset", sync=True, val=1)),
             ("fe_ff", [], dict(fall=True)), ("fe_ff_reset", ["reset"], dict(reset="reset", fall=True)),
             ("fe_ff_en", ["en"], dict(en=True, fall=True)), ("fe_ff_en_reset", ["en", "reset"], dict(en=True, reset="reset", fall=True))]

    def wrap(t, st):
        def step(i, p):
            if i is None:
                return {"cur": W[t], "mid": W[t]}
            return st(i, p)
        return step
    for nm, ctl, kw in kinds:
        n = 2 + len(ctl)
        ins = [("clk", "bit")] + [(x, "bit") for x in ctl] + [("d", "bit")]
        body = ["%s clk %s q" % (nm, " ".join(ctl + ["d"]))]
        keep = ["clk", "mid", "cur"]
        st = ff(**kw)
        tern = alpha([n])
        if n == 4:
            # at most one unknown input at a time
            tern = [a for a in tern if a.count("x") <= 1]
        add(nm, ins, [("q", "bit")], body, wrap("bit", st), keep, tern if n < 4 or not quick else alpha([n], "01"),
            (4 if not quick else 3) if n == 2 else 2 if n == 3 else 2)
        add(nm + " Boolean", ins, [("q", "bit")], body, wrap("bit", st), keep, alpha([n], "01"), {2: 5, 3: 3, 4: 2}[n] + (0 if quick or n == 4 else 1))
        ins2 = ins[:-1] + [("d", "u2")]
        a2 = [a + b for a in alpha([n - 1], "01") for b in ("01", "10", "x1")]
        add(nm + " u2", ins2, [("q", "u2")], body, wrap("u2", st), keep, a2 if n < 4 else [x for x in a2 if x[-2:] != "x1"], 3 if n == 2 else 2)
        body = ["%s ('~' clk) %s q" % (nm, " ".join(["('~' %s)" % x for x in ctl] + ["(d '^' e)"]))]

        def st2(i, p, st=st):
            if i is None:
                return {"cur": 1, "mid": 1}
            j = dict((k, inv(v)) for k, v in i.items())
            d = tuple(2 if 2 in (x, y) else x ^ y for x, y in zip(i["d"], i["e"]))
            j["d"] = d
            s = dict(st(j, p))
            return s
        add(nm + " expressions", ins + [("e", "bit")], [("q", "bit")], body, st2, keep, alpha([n + 1], "01"), 2 if n < 4 else 2)
    for nm, lo in (("ah_latch", 0), ("al_latch", 1)):
        def st(i, p, lo=lo):
            if i is None:
                return {}
            e = inv(i["en"]) if lo else i["en"]
            return {"q": ite(e, i["d"], p["q"])}
        add(nm, [("en", "bit"), ("d", "bit")], [("q", "bit")], ["%s en d q" % nm], st, ["q"], alpha([2]), 3)
        add(nm + " u2", [("en", "bit"), ("d", "u2")], [("q", "u2")], ["%s en d q" % nm], st, ["q"], alpha([3]), 2)
        add(nm + " expressions", [("en", "bit"), ("d", "bit")], [("q", "bit")], ["%s ('~' en) (d '|' '0) q" % nm],
            lambda i, p, st=st: {} if i is None else st(dict(i, en=inv(i["en"])), p), ["q"], alpha([2]), 2)
    # delays in phases
    for N in range(0, 4):
        for rst in (False, True):
            def st(i, p, N=N, rst=rst):
                if i is None:
                    return dict(("s%d" % k, 1) for k in range(1, N + 1))
                s = {"s0": i["d"]}
                if rst:
                    s["m0"] = ite(i["reset"], (0,), i["d"])
                for k in range(1, N + 1):
                    s["s%d" % k] = p["k%d" % (k - 1)]
                for k in range(N):
                    v = s["s%d" % k]
                    s["k%d" % k] = ite(i["reset"], (0,), v) if rst else v
                s["q"] = s["s%d" % N]
                return s

            def st_(i, p, st=st, N=N):
                return dict(("k%d" % k, 1) for k in range(N)) if i is None else st(i, p)
            keep = ["k%d" % k for k in range(N)]
            ins = ([("reset", "bit")] if rst else []) + [("d", "bit")]
            nm = ("rst_phase_delay %d reset" if rst else "phase_delay %d") % N
            add(nm, ins, [("q", "bit")], ["%s d q" % nm], st_, keep, alpha([len(ins)]), (5 if not rst else 3) if N else 2)
    # delays in clock cycles
    for N in range(0, 4):
        for rst in (False, True):
            def st(i, p, N=N, rst=rst):
                if i is None:
                    r = dict(("c%d" % k, 1) for k in range(N))
                    r.update(("m%d" % k, 1) for k in range(N))
                    return r
                s = {"clk": i["clk"]}
                v = i["d"]
                for k in range(N):
                    cur = ite(edge(i, p, False), p["m%d" % k], p["c%d" % k])
                    s["c%d" % k] = cur
                    s["m%d" % k] = ite(i["reset"], (0,), v) if rst else v
                    v = ite(i["reset"], (0,), cur) if rst else cur
                s["q"] = v
                return s
            keep = ["clk"] + ["%s%d" % (x, k) for k in range(N) for x in "cm"]
            ins = [("clk", "bit")] + ([("reset", "bit")] if rst else []) + [("d", "bit")]
            nm = ("rst_delay %d" if rst else "delay %d") % N
            body = ["%s clk %sd q" % (nm, "reset " if rst else "")]
            add(nm, ins, [("q", "bit")], body, st, keep, alpha([len(ins)], "01"), (5 if quick else 6) if not rst else 3)
            if N in (1, 2):
                add(nm + " unknowns", ins, [("q", "bit")], body, st, keep, alpha([len(ins)]) if not rst else [x for x in alpha([3]) if x.count("x") <= 1], 2)
    for N in range(0, 4):
        def st(i, p, N=N):
            if i is None:
                return dict(("h%d" % k, 2) for k in range(N))
            s = {"h0": i["v"]}
            for k in range(1, N):
                s["h%d" % k] = p["h%d" % (k - 1)]
            ok = (1,)
            prev = i["v"]
            for k in range(N):
                # equality of consecutive phases
                s["e%d" % k] = eqv(p["h%d" % k], prev)
                prev = p["h%d" % k]
                ok = an(ok, s["e%d" % k])
            s["ok"] = ok
            return s
        add("is_stable %d" % N, [("v", "u2")], [("ok", "bit")], ["is_stable %d v ok" % N], st, ["h%d" % k for k in range(N)],
            alpha([2], "01"), 4)
    # state tables
    c3 = [("a", "bit"), ("b", "bit")]

    def table(en):
        def st(i, p):
            if i is None:
                return {"n": 2}
            cur = ite(edge(i, p, False), p["n"], p["st"])
            one = ite(an(i["a"], i["b"]), (0, 1), ite(i["b"], (1, 0), ite(i["a"], add2(cur), cur)))
            if en:
                one = ite(i["en"], one, cur)
            return {"clk": i["clk"], "st": cur, "n": one}
        return st

    def add2(v):
        return (2, 2) if 2 in v else tobits((num(v) + 1) & 3, 2)
    for en in (False, True):
        nm = "EN_STATE clk en" if en else "STATE clk"
        ins = [("clk", "bit")] + ([("en", "bit")] if en else []) + c3
        body = ["%s st [ (a '&' b) --- '1, b --- '2, a --- (st '+' '1) ]" % nm]
        add(nm, ins, [("st", "u2")], body, table(en), ["clk", "st", "n"], alpha([len(ins)], "01"), 3 if not en else 2)
    # Moore machines: all machines with up to two transitions per state over a small set of conditions
    conds = [("a", lambda i: i["a"]), ("('~' a)", lambda i: inv(i["a"])), ("b", lambda i: i["b"]), ("(a '&' b)", lambda i: an(i["a"], i["b"]))]
    sts = [("EA", (0, 0)), ("EB", (0, 1)), ("EC", (1, 0))]
    trs = []
    for (c1, c2) in itertools.product(range(4), repeat=2):
        trs.append([(0, c1, 1), (1, c2, 2), (2, c1, 0)])
        trs.append([(0, c1, 1), (0, c2, 2), (1, 0, 0)])
        trs.append([(0, 0, 1), (1, c1, 2), (1, c2, 0), (2, 2, 2)])
        trs.append([(1, c1, 0), (0, 2, 1), (1, c2, 2), (2, 3, 1)])
    for k, tr in enumerate(trs):
        s0 = k % 3

        def st(i, p, tr=tr, s0=s0):
            if i is None:
                return {"n": 2, "i": 2}
            cur = ite(edge(i, p, False), p["n"], p["i"])
            state = ite(i["reset"], sts[s0][1], cur)
            nx = state
            for src in reversed([x for j, x in enumerate([t[0] for t in tr]) if x not in [t[0] for t in tr][:j]]):
                v = sts[src][1]
                for f, c, t in reversed([x for x in tr if x[0] == src]):
                    v = ite(conds[c][1](i), sts[t][1], v)
                nx = ite(eqv(state, sts[src][1]), v, nx)
            return {"clk": i["clk"], "i": cur, "state": state, "n": ite(i["reset"], sts[s0][1], nx)}
        body = ['Moore_FSM "fsm" clk state (reset --- %s) [%s]' % (sts[s0][0], ", ".join("%s --- %s --- %s" % (sts[f][0], conds[c][0], sts[t][0]) for f, c, t in tr))]
        # clock rising every other phase, reset now and then
        al = []
        for r, a, b in ((1, 0, 0), (0, 0, 0), (0, 0, 1), (0, 1, 0), (0, 1, 1)):
            al.append("%d%d%d" % (r, a, b))
        seq = []
        for x in histories(al, 3, 4000)[0]:
            seq += ["0" + x, "1" + x]
        out.append(Moore("Moore %d" % k, [("clk", "bit"), ("reset", "bit"), ("a", "bit"), ("b", "bit")], [("state", "en")], body, st,
                         ["clk", "n", "i"], seq))
    # memory
    for lines, at, dt in ((2, "bit", "bit"), (4, "u2", "bit"), (3, "u2", "bit"), (2, "bit", "u2")):
        def st(i, p, lines=lines, aw=W[at], dw=W[dt]):
            if i is None:
                return dict(("l%d" % k, dw) for k in range(lines))
            s = {}
            r = (2,) * dw
            for k in range(lines):
                s["mem%d" % k] = p["l%d" % k]
            for k in range(lines):
                r = ite(eqv(i["ra"], tobits(k, aw)), s["mem%d" % k], r)
                s["l%d" % k] = ite(i["we"], ite(eqv(i["wa"], tobits(k, aw)), i["din"], s["mem%d" % k]), s["mem%d" % k])
            s["o"] = r
            return s
        ins = [("ra", at), ("wa", at), ("din", dt), ("we", "bit")]
        A = alpha([sum(W[t] for _, t in ins)], "01")
        if len(A) > 40:
            # writes at every address, reads at every address
            A = [x for x in A if x[:W[at]] == x[W[at]:2 * W[at]] or x[-1] == "0" and x[2 * W[at]:-1].count("1") == 0]
        body = ['RAM "mem" %d ra wa din we o' % lines]
        add("RAM %d %s" % (lines, dt), ins, [("o", dt)], body, st, ["l%d" % k for k in range(lines)], A, 2)
    # phase delayed assignment of expressions
    for x, f in (("(a '^' b)", lambda i: tuple(2 if 2 in (u, v) else u ^ v for u, v in zip(i["a"], i["b"]))),
                 ("(a '&' b)", lambda i: an(i["a"], i["b"])), ("('~' a)", lambda i: inv(i["a"])),
                 ("(IF a THEN b ELSE q)", None)):
        def st(i, p, f=f):
            if i is None:
                return {"n": 1}
            q = p["n"]
            return {"q": q, "n": f(i) if f else ite(i["a"], i["b"], q)}
        add("q <: %s" % x, [("a", "bit"), ("b", "bit")], [("q", "bit")], ["q <: %s" % x], st, ["n"], alpha([2]), 3)
    return out


class Moore(Seq):
    """the states that encode no enumerated value are not judged"""


def run(c):
    quick = c.quick
    c.assumptions = ["the STE simulator gives the values of the circuits (S01, S02)",
                     "division by zero, signed division and shifts by signed amounts are not judged"]
    one = lambda l: list(dict((x.key, x) for x in l).values())
    exprs = [("constants and single operators", level1(quick)), ("nested operators", level2(quick)),
             ("wide gates", formulas(quick)), ("conditionals", conditionals(quick))]
    run_cases(c, "expressions", sum([pack(one(l), 8) for _, l in exprs], []), 100)
    if not quick:
        for n, l in exprs:
            run_cases(c, n + " alone in a cell", one(l))
    run_cases(c, "left-hand sides, records, enumerations, components", lhs_forms() + records() + components())
    run_cases(c, "cells in cells", hierarchy())
    run_cases(c, "state", sequential(quick))
