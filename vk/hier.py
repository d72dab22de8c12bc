"""Reference model of vector names and of hierarchical circuits (a module tree flattened to single bits)."""
import itertools
import re

TOK = re.compile(r"\\[^ ]* |\[[^\]]*\]|[^\[\\]+")


def tokens(name):
    r = []
    for t in TOK.findall(name):
        if t.startswith("["):
            rs = []
            for x in t[1:-1].split(","):
                a, _, b = x.strip().partition(":")
                rs.append((int(a), int(b) if b else int(a)))
            r.append(rs)
        elif r and isinstance(r[-1], str):
            r[-1] += t
        else:
            r.append(t)
    return r


def idxs(rs):
    out = []
    for a, b in rs:
        out += list(range(a, b - 1, -1)) if a >= b else list(range(a, b + 1))
    return out


def expand(name):
    """the single bits of a vector name, first one is the most significant."""
    if name.startswith("0b"):
        return ["0b" + x for x in name[2:]]
    parts = [[t] if isinstance(t, str) else ["[%d]" % i for i in idxs(t)] for t in tokens(name)]
    return ["".join(x) for x in itertools.product(*parts)]


def vec(base, w):
    return base if w == 1 else "%s[%d:0]" % (base, w - 1)


class Flat:
    """bits are integers; drivers maps a bit to (function, [bits], is_delay)."""

    def __init__(self):
        self.n = 3                     # 0, 1, 2 are the constants 0, 1, X
        self.drv = {}
        self.names = {}                # full name -> bit
        self.edges = []                # (input bits, output bits) of every function

    def new(self):
        self.n += 1
        return self.n - 1


class Mod:
    """inps, outs: [(formal, [actual])]; ints: [name]; body: list of Mod or list of Fn."""

    def __init__(self, name, inps, outs, ints, body):
        self.name, self.inps, self.outs, self.ints, self.body = name, inps, outs, ints, body
        self.leaf = bool(body) and isinstance(body[0], Fn)

    def fl(self):
        fa = lambda l: "[%s]" % ",".join('("%s",[%s])' % (f, ",".join('"%s"' % a for a in acts)) for f, acts in l)
        if self.leaf:
            b = "(P_LEAF [%s])" % ",".join(f.fl() for f in self.body)
        else:
            b = "(P_HIER [%s])" % ",".join(m.fl() for m in self.body)
        return '(PINST "%s" [] %s %s %s [%s] %s)' % (self.name, "T" if self.leaf else "F", fa(self.inps), fa(self.outs),
                                                   ",".join('"%s"' % x for x in self.ints), b)

    def flatten(self, flat, path="", parent=None):
        env = {}

        def declare(name, bits=None):
            ns = expand(name)
            if bits is None:
                bits = [flat.new() for _ in ns]
            assert len(bits) == len(ns), (self.name, name, bits)
            for n, b in zip(ns, bits):
                assert n not in env, n
                env[n] = b
                flat.names[path + n] = b
        for f, acts in self.inps + self.outs:
            declare(f, None if parent is None else [look(parent, b) for a in acts for b in expand(a)])
        for n in self.ints:
            declare(n)
        for i, x in enumerate(self.body):
            if self.leaf:
                x.flatten(flat, env)
            else:
                x.flatten(flat, path + "i%d/" % (i + 1), env)
        return env


def look(env, b):
    if b.startswith("0b"):
        return {"0": 0, "1": 1, "x": 2}[b[2]]
    return env[b]


class Fn:
    """lhs := op(rhs...) bitwise; operands are (fl text, [local bit names])."""

    def __init__(self, op, lhs, rhs, delay=False):
        self.op, self.lhs, self.rhs, self.delay = op, lhs, rhs, delay

    def fl(self):
        e = {"wire": "(%s)", "not": "(W_NOT (%s))", "and": "(W_AND (%s) (%s))", "or": "(W_OR (%s) (%s))"}[self.op]
        return "(%s (%s) %s)" % ("W_PHASE_DELAY" if self.delay else "W_UPDATE_FN", self.lhs[0], e % tuple(r[0] for r in self.rhs))

    def flatten(self, flat, env):
        outs = [look(env, b) for b in self.lhs[1]]
        ins = [[look(env, b) for b in r[1]] for r in self.rhs]
        flat.edges.append(([b for i in ins for b in i], outs))
        for k, o in enumerate(outs):
            assert o not in flat.drv
            flat.drv[o] = (self.op, [i[k] for i in ins], self.delay)


def var(base, w):
    return ('W_VAR %d "%s"' % (w, base), expand(vec(base, w)))


def xvar(name):
    b = expand(name)
    return ('W_EXPLICIT_VAR %d "%s"' % (len(b), name), b)


def slc(ix, e):
    n = len(e[1])
    return ("W_SLICE [%s] (%s)" % (",".join(map(str, ix)), e[0]), [e[1][n - 1 - i] for i in ix])


def cat(es):
    return ("W_CAT [%s]" % ",".join("(%s)" % e[0] for e in es), [b for e in es for b in e[1]])


class TT:
    """dual-rail values as pairs of truth tables over named variables."""

    def __init__(self, vs):
        self.vs = vs
        n = len(vs)
        self.rows = 1 << n
        self.full = (1 << self.rows) - 1
        self.t = {v: sum(1 << r for r in range(self.rows) if (r >> (n - 1 - i)) & 1) for i, v in enumerate(vs)}
        self.t["T"], self.t["F"] = self.full, 0
        self.memo = {}

    def var(self, v):
        return (self.t[v], self.full & ~self.t[v])

    def parse(self, s):
        r = self.memo.get(s)
        if r is None:
            r = 0
            for prod in s.split("+"):
                t = self.full
                for lit in prod.strip().split("&"):
                    lit = lit.strip()
                    v = self.t[lit.rstrip("'")]
                    t &= (self.full & ~v) if lit.endswith("'") else v
                r |= t
            self.memo[s] = r
        return r

    def simulate(self, flat, inputs, steps):
        """inputs: bit -> [value per time]; returns a list of bit -> value."""
        X = (self.full, self.full)
        const = {0: (0, self.full), 1: (self.full, 0), 2: X}
        OPS = {"wire": lambda a: a, "not": lambda a: (a[1], a[0]),
               "and": lambda a, b: (a[0] & b[0], a[1] | b[1]), "or": lambda a, b: (a[0] | b[0], a[1] & b[1])}

        def step(st, inp):
            v = dict(const)
            v.update(st)
            v.update(inp)

            def ev(b):
                if b not in v:
                    d = flat.drv.get(b)
                    v[b] = X if d is None else OPS[d[0]](*[ev(x) for x in d[1]])
                return v[b]
            for b in range(flat.n):
                ev(b)
            return v
        state = [o for o, d in flat.drv.items() if d[2]]
        nxt = lambda v: {o: OPS[flat.drv[o][0]](*[v[x] for x in flat.drv[o][1]]) for o in state}
        st = {o: X for o in state}
        for _ in range(40):
            v = step(st, {})
            n = nxt(v)
            if n == st:
                break
            st = n
        out = []
        for t in range(steps):
            v = step(st, {b: vals[t] for b, vals in inputs.items()})
            out.append(v)
            st = nxt(v)
        return out
