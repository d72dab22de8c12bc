"""Reference interpreter for a typed core of fl (call by need) and exhaustive enumeration of its terms."""
import functools, sys

sys.setrecursionlimit(20000)


class Err(Exception):
    """An fl exception."""


class Fuel(Exception):
    pass


class Thunk:
    __slots__ = ("e", "env", "v", "st")

    def __init__(self, e, env):
        self.e, self.env, self.v, self.st = e, env, None, 0


class M:
    """An evaluator with a step budget."""

    def __init__(self, fuel=3000, cfs=None):
        self.fuel = fuel
        self.cfs = cfs or {}

    def val(self, t):
        if not isinstance(t, Thunk):
            return t
        if t.st == 2:
            return t.v
        if t.st == 3:
            raise Err()
        if t.st == 1:
            raise Fuel()        # a value that needs itself
        t.st = 1
        try:
            t.v = self.ev(t.e, t.env)
            t.st = 2
        except Err:
            t.st = 3
            raise
        finally:
            if t.st == 1:
                t.st = 0
        t.e = t.env = None
        return t.v

    def deep(self, v, depth=0):
        """Forces the whole structure; no result (Fuel) takes precedence over an exception, because the
        order in which the parts are forced is not part of the semantics."""
        top = v = self.val(v)
        err = False
        n = 0
        while isinstance(v, tuple) and v and v[0] in ("c", "p"):
            n += 1
            self.fuel -= 1
            if self.fuel < 0 or depth > 60 or n > 60:
                raise Fuel()
            try:
                self.deep(v[1], depth + 1)
            except Err:
                err = True
            try:
                v = self.val(v[2])
            except Err:
                err = True
                break
        if err:
            raise Err()
        return top

    def both(self, a, b, env):
        err = False
        r = []
        for e in (a, b):
            try:
                r.append(self.ev(e, env))
            except Err:
                err = True
        if err:
            raise Err()
        return r

    def app(self, f, x):
        f = self.val(f)
        return f(x)

    def ev(self, e, env):
        self.fuel -= 1
        if self.fuel < 0:
            raise Fuel()
        k = e[0]
        if k == "lit":
            return e[1]
        if k == "v":
            return self.val(env[e[1]])
        if k == "err":
            raise Err()
        if k == "-":
            a, b = self.both(e[1], e[2], env)
            return a - b
        if k == "=" or k == "<":
            a, b = self.both(e[1], e[2], env)
            return a == b if k == "=" else a < b
        if k == "if":
            return self.ev(e[2] if self.ev(e[1], env) else e[3], env)
        if k == "lam":
            return lambda x, e=e, env=env: self.ev(e[2], dict(env, **{e[1]: x}))
        if k == "plam":
            def pl(x, e=e, env=env):
                p = self.val(x)
                return self.ev(e[3], dict(env, **{e[1]: p[1], e[2]: p[2]}))
            return pl
        if k == "ap":
            f = self.ev(e[1], env)
            return f(Thunk(e[2], env))
        if k == "let":
            return self.ev(e[3], dict(env, **{e[1]: Thunk(e[2], env)}))
        if k == "letrec":
            ne = dict(env)
            t = Thunk(e[2], ne)
            ne[e[1]] = t
            return self.ev(e[3], ne)
        if k == "nil":
            return ()
        if k == "cons":
            return ("c", Thunk(e[1], env), Thunk(e[2], env))
        if k == "pair":
            return ("p", Thunk(e[1], env), Thunk(e[2], env))
        if k == "hd":
            v = self.ev(e[1], env)
            if v == ():
                raise Err()
            return self.val(v[1])
        if k == "tl":
            v = self.ev(e[1], env)
            if v == ():
                raise Err()
            return self.val(v[2])
        if k == "fst":
            return self.val(self.ev(e[1], env)[1])
        if k == "snd":
            return self.val(self.ev(e[1], env)[2])
        if k == "empty":
            return self.ev(e[1], env) == ()
        if k == "catch":
            t = Thunk(e[1], env)
            try:
                return self.deep(t)
            except Err:
                return self.ev(e[2], env)
        if k == "seq":
            self.ev(e[1], env)
            return self.ev(e[2], env)
        if k == "fseq":
            self.deep(Thunk(e[1], env))
            return self.ev(e[2], env)
        if k == "lcase":     # the function of a list defined by clauses f [] = e1 /\ f (x:xs) = e2
            def lc(x, e=e, env=env):
                v = self.val(x)
                if v == ():
                    return self.ev(e[1], env)
                return self.ev(e[4], dict(env, **{e[2]: v[1], e[3]: v[2]}))
            return lc
        raise KeyError(k)


def show(e):
    """The fl text of a term, in parentheses where needed."""
    k = e[0]
    if k == "lit":
        if e[1] is True:
            return "T"
        if e[1] is False:
            return "F"
        return str(e[1])
    if k == "v":
        return e[1]
    if k == "err":
        return "{(error \"e\") :: %s}" % ("int" if e[1] == "I" else "int list")
    if k == "-":
        return "(i_minus %s %s)" % (show(e[1]), show(e[2]))
    if k in ("=", "<", "seq", "fseq", "catch"):
        return "(%s %s %s)" % (show(e[1]), k, show(e[2]))
    if k == "if":
        return "(IF %s THEN %s ELSE %s)" % tuple(show(x) for x in e[1:])
    if k == "lam":
        return "(\\%s. %s)" % (e[1], show(e[2]))
    if k == "plam":
        return "(\\(%s,%s). %s)" % (e[1], e[2], show(e[3]))
    if k == "ap":
        return "(%s %s)" % (show(e[1]), show(e[2]))
    if k == "let":
        return "(let %s = %s in %s)" % (e[1], show(e[2]), show(e[3]))
    if k == "letrec":
        if e[2][0] == "lam":
            return "(letrec %s %s = %s in %s)" % (e[1], e[2][1], show(e[2][2]), show(e[3]))
        return "(letrec %s = %s in %s)" % (e[1], show(e[2]), show(e[3]))
    if k == "nil":
        return "[]"
    if k == "cons":
        return "(%s : %s)" % (show(e[1]), show(e[2]))
    if k == "pair":
        return "(%s, %s)" % (show(e[1]), show(e[2]))
    if k in ("hd", "tl", "fst", "snd", "empty"):
        return "(%s %s)" % (k, show(e[1]))
    if k == "lcase":
        return "(let g [] = %s /\\ g (%s:%s) = %s in g)" % (show(e[1]), e[2], e[3], show(e[4]))
    raise KeyError(k)


# (constructor, result type, argument types); binders are handled in gen
def gen(ty, size, env=(), depth=0):
    """All terms of the type with exactly the given size; env = ((name, type), ...)."""
    return _gen(ty, size, env)


@functools.lru_cache(maxsize=None)
def _gen(ty, n, env):
    out = []
    if n <= 0:
        return ()
    if n == 1:
        for v, t in env:
            if t == ty:
                out.append(("v", v))
        if ty == "I":
            out.append(("lit", 1))
        if ty == "B":
            out += [("lit", True), ("lit", False)]
        if ty == "L":
            out.append(("nil",))
        if ty in "IL":
            out.append(("err", ty))
        return tuple(out)
    m = n - 1

    def two(k, t1, t2):
        for i in range(1, m):
            for a in _gen(t1, i, env):
                for b in _gen(t2, m - i, env):
                    out.append((k, a, b))

    def one(k, t):
        for a in _gen(t, m, env):
            out.append((k, a))

    nv = "vwxyz"[len(env)] if len(env) < 5 else None
    if ty == "I":
        two("-", "I", "I")
        one("hd", "L")
        one("fst", "P")
        one("snd", "P")
        two("seq", "L", "I")
    if ty == "B":
        two("=", "I", "I")
        one("empty", "L")
    if ty == "L":
        two("cons", "I", "L")
        one("tl", "L")
    if ty == "P":
        two("pair", "I", "I")
    if ty in "IL":
        two("catch", ty, ty)
        two("ap", "F" if ty == "I" else "H", "I")
    if ty in "IBLP":
        for i in range(1, m - 1):
            for j in range(1, m - i):
                for c in _gen("B", i, env):
                    for a in _gen(ty, j, env):
                        for b in _gen(ty, m - i - j, env):
                            out.append(("if", c, a, b))
    if nv:
        if ty in "FH":
            for b in _gen("I" if ty == "F" else "L", m, env + ((nv, "I"),)):
                out.append(("lam", nv, b))
        if ty in "ILB":
            for i in range(1, m):
                for t in "ILFP":
                    for a in _gen(t, i, env):
                        for b in _gen(ty, m - i, env + ((nv, t),)):
                            out.append(("let", nv, a, b))
                for t in "LF":
                    for a in _gen(t, i, env + ((nv, t),)):
                        if not uses(a, nv):
                            continue
                        for b in _gen(ty, m - i, env + ((nv, t),)):
                            if uses(b, nv):
                                out.append(("letrec", nv, a, b))
    return tuple(out)


def uses(e, v):
    if e[0] == "v":
        return e[1] == v
    return any(isinstance(x, tuple) and uses(x, v) for x in e[1:])


def run(e, fuel=3000):
    """'E' for an exception, None for no result within the budget, else the printed value."""
    try:
        m = M(fuel)
        v = m.deep(Thunk(e, {}))
        return fmt(m, v)
    except Err:
        return "E"
    except (Fuel, RecursionError):
        return None


def fmt(m, v):
    v = m.val(v)
    if v is True:
        return "T"
    if v is False:
        return "F"
    if isinstance(v, int):
        return str(v)
    if v == ():
        return "[]"
    if v[0] == "p":
        return "(%s,%s)" % (fmt(m, v[1]), fmt(m, v[2]))
    out = []
    while v != ():
        out.append(fmt(m, v[1]))
        v = m.val(v[2])
    return "[" + ",".join(out) + "]"
