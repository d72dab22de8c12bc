"""L06: clauses are tried top to bottom, patterns left to right; the first that matches decides."""
import itertools


class Err(Exception):
    pass


ERR = ("err",)

PRE = '''
lettype tr = LF | IN int | ND tr tr;
lettype {*a} opt = NO | YES *a;
letrec sl_ [] = "" /\\ sl_ (x:xs) = (sprintf "%d;" x)^(sl_ xs);
let sh_I x = sprintf "%d" x;
let sh_L x = "["^(sl_ x)^"]";
let sh_S x = "'"^x^"'";
let sh_B x = x => "T" | "F";
letrec sh_T LF = "LF" /\\ sh_T (IN i) = sprintf "IN%d" i /\\ sh_T (ND a b) = "ND("^(sh_T a)^","^(sh_T b)^")";
let sh_O NO = "NO" /\\ sh_O (YES x) = "YES"^(sh_I x);
let sh_P (a,b) = "("^(sh_I a)^","^(sh_L b)^")";
let ev f v = (f v) gen_catch (\\m. "E");
let ev2 f v w = (f v w) gen_catch (\\m. "E");
let ei {i::int} = IF i = 0 THEN {error "e" :: int} ELSE i;
'''

# a value: int, str, bool, ("c", v, w), (), ("p", v, w), ("K", name, args...), ERR


def force(v):
    if v is ERR:
        raise Err()
    return v


def sh(t, v):
    v = force(v)
    if t == "I":
        return str(v)
    if t == "S":
        return "'%s'" % v
    if t == "B":
        return "T" if v else "F"
    if t == "L":
        out = "["
        while v != ():
            out += sh("I", v[1]) + ";"
            v = force(v[2])
        return out + "]"
    if t == "P":
        return "(" + sh("I", v[1]) + "," + sh("L", v[2]) + ")"
    if t == "O":
        return "NO" if v[1] == "NO" else "YES" + sh("I", v[2])
    if t == "T":
        if v[1] == "LF":
            return "LF"
        if v[1] == "IN":
            return "IN" + sh("I", v[2])
        return "ND(" + sh("T", v[2]) + "," + sh("T", v[3]) + ")"
    raise KeyError(t)


FLT = {"I": "int", "L": "int list", "S": "string", "B": "bool", "P": "int # (int list)", "O": "{int} opt", "T": "tr"}


def fl(t, v):
    if v is ERR:
        return '{(error "e") :: %s}' % FLT[t]
    if t == "I":
        return str(v) if v >= 0 else "(%d)" % v
    if t == "S":
        return '"%s"' % v
    if t == "B":
        return "T" if v else "F"
    if t == "L":
        return "[]" if v == () else "(%s:%s)" % (fl("I", v[1]), fl("L", v[2]))
    if t == "P":
        return "(%s,%s)" % (fl("I", v[1]), fl("L", v[2]))
    if t == "O":
        return "NO" if v[1] == "NO" else "(YES %s)" % fl("I", v[2])
    if v[1] == "LF":
        return "LF"
    if v[1] == "IN":
        return "(IN %s)" % fl("I", v[2])
    return "(ND %s %s)" % (fl("T", v[2]), fl("T", v[3]))


# patterns: ("var", name, type) ("_",) ("const", value, type) ("cons", p, q) ("nil",) ("pair", p, q)
# ("K", name, p...)
def match(p, v, env):
    k = p[0]
    if k == "var":
        env[p[1]] = (p[2], v)
        return True
    if k == "_":
        return True
    v = force(v)
    if k == "const":
        return v == p[1]
    if k == "nil":
        return v == ()
    if k == "cons":
        return v != () and match(p[1], v[1], env) and match(p[2], v[2], env)
    if k == "pair":
        return match(p[1], v[1], env) and match(p[2], v[2], env)
    if k == "K":
        return v[1] == p[1] and all(match(q, w, env) for q, w in zip(p[2:], v[2:]))
    raise KeyError(k)


def pfl(p):
    k = p[0]
    if k == "var":
        return p[1]
    if k == "_":
        return "_"
    if k == "const":
        return fl(p[2], p[1])
    if k == "nil":
        return "[]"
    if k == "cons":
        return "(%s : %s)" % (pfl(p[1]), pfl(p[2]))
    if k == "pair":
        return "(%s , %s)" % (pfl(p[1]), pfl(p[2]))
    return p[1] if len(p) == 2 else "(%s)" % " ".join([p[1]] + [pfl(q) for q in p[2:]])


def pvars(p):
    if p[0] == "var":
        return [(p[1], p[2])]
    out = []
    for q in p[1:]:
        if isinstance(q, tuple) and q and isinstance(q[0], str) and q[0] in (
                "var", "_", "const", "nil", "cons", "pair", "K"):
            out += pvars(q)
    return out


def V(n, t):
    return ("var", n, t)


def C(v, t):
    return ("const", v, t)


def c(a, b):
    return ("c", a, b)


def K(n, *a):
    return ("K", n) + a


LF = K("LF")
VALS = {
    "I": [0, 1, 2, -1, ERR],
    "L": [(), c(1, ()), c(2, ()), c(1, c(2, ())), c(2, c(1, c(1, ()))), c(1, ERR), c(ERR, ()), c(ERR, c(2, ())),
          c(1, c(ERR, ())), ERR],
    "S": ["", "a", "b", "ab", "ba", "abc", ERR],
    "B": [True, False, ERR],
    "O": [K("NO"), K("YES", 0), K("YES", 1), K("YES", ERR), ERR],
    "P": [("p", 0, ()), ("p", 1, ()), ("p", 0, c(1, ())), ("p", 1, c(2, c(1, ()))), ("p", ERR, ()), ("p", 1, ERR), ERR],
    "T": [LF, K("IN", 0), K("IN", 1), K("IN", ERR), K("ND", LF, LF), K("ND", LF, K("IN", 1)), K("ND", K("IN", 1), LF),
          K("ND", K("ND", LF, K("IN", 1)), K("IN", 0)), K("ND", ERR, LF), K("ND", LF, ERR), ERR],
}
PATS = {
    "I": [V("x", "I"), ("_",), C(0, "I"), C(1, "I"), C(2, "I")],
    "L": [V("x", "L"), ("nil",), ("cons", V("x", "I"), V("y", "L")), ("cons", V("x", "I"), ("nil",)),
          ("cons", C(1, "I"), V("y", "L")), ("cons", ("_",), ("cons", V("y", "I"), V("z", "L"))),
          ("cons", C(1, "I"), ("cons", C(2, "I"), ("_",)))],
    "S": [V("x", "S"), C("", "S"), C("a", "S"), C("ab", "S"), ("_",)],
    "B": [V("x", "B"), C(True, "B"), C(False, "B"), ("_",)],
    "O": [V("x", "O"), K("NO"), K("YES", V("x", "I")), K("YES", C(1, "I")), ("_",)],
    "P": [V("x", "P"), ("pair", V("x", "I"), V("y", "L")), ("pair", C(0, "I"), ("nil",)),
          ("pair", C(1, "I"), V("y", "L")), ("pair", V("x", "I"), ("cons", C(1, "I"), V("y", "L"))),
          ("pair", ("_",), ("nil",))],
    "T": [V("x", "T"), LF, K("IN", V("x", "I")), K("IN", C(1, "I")), K("ND", V("x", "T"), V("y", "T")),
          K("ND", LF, V("y", "T")), K("ND", V("x", "T"), LF), K("ND", K("IN", V("x", "I")), ("_",)),
          K("ND", K("ND", V("x", "T"), K("IN", V("y", "I"))), V("z", "T")),],
}


def body(i, vs, use):
    if not use:
        return '"%d"' % i
    return "^".join(['"%d"' % i] + ['"|"^(sh_%s %s)' % (t, n) for n, t in vs])


def call(clauses, vals, use):
    """clauses: [(patterns, guard)], guard: None or (variable, constant)."""
    try:
        for i, (ps, g) in enumerate(clauses):
            env = {}
            if not all(match(p, v, env) for p, v in zip(ps, vals)):
                continue
            if g is not None:
                if g is True or g is False:
                    if not g:
                        continue
                elif force(env[g[0]][1]) != g[1]:
                    continue
            if not use:
                return str(i)
            return str(i) + "".join("|" + sh(*env[n]) for p in ps for n, t in pvars(p))
        return "E"
    except Err:
        return "E"


def ren(p, suf):
    """Renames the variables of a pattern."""
    if p[0] == "var":
        return ("var", p[1] + suf, p[2])
    return tuple(ren(q, suf) if isinstance(q, tuple) and q and isinstance(q[0], str) and q[0] in (
        "var", "_", "const", "nil", "cons", "pair", "K") and i > 0 else q for i, q in enumerate(p))


def gfl(g):
    if g is None:
        return ""
    if g is True or g is False:
        return " assuming (%s)" % ("T" if g else "F")
    return " assuming (%s = %d)" % g


def fun(clauses, use):
    return " /\\ ".join("f %s%s = %s" % (" ".join(pfl(p) for p in ps), gfl(g),
                                        body(i, [x for p in ps for x in pvars(p)], use))
                        for i, (ps, g) in enumerate(clauses))


def case(clauses, types, use, rec=False):
    vals = list(itertools.product(*[VALS[t] for t in types]))
    e = "let%s %s in %s" % ("rec" if rec else "", fun(clauses, use), "^\" \"^".join(
        "(ev%s f %s)" % ("2" if len(types) == 2 else "", " ".join(fl(t, v) for t, v in zip(types, vs))) for vs in vals))
    return (e.split(" in (ev")[0] + " :: " + "#".join(types), e, " ".join(call(clauses, vs, use) for vs in vals))


def run(c):
    q = c.quick
    for t in "ILSBOPT":
        cs = {}
        ps = PATS[t]
        for n in (1, 2, 3):
            for cl in itertools.product(ps, repeat=n):
                for use in (True, False):
                    if n == 3 and use is False and q:
                        continue
                    k = case([((p,), None) for p in cl], t, use)
                    cs[k[0]] = k
        for p in ps:
            k = case([((p,), None)], t, True)
            e = "let f = (\\ %s . %s) in %s" % (pfl(p), body(0, pvars(p), True), k[1].split(" in ", 1)[1])
            cs["lambda " + k[0]] = ("lambda " + k[0], e, k[2])
        for p in ps:
            for p2 in ps:
                for g in [True, False] + [(n, k) for n, ty in pvars(p) if ty == "I" for k in (0, 1)]:
                    k = case([((p,), g), ((p2,), None)], t, True)
                    cs[k[0]] = k
        c.note("all functions of up to 3 clauses over the %d patterns of type %s on %d values" % (
            len(ps), FLT[t], len(VALS[t])))
        c.run_cases("type %s" % FLT[t], PRE, list(cs.values()), chunk=100, transitions_per_case=len(VALS[t]))
    for t1, t2 in [("I", "L"), ("T", "O"), ("B", "I"), ("L", "L"), ("P", "I"), ("O", "O"), ("S", "B")] if q else \
            itertools.product("ILSBOPT", repeat=2):
        cs = {}
        cls = [(p1, ren(p2, "2")) for p1 in PATS[t1] for p2 in PATS[t2]]
        pairs = list(itertools.product(cls, repeat=2))
        for a, b in pairs:
            k = case([(a, None), (b, None)], t1 + t2, True)
            cs[k[0]] = k
        c.note("all two-clause functions of arguments of types %s and %s" % (FLT[t1], FLT[t2]))
        c.run_cases("types %s, %s" % (FLT[t1], FLT[t2]), PRE, list(cs.values()), chunk=100,
                    transitions_per_case=len(VALS[t1]) * len(VALS[t2]))
