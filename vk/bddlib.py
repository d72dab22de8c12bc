"""Reference model of Boolean functions: truth tables as Python ints.
Variable 0 is the topmost; row index bit order: variable 0 is the most
significant bit of the row number; tt bit r = value in row r."""
from functools import lru_cache


def nrows(n):
    return 1 << n


def full(n):
    return (1 << (1 << n)) - 1


@lru_cache(None)
def var(n, i):
    t = 0
    for r in range(1 << n):
        if (r >> (n - 1 - i)) & 1:
            t |= 1 << r
    return t


@lru_cache(None)
def cof(n, f, i, val):
    """Cofactor, still a function of n variables."""
    m = var(n, i)
    sh = 1 << (n - 1 - i)
    if val:
        h = f & m
        return h | (h >> sh)
    l = f & ~m & full(n)
    return l | (l << sh)


def exists(n, f, vs):
    for i in vs:
        f = cof(n, f, i, 1) | cof(n, f, i, 0)
    return f


def forall(n, f, vs):
    for i in vs:
        f = cof(n, f, i, 1) & cof(n, f, i, 0)
    return f


def ite(n, c, t, e):
    return (c & t) | (~c & full(n) & e)


def support(n, f):
    return [i for i in range(n) if cof(n, f, i, 1) != cof(n, f, i, 0)]


def count(f):
    return bin(f).count("1")


def subst(n, f, sub):
    """Simultaneous substitution; sub: var index -> tt."""
    res = 0
    for r in range(1 << n):
        row = 0
        for i in range(n):
            b = ((sub[i] >> r) & 1) if i in sub else ((r >> (n - 1 - i)) & 1)
            row = (row << 1) | b
        if (f >> row) & 1:
            res |= 1 << r
    return res


@lru_cache(None)
def dump(n, f, names, order=None):
    """The canonical text of the reduced ordered decision tree of f."""
    if order is None:
        order = tuple(range(n))
    if f == 0:
        return "0"
    if f == full(n):
        return "1"
    for k, i in enumerate(order):
        h, l = cof(n, f, i, 1), cof(n, f, i, 0)
        if h != l:
            return names[i] + dump(n, h, names, order[k + 1:]) + dump(n, l, names, order[k + 1:])
    raise AssertionError


def nodes(n, f, order=None):
    """Set of distinct non-constant subfunctions up to complement (shared BDD size)."""
    order = tuple(range(n)) if order is None else tuple(order)
    seen = set()

    def go(f, k):
        if f == 0 or f == full(n):
            return
        for j in range(k, len(order)):
            h, l = cof(n, f, order[j], 1), cof(n, f, order[j], 0)
            if h != l:
                c = min(f, full(n) & ~f)
                if c in seen:
                    return
                seen.add(c)
                go(h, j + 1)
                go(l, j + 1)
                return
    go(f, 0)
    return seen


def fl_minterms(n, names, NOT="NOT ", AND=" AND "):
    res = []
    for r in range(1 << n):
        res.append("(" + AND.join(("" if (r >> (n - 1 - i)) & 1 else NOT) + names[i] for i in range(n)) + ")")
    return res


def parse_dump(s, names, n):
    """Truth table of a dump text, or None if it is malformed."""
    pos = 0

    def go():
        nonlocal pos
        c = s[pos]
        pos += 1
        if c == "0":
            return 0
        if c == "1":
            return full(n)
        i = names.index(c)
        h = go()
        l = go()
        return ite(n, var(n, i), h, l)
    try:
        t = go()
    except (IndexError, ValueError):
        return None
    return t if pos == len(s) else None


PRE = '''
letrec bs f = f == T => "1" | f == F => "0" | val (v,H,L) = top_cofactor f in v^(bs H)^(bs L);
letrec mk [] = [F] /\\ mk (m:ms) = let r = mk ms in (flat (map (\\f. [f, f OR m]) r));
letrec pr op [] = () /\\ pr op (g:gs) = (print ((op g)^" ")) fseq (pr op gs);
letrec prr op [] l = () /\\ prr op (f:fs) l = (print "@") fseq (pr (op f) l) fseq (print "\\n") fseq (prr op fs l);
'''


def preamble(n, names, order=None):
    o = order or names
    s = 'VARS "%s";\nlet order = var_order [%s] fseq ();\norder;\n' % (
        " ".join(names), ",".join('"%s"' % x for x in o))
    s += PRE
    s += "let mt = [%s];\nlet tabl = mk mt;\n" % ", ".join(fl_minterms(n, names))
    return s
