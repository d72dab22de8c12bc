"""Reference model of symbolic trajectory evaluation: circuits as data, values as pairs of truth tables."""
import re

VARS = ("a1", "a2", "a3")      # Boolean variables of the values
N = 3
FULL = 255
TT = {}
for _i, _v in enumerate(VARS):
    TT[_v] = sum(1 << r for r in range(8) if (r >> (2 - _i)) & 1)
TT["T"] = FULL
TT["F"] = 0
X = (FULL, FULL)

_memo = {}


def tt_of(s):
    """truth table of a printed BDD (sum of products)."""
    r = _memo.get(s)
    if r is None:
        r = 0
        for prod in s.split("+"):
            t = FULL
            for lit in prod.strip().split("&"):
                lit = lit.strip()
                n = lit.endswith("'")
                v = TT[lit.rstrip("'")]
                t &= (FULL & ~v) if n else v
            r |= t
        _memo[s] = r
    return r


def AND(a, b): return (a[0] & b[0], a[1] | b[1])
def OR(a, b): return (a[0] | b[0], a[1] & b[1])
def NOT(a): return (a[1], a[0])


def ITE(c, a, b):
    return ((a[0] & b[0]) | (c[0] & a[0]) | (c[1] & b[0]),
            (a[1] | b[1]) & (c[1] | a[1]) & (c[0] | b[1]))


class Ckt:
    """inputs; comb = [(out, expr)] in topological order; delays = [(out, expr over current values)]"""

    def __init__(self, name, inputs, comb, delays, hier=None):
        self.name, self.inputs, self.comb, self.delays = name, inputs, comb, delays
        self.nodes = list(inputs) + [o for o, _ in comb] + [o for o, _ in delays]
        self.state = [o for o, _ in delays]
        self.init = self._init()

    def ev(self, e, v):
        k = e[0]
        if k == "v":
            return v[e[1]]
        if k == "0":
            return (0, FULL)
        if k == "1":
            return (FULL, 0)
        if k == "x":
            return X
        a = [self.ev(x, v) for x in e[1:]]
        return {"and": AND, "or": OR, "not": NOT, "ite": ITE}[k](*a)

    def _init(self):
        st = {o: X for o in self.state}
        for _ in range(50):
            v = dict(st)
            for i in self.inputs:
                v[i] = X
            for o, e in self.comb:
                v[o] = self.ev(e, v)
            nxt = {o: self.ev(e, v) for o, e in self.delays}
            if nxt == st:
                return st
            st = nxt
        raise AssertionError(self.name)

    def fl(self):
        def ex(e):
            k = e[0]
            if k == "v":
                return '(W_VAR 1 "%s")' % e[1]
            if k in "01":
                return '(W_CONST 1 %s)' % k
            if k == "x":
                return '(W_X 1)'
            return "(W_%s %s)" % (k.upper(), " ".join(ex(x) for x in e[1:]))

        def fis(e):
            if e[0] == "v":
                return [e[1]]
            r = []
            for x in e[1:]:
                if isinstance(x, tuple):
                    for y in fis(x):
                        if y not in r:
                            r.append(y)
            return r

        def fl_list(ns):
            return "(fa [%s])" % ",".join('"%s"' % n for n in ns)
        kids = []
        for o, e in self.comb:
            kids.append('PINST "g_%s" [] T %s %s [] (P_LEAF [W_UPDATE_FN (W_VAR 1 "%s") %s])' % (
                o, fl_list(fis(e)), fl_list([o]), o, ex(e)))
        for o, e in self.delays:
            kids.append('PINST "d_%s" [] T %s %s [] (P_LEAF [W_PHASE_DELAY (W_VAR 1 "%s") %s])' % (
                o, fl_list(fis(e)), fl_list([o]), o, ex(e)))
        outs = [o for o, _ in self.comb] + self.state
        return 'let %s = pexlif2fsm (PINST "top" [] F %s %s [] (P_HIER [%s]));' % (
            self.name, fl_list(self.inputs), fl_list(outs), ",\n  ".join(kids))

    def run(self, evs, tmax=None):
        """evs: list of ("a"|"c", when, node, val, f, t) | ("w", when, node, f, t) | ("t", node, f, t).
        Returns (maxtime, per time value dict, trajOK, checkOK)."""
        act = [e for e in evs if e[-2] < e[-1]]
        if not act:
            return None
        t0 = min(e[-2] for e in act)
        t1 = max(e[-1] for e in act) + 1
        st = dict(self.init)
        traj = check = FULL
        vals = {}
        for t in range(t0, t1 + 1):
            weak, ant, cons = {}, {}, {}
            for e in act:
                if not (e[-2] <= t < e[-1]):
                    continue
                if e[0] == "w":
                    weak[e[2]] = weak.get(e[2], 0) | TT[e[1]]
                elif e[0] in "ac":
                    w, v = TT[e[1]], TT[e[3]]
                    d = ant if e[0] == "a" else cons
                    o = d.get(e[2], X)
                    nw = FULL & ~w
                    d[e[2]] = (o[0] & (nw | v), o[1] & (nw | (FULL & ~v)))
            v = {}

            def setv(n, val):
                nonlocal traj
                if n in weak:
                    val = (val[0] | weak[n], val[1] | weak[n])
                if n in ant:
                    val = (val[0] & ant[n][0], val[1] & ant[n][1])
                    traj &= val[0] | val[1]
                v[n] = val
            for i in self.inputs:
                setv(i, X)
            for o in self.state:
                setv(o, st[o])
            for o, e in self.comb:
                setv(o, self.ev(e, v))
            for n, (h, l) in cons.items():
                check &= ((FULL & ~v[n][0]) | h) & ((FULL & ~v[n][1]) | l)
            vals[t] = v
            st = {o: self.ev(e, v) for o, e in self.delays}
        return t0, t1, vals, traj, check


def V(n):
    return ("v", n)


CKTS = [
    Ckt("cand", ["a", "b"], [("q", ("and", V("a"), V("b")))], [("r", V("q"))]),
    Ckt("ctgl", ["e"], [("n", ("ite", V("e"), ("not", V("s")), V("s")))], [("s", V("n"))]),
    Ckt("cpipe", ["a"], [("o", ("or", V("r1"), V("r2")))], [("r1", V("a")), ("r2", V("r1"))]),
    Ckt("clat", ["c", "d"], [("l", ("ite", V("c"), V("d"), V("p")))], [("p", V("l"))]),
    Ckt("ccst", ["a"], [("z", ("and", V("a"), V("k2")))], [("k1", ("1",)), ("k2", ("not", V("k1")))]),
]

PRE = '''
let fa l = map (\\s. (s,[s])) l;
VARS "a1 a2 a3";
let vars = [a1,a2,a3];
update_vossrc "NOTIFY-CHECK-FAILURES" "NO";
update_vossrc "NOTIFY-TRAJECTORY-FAILURES" "NO";
update_vossrc "PRINT-TIME" "NO";
let shtr ste n = ((itlist (\\(t,(H,L)).\\r. (sprintf "%d:%B;%B," t H L)^r) (get_trace ste n) "") gen_catch (\\m. "none"));
let res ste ns = sprintf "%B|%B|%d|%s" (get_ste_result ste "trajOK") (get_ste_result ste "checkOK") (get_ste_maxtime ste)
                 (itlist (\\n.\\r. (shtr ste n)^"/"^r) ns "");
let go ns ste = let s = res ste ns in s seq (print ("\\n@"^s^"\\n"));
'''


def evs_fl(evs):
    w = ['(%s,"%s",%d,%d)' % (e[1], e[2], e[3], e[4]) for e in evs if e[0] == "w"]
    a = ['(%s,"%s",%s,%d,%d)' % e[1:] for e in evs if e[0] == "a"]
    c = ['(%s,"%s",%s,%d,%d)' % e[1:] for e in evs if e[0] == "c"]
    t = ['("%s",%d,%d)' % e[1:] for e in evs if e[0] == "t"]
    return "[%s] [%s] [%s] [%s]" % tuple(",".join(x) for x in (w, a, c, t))


def parse_trace(s):
    """-> list of (time, H, L), latest first (None if not traced)"""
    if s == "none":
        return None
    out = []
    for e in s.split(","):
        if e:
            t, hl = e.split(":")
            h, l = hl.split(";")
            out.append((int(t), tt_of(h), tt_of(l)))
    return out


def at(tr, t):
    """value of a trace at time t"""
    for (tt, h, l) in tr:
        if tt <= t:
            return (h, l)
    return X


def parse(line):
    tj, ck, mt, rest = line.split("|", 3)
    return tt_of(tj), tt_of(ck), int(mt), [parse_trace(x) for x in rest.split("/")[:-1]]
