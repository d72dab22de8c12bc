"""S02: word-level operators of circuits are exact on Boolean inputs and sound, monotone abstractions on X."""
import itertools
from vk import stelib as S

X = 2   # a bit is 0, 1 or X


def bits(v, w):
    return [(v >> (w - 1 - i)) & 1 for i in range(w)]


def num(b):
    r = 0
    for x in b:
        r = 2 * r + x
    return r


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def div(a, b, w):
    return (1 << w) - 1 if b == 0 else a // b


def mod(a, b, w):
    return a if b == 0 else a % b


BIN = {  # name: (a, b, w) -> value of width w
    "AND": lambda a, b, w: a & b, "OR": lambda a, b, w: a | b,
    "ADD": lambda a, b, w: (a + b) % (1 << w), "SUB": lambda a, b, w: (a - b) % (1 << w),
    "MUL": lambda a, b, w: (a * b) % (1 << w), "DIV": div, "MOD": mod,
    "SHL": lambda a, b, w: (a << b) % (1 << w) if b < 200 else 0, "SHR": lambda a, b, w: a >> b,
    "ASHR": lambda a, b, w: (sgn(a, w) >> b) % (1 << w),
}
REL = {"EQ": lambda a, b: int(a == b), "GR": lambda a, b: int(a > b)}
# operators whose result is X only where the completions of the inputs disagree
TIGHT = ("AND", "OR", "NOT", "EQ", "ITE", "SX", "ZX", "SLICE", "CAT", "VAR", "CONST", "UPD", "MUX", "XEXP")


def var(n, w):
    return 'W_VAR %d "%s"' % (w, n)


def vec(n, w):
    return n if w == 1 else "%s[%d:0]" % (n, w - 1)


def nodes(n, w):
    return [n] if w == 1 else ["%s[%d]" % (n, w - 1 - i) for i in range(w)]


class Op:
    """ins = [(name, width)], ow = output width, ex = fl expression, f = function of Boolean inputs (ints)."""

    def __init__(self, key, ins, ow, ex, f, delay=False):
        self.key, self.ins, self.ow, self.ex, self.f, self.delay = key, ins, ow, ex, f, delay

    @property
    def tight(self):
        return self.key.split()[0] in TIGHT

    def fl(self, nm):
        fi = ",".join('("%s",["%s"])' % (vec(n, w), vec(n, w)) for n, w in self.ins)
        fo = '("%s",["%s"])' % (vec("o", self.ow), vec("o", self.ow))
        return 'let %s = pexlif2fsm (PINST "top" [] F [%s] [%s] [] (P_HIER [PINST "u" [] T [%s] [%s] [] (P_LEAF [%s (%s) (%s)])]));' % (
            nm, fi, fo, fi, fo, "W_PHASE_DELAY" if self.delay else "W_UPDATE_FN", var("o", self.ow), self.ex)

    def innodes(self):
        return [x for n, w in self.ins for x in nodes(n, w)]


def ops(widths, wide=False):
    out = []
    for w in widths:
        ab = [("a", w), ("b", w)]
        va, vb = "(%s)" % var("a", w), "(%s)" % var("b", w)
        for k, f in BIN.items():
            out.append(Op("%s %d" % (k, w), ab, w, "W_%s %s %s" % (k, va, vb), lambda a, b, f=f, w=w: f(a, b, w)))
        for k, f in REL.items():
            out.append(Op("%s %d" % (k, w), ab, 1, "W_%s %s %s" % (k, va, vb), lambda a, b, f=f: f(a, b)))
        out.append(Op("NOT %d" % w, ab[:1], w, "W_NOT %s" % va, lambda a, w=w: ~a & ((1 << w) - 1)))
        out.append(Op("VAR %d" % w, ab[:1], w, "W_VAR %d \"a\"" % w, lambda a: a))
        out.append(Op("VAR delayed %d" % w, ab[:1], w, "W_VAR %d \"a\"" % w, lambda a: a, True))
        out.append(Op("ADD delayed %d" % w, ab, w, "W_ADD %s %s" % (va, vb), lambda a, b, w=w: (a + b) % (1 << w), True))
        for d in range(4):
            out.append(Op("ZX %d %d" % (w, d), ab[:1], w + d, "W_ZX %d %s" % (w + d, va), lambda a: a))
            out.append(Op("SX %d %d" % (w, d), ab[:1], w + d, "W_SX %d %s" % (w + d, va),
                          lambda a, w=w, d=d: sgn(a, w) % (1 << (w + d))))
        for v in range(1 << w):
            out.append(Op("CONST %d %d" % (w, v), ab[:1], w, "W_CONST %d %d" % (w, v), lambda a, v=v: v))
            out.append(Op("CONST named %d %d" % (w, v), ab[:1], w, 'W_NAMED_CONST "k" %d %d' % (w, v), lambda a, v=v: v))
        if w <= 2:
            out.append(Op("ITE %d" % w, [("c", 1)] + ab, w, "W_ITE (%s) %s %s" % (var("c", 1), va, vb),
                          lambda c, a, b: a if c else b))
        for n in range(1, w + 1):
            for idx in itertools.permutations(range(w), n):
                il = "[%s]" % ",".join(map(str, idx))
                out.append(Op("SLICE %d %s" % (w, il), ab[:1], n, "W_SLICE %s %s" % (il, va),
                              lambda a, idx=idx: num([(a >> i) & 1 for i in idx])))
                out.append(Op("SLICE named %d %s" % (w, il), ab[:1], n, 'W_NAMED_SLICE "s" %s %s' % (il, va),
                              lambda a, idx=idx: num([(a >> i) & 1 for i in idx])))

                def upd(a, b, idx=idx):
                    for j, i in enumerate(idx):
                        a = a & ~(1 << i) | ((b >> (len(idx) - 1 - j)) & 1) << i
                    return a
                out.append(Op("UPD %d %s" % (w, il), [("a", w), ("b", n)], w, 'W_UPDATE_NAMED_SLICE %s "s" %s (%s)' % (
                    va, il, var("b", n)), upd))
    for ws in ([1, 1], [2, 1], [1, 2], [1, 1, 1], [2, 2], [1, 3], [2, 1, 1]):
        ins = [("abc"[i], w) for i, w in enumerate(ws)]

        def cat(*vs, ws=ws):
            r = 0
            for v, w in zip(vs, ws):
                r = r << w | v
            return r
        out.append(Op("CAT %s" % ws, ins, sum(ws), "W_CAT [%s]" % ",".join(var(n, w) for n, w in ins), cat))
    for (asz, lines, dsz) in ((1, 2, 1), (1, 2, 2), (2, 4, 1), (2, 3, 1)):
        ms = lines * dsz
        m = "(MEM %d %d %d)" % (asz, lines, dsz)
        dm = (1 << dsz) - 1
        # reading outside the memory has no defined value
        out.append(Op("MEM_READ %d %d %d" % (asz, lines, dsz), [("m", ms), ("a", asz)], dsz,
                      "W_MEM_READ %s (%s) (%s)" % (m, var("m", ms), var("a", asz)),
                      lambda mm, a, l=lines, d=dsz, dm=dm: (mm >> (a * d)) & dm if a < l else None))
        out.append(Op("MEM_WRITE %d %d %d" % (asz, lines, dsz), [("m", ms), ("a", asz), ("d", dsz)], ms,
                      "W_MEM_WRITE %s (%s) (%s) (%s)" % (m, var("m", ms), var("a", asz), var("d", dsz)),
                      lambda mm, a, v, l=lines, d=dsz, dm=dm: (mm & ~(dm << (a * d)) | v << (a * d)) if a < l else mm))
    return out


PRE = '''
update_vossrc "NOTIFY-CHECK-FAILURES" "NO";
update_vossrc "NOTIFY-TRAJECTORY-FAILURES" "NO";
update_vossrc "PRINT-TIME" "NO";
let cd H L = H => (L => "x" | "1") | (L => "0" | "z");
let tr ste n = itlist (\\(t,(H,L)).\\r. (sprintf "%d%s " t (cd H L))^r) (get_trace ste n) "";
let trs ste ns = let s = itlist (\\n.\\r. (tr ste n)^"/"^r) ns "" in s seq (print ("\\n@"^s^"\\n"));
// antecedent of a list of rows of the characters 0, 1 and x
let ants ns rows = letrec go t [] = [] /\\ go t (r:rs) =
      letrec f [] [] = go (t+1) rs /\\ f (n:ns) (c:cs) =
          c = "x" => f ns cs | (T, n, (c = "1" => T | F), t, t+1):(f ns cs) in
      f ns (explode r) in go 0 rows;
'''


def columns(line, T):
    """values of every output node at times 0..T-1"""
    out = []
    for p in line.split("/")[:-1]:
        ev = [(int(x[:-1]), x[-1]) for x in p.split()]
        col = []
        ev.reverse()
        cur, k = "x", 0
        for t in range(T):
            while k < len(ev) and ev[k][0] <= t:
                cur = ev[k][1]
                k += 1
            col.append(cur)
        out.append(col)
    return out


def judge(op, rows, got):
    """rows: input strings in time order; got: output strings.  None or a description of the first fault."""
    res = dict(zip(rows, got))
    names = []
    for r in rows:
        g = res[r]
        if "z" in g:
            return r, "no contradiction", g
        xs = [i for i, ch in enumerate(r) if ch == "x"]
        if not xs:
            vals, p = [], 0
            for _, w in op.ins:
                vals.append(int(r[p:p + w], 2))
                p += w
            v = op.f(*vals)
            if v is not None:
                e = "".join(map(str, bits(v, op.ow)))
                if g != e:
                    return r, e, g
        else:
            # completions of one X: the join of the two, by induction over the number of X's
            j = None
            for b in "01":
                h = res[r[:xs[0]] + b + r[xs[0] + 1:]]
                j = h if j is None else "".join(a if a == c else "x" for a, c in zip(j, h))
            for x in xs:
                for b in "01":
                    h = res[r[:x] + b + r[x + 1:]]
                    if any(a != "x" and a != c for a, c in zip(g, h)):
                        return r, "something above " + h, g
            if op.tight and any(a == "x" and c != "x" for a, c in zip(g, exact(op, r))):
                return r, exact(op, r), g
    return None


_ex = {}


def exact(op, r):
    k = (op.key, r)
    if k not in _ex:
        i = r.find("x")
        if i < 0:
            vals, p = [], 0
            for _, w in op.ins:
                vals.append(int(r[p:p + w], 2))
                p += w
            v = op.f(*vals)
            _ex[k] = "x" * op.ow if v is None else "".join(map(str, bits(v, op.ow)))
        else:
            a, b = exact(op, r[:i] + "0" + r[i + 1:]), exact(op, r[:i] + "1" + r[i + 1:])
            _ex[k] = "".join(p if p == q else "x" for p, q in zip(a, b))
    return _ex[k]


def script(op, rows, nm="ck"):
    ns = "[%s]" % ",".join('"%s"' % n for n in op.innodes())
    on = "[%s]" % ",".join('"%s"' % n for n in nodes("o", op.ow))
    return op.fl(nm) + '\nlet ss = STE "-e" %s [] (ants %s [%s]) [] [] "";\ntrs ss %s;\n' % (
        nm, ns, ",".join('"%s"' % r for r in rows), on)


def run_ops(c, name, olist, rowsof, per=1):
    items, norm = [], {}
    for i in range(0, len(olist), per):
        part = olist[i:i + per]
        scr = PRE
        exp = []
        rl = []
        for j, op in enumerate(part):
            rows = rowsof(op)
            rl.append(rows)
            scr += script(op, rows).replace("let ss", "let s%d" % j).replace("trs ss", "trs s%d" % j).replace("let ck ", "let ck%d " % j).replace('" ck ', '" ck%d ' % j)
            exp.append("ok %d" % len(rows))
        key = part[0].key if per == 1 else "%s .. %s" % (part[0].key, part[-1].key)

        def nf(j, l, part=part, rl=rl):
            if j >= len(part):
                return l
            op, rows = part[j], rl[j]
            d = 1 if op.delay else 0
            cols = columns(l, len(rows) + d)
            if len(cols) != op.ow:
                return "unreadable " + l[:100]
            got = ["".join(col[t + d] for col in cols) for t in range(len(rows))]
            b = judge(op, rows, got)
            return "ok %d" % len(rows) if b is None else "input %s (%s): expected %s, got %s" % (
                b[0], " ".join("%s:%d" % x for x in op.ins), b[1], b[2])
        norm[key] = nf

        def single(j, part=part, rl=rl):
            norm[part[j].key + " alone"] = None
            return (part[j].key, PRE + script(part[j], rl[j]) + "quit;\n")
        items.append((key, scr + "quit;\n", exp, single))
    n = sum(len(rowsof(o)) for o in olist)
    before = c.states
    c.run_streams(name, items, norm=norm)
    # a line stands for a whole table of inputs
    got = c.states - before
    if got == len(olist):
        c.states += n - got
        c.transitions += n
        c.validated += n - got


def ternary(op):
    n = sum(w for _, w in op.ins)
    return ["".join(p) for p in itertools.product("01x", repeat=n)]


def boolean(op):
    n = sum(w for _, w in op.ins)
    return ["".join(p) for p in itertools.product("01", repeat=n)]


def nested(quick):
    """every operator applied to the result of every other, sharing operands"""
    out = []
    w = 2
    va, vb, vc = ["(%s)" % var(n, w) for n in "abc"]
    lim = (1 << w) - 1
    for k1, f1 in BIN.items():
        for k2, f2 in BIN.items():
            for side in "lrb":
                inner = "(W_%s %s %s)" % (k1, va, vb)
                if side == "l":
                    ex = "W_%s %s %s" % (k2, inner, vc)
                    f = lambda a, b, cc, f1=f1, f2=f2: f2(f1(a, b, w), cc, w)
                elif side == "r":
                    ex = "W_%s %s %s" % (k2, vc, inner)
                    f = lambda a, b, cc, f1=f1, f2=f2: f2(cc, f1(a, b, w), w)
                else:
                    ex = "W_%s %s (W_NOT %s)" % (k2, inner, inner)
                    f = lambda a, b, cc, f1=f1, f2=f2: f2(f1(a, b, w), lim & ~f1(a, b, w), w)
                out.append(Op("NEST %s %s %s" % (k1, k2, side), [("a", w), ("b", w), ("c", w)], w, ex, f))
        for k2, f2 in REL.items():
            ex = "W_ITE (W_%s (W_%s %s %s) %s) (W_%s %s %s) %s" % (k2, k1, va, vb, vc, k1, vb, va, vc)
            out.append(Op("NEST ITE %s %s" % (k1, k2), [("a", w), ("b", w), ("c", w)], w, ex,
                          lambda a, b, cc, f1=f1, f2=f2: f1(b, a, w) if f2(f1(a, b, w), cc) else cc))
    return out


def run(c):
    quick = c.quick
    c.assumptions = ["inputs are applied one combination per time unit in one run; time independence of runs is the "
                     "subject of S01"]
    small = ops([1, 2])
    run_ops(c, "widths 1 and 2, all 3-valued inputs", small, ternary, per=8)
    three = [o for o in ops([3]) if o.key.split()[1] in ("3", "delayed") or o.key.split()[0] == "CONST"]
    run_ops(c, "width 3, all 3-valued inputs", [o for o in three if not o.key.startswith(("UPD", "SLICE"))], ternary, per=3)
    run_ops(c, "width 3 slices", [o for o in three if o.key.startswith(("UPD", "SLICE"))],
            boolean if quick else ternary, per=6)
    w4 = [o for o in ops([4]) if o.key.split()[0] in list(BIN) + list(REL) and "delayed" not in o.key]
    run_ops(c, "width 4", w4, boolean if quick else ternary, per=2)
    run_ops(c, "nested operators", nested(quick), boolean if quick else (lambda o: ternary(o)), per=12)
    # wide words: boundary operands around the machine word sizes
    wide = []
    for w in (31, 32, 33, 34, 40, 63, 64, 65):
        for k in ("SHL", "SHR", "ASHR", "ADD", "SUB", "EQ", "GR", "CONST"):
            if k == "CONST":
                for v in (1 << (w - 1), (1 << w) - 1, (1 << (w - 1)) + 1, (1 << w) // 3):
                    wide.append((Op("CONST wide %d %d" % (w, v), [("a", 1)], w, "W_CONST %d %d" % (w, v), lambda a, v=v: v), [(0,), (1,)]))
                continue
            f = BIN[k] if k in BIN else None
            vs = [0, 1, w - 1, w, (1 << w) - 1, 1 << (w - 1), (1 << (w - 1)) - 1] + [1 << i for i in (5, 30, 31, 32, 33, 62, 63) if i < w]
            vs = sorted(set(v for v in vs if v < (1 << w)))
            as_ = [1, (1 << w) - 1, 1 << (w - 1), (1 << w) // 3]
            rows = [(a, b) for a in as_ for b in vs]
            wide.append((Op("%s wide %d" % (k, w), [("a", w), ("b", w)], w if f else 1,
                            "W_%s (%s) (%s)" % (k, var("a", w), var("b", w)),
                            (lambda a, b, f=f, w=w: f(a, min(b, 2 * w), w) if f in (BIN["SHL"], BIN["SHR"], BIN["ASHR"]) else f(a, b, w))
                            if f else REL[k]), rows))
    rw = {op.key: ["".join("".join(map(str, bits(v, w))) for v, (_, w) in zip(r, op.ins)) for r in rows] for op, rows in wide}
    run_ops(c, "wide words at machine word boundaries", [o for o, _ in wide], lambda o: rw[o.key], per=4)
    symbolic(c, quick)


def symbolic(c, quick):
    """one run with symbolic 3-valued inputs must agree with the runs on constants"""
    items, norm = [], {}
    sel = [o for o in ops([2]) if o.key.split()[0] in list(BIN) + list(REL) + ["ITE", "NOT", "MEM_READ", "MEM_WRITE"]
           and "delayed" not in o.key and sum(w for _, w in o.ins) <= (5 if quick else 6)]
    for op in sel:
        ins = op.innodes()
        n = len(ins)
        ws, vs = ["w%d" % i for i in range(n)], ["v%d" % i for i in range(n)]
        rows = ternary(op)
        pre = PRE + 'VARS "%s";\n' % " ".join(x for p in zip(ws, vs) for x in p)
        ant = ",".join('(w%d,"%s",v%d,0,1)' % (i, nd, i) for i, nd in enumerate(ins))
        on = "[%s]" % ",".join('"%s"' % x for x in nodes("o", op.ow))
        nsl = "[%s]" % ",".join('"%s"' % x for x in ins)
        scr = pre + op.fl("ck") + '''
let sy = STE "-e" ck [] [%s] [] [] "";
let ct = STE "-e" ck [] (ants %s [%s]) [] [] "";
let on = %s;
let ws = [%s]; let vs = [%s];
// value of the symbolic run under a row
let sub r = letrec f [] [] [] = [] /\\ f (w:ws) (v:vs) (c:cs) = (w,(c = "x" => F | T)):(v,(c = "1" => T | F)):(f ws vs cs) in
            f [%s] [%s] (explode r);
let outs = map (\\n. get_trace_val sy n 0) on;
let agree t r = let sb = sub r in
   let l = map2 (\\n.\\(H,L). (substitute sb H, substitute sb L) == (get_trace_val ct n t)) on outs in
   (itlist (\\a.\\b. a AND b) l T) => "" | r^" ";
letrec all t [] = "" /\\ all t (r:rs) = (agree t r)^(all (t+1) rs);
let bad = all 0 [%s];
bad seq (print ("\\n@"^(bad = "" => "agree" | "differ on "^bad)^"\\n"));
quit;
''' % (ant, nsl, ",".join('"%s"' % r for r in rows), on, ",".join(ws), ",".join(vs),
            ",".join('"%s"' % x for x in ws), ",".join('"%s"' % x for x in vs), ",".join('"%s"' % r for r in rows))
        items.append((op.key + " symbolic", scr, ["agree"], None))
        c.states += len(rows) - 1
        c.transitions += len(rows)
        c.validated += len(rows) - 1
    c.run_streams("symbolic against explicit", items)
