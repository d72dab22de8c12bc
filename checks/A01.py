"""A01: arbitrary-precision integer arithmetic against mathematical integers."""
from math import gcd


def boundary(quick):
    s = set(range(-4, 5)) | {7, -7, 10, -10, 255, -256}
    ks = \
        [8, 15, 16, 30, 31, 32, 33, 47, 48, 61, 62, 63, 64, 65, 66, 95, 96, 97, 126, 127, 128, 129, 191, 192, 193, 255, 256, 320]
    for k in ks:
        for d in (-1, 0, 1):
            s.add((1 << k) + d)
            s.add(-((1 << k) + d))
    for x in (3037000499, 3037000500, 10 ** 18, 10 ** 19, 10 ** 30, 0x5555555555555555, 0xaaaaaaaaaaaaaaaa,
              0x123456789abcdef0fedcba9876543210, 6 * (1 << 61), 7 * (1 << 60), 5 * 10 ** 25):
        s.add(x)
        s.add(-x)
    # products whose factors straddle the single-word limits
    for a in (3, 5, 1 << 31, (1 << 32) - 1, 0xffffffff00000000):
        s.add(a * ((1 << 63) - 25))
        s.add(-(a * ((1 << 64) - 59)))
    return sorted(s, key=lambda v: (abs(v), v))


def tw(x):
    return "T" if x else "F"


OPS = [
    ("+", "int2str (x + y)", lambda x, y: str(x + y)),
    ("-", "int2str (x - y)", lambda x, y: str(x - y)),
    ("*", "int2str (x * y)", lambda x, y: str(x * y)),
    ("/", "((int2str (x / y)) catch \"E\")", lambda x, y: str(x // y) if y else "E"),
    ("%", "((int2str (x % y)) catch \"E\")", lambda x, y: str(x % y) if y else "E"),
    ("gcd", "int2str (gcd x y)", lambda x, y: str(gcd(x, y))),
    ("and", "int2str (x intAND y)", lambda x, y: str(x & y)),
    ("or", "int2str (x intOR y)", lambda x, y: str(x | y)),
    ("xor", "int2str (x intXOR y)", lambda x, y: str(x ^ y)),
    ("cmp", "(b (x < y))^(b (x <= y))^(b (x > y))^(b (x >= y))^(b (x = y))^(b (x != y))^(b (x == y))",
     lambda x, y: tw(x < y) + tw(x <= y) + tw(x > y) + tw(x >= y) + tw(x == y) + tw(x != y) + tw(x == y)),
    ("minmax", "(int2str (min x y))^\",\"^(int2str (max x y))", lambda x, y: "%d,%d" % (min(x, y), max(x, y))),
]
PRE = '''
let b v = v => "T" | "F";
letrec row op x [] = () /\\ row op x (y:ys) = (print ((op x y)^" ")) fseq (row op x ys);
letrec rows op [] l = () /\\ rows op (x:xs) l = (print "@") fseq (row op x l) fseq (print "\\n") fseq (rows op xs l);
'''


def lit(v):
    return str(v) if v >= 0 else "(0-%d)" % -v


def twos(v):
    def pred(t):
        if not t or set(t) - {"0", "1"}:
            return "not binary: %s" % t
        return None if int(t, 2) - (int(t[0]) << len(t)) == v else "two's complement value %d" % (int(t, 2) - (int(t[0]) << len(t)))
    return pred


def run(c):
    c.assumptions = ["decimal literals and decimal output are checked first, then used to read results"]
    vals = boundary(c.quick)
    pre = PRE + "let vals = [%s];\n" % ",".join(lit(v) for v in vals)
    # literals, printing and parsing in every base
    cases = []
    for v in vals:
        cases.append(("print %d" % v, 'sprintf "%%d" %s' % lit(v), str(v)))
        cases.append(("int2str %d" % v, "int2str %s" % lit(v), str(v)))
        cases.append(("unary minus %d" % v, "int2str (-%s)" % lit(v), str(-v)))
        cases.append(("not %d" % v, "int2str (intNOT %s)" % lit(v), str(~v)))
        cases.append(("abs %d" % v, "int2str (abs %s)" % lit(v), str(abs(v))))
        cases.append(("s2int %d" % v, 'int2str (s2int "%d")' % v, str(v)))
        cases.append(("scan %d" % v, 'int2str (sscanf "%%d" "%d")' % v, str(v)))
        if v >= 0:
            for f, pfx, txt in (("x", "0x", "%x" % v), ("b", "0b", bin(v)[2:]), ("o", "", "%o" % v)):
                if f != "b":
                    cases.append(("print%s %d" % (f, v), 'sprintf "%%%s" %s' % (f, lit(v)), txt))
                cases.append(("scan%s %d" % (f, v), 'int2str (sscanf "%%%s" "%s")' % (f, txt), str(v)))
                if pfx:
                    cases.append(("lit%s %d" % (f, v), 'int2str (s2int "%s%s")' % (pfx, txt), str(v)))
                    cases.append(("const%s %d" % (f, v), 'int2str %s%s' % (pfx, txt), str(v)))
        cases.append(("printb %d" % v, 'sprintf "%%b" %s' % lit(v), twos(v)))
        cases.append(("roundtrip %d" % v, 'b ((sscanf "%%d" (sprintf "%%d" %s)) = %s)' % (lit(v), lit(v)), "T"))
    c.run_cases("text", PRE, cases, chunk=600)
    # every ordered pair of the boundary set under every operator
    items = []
    per = (len(vals) + 1) // 2
    for tag, e, fn in OPS:
        for lo in range(0, len(vals), per):
            rs = vals[lo:lo + per]
            scr = lambda rs, e=e: pre + "rows (\\x.\\y. %s) [%s] vals;\nquit;\n" % (e, ",".join(map(lit, rs)))
            items.append(("%s %d" % (tag, lo), scr(rs), ["".join(fn(x, y) + " " for y in vals) for x in rs],
                          lambda i, rs=rs, scr=scr, tag=tag: ("%s %d" % (tag, rs[i]), scr([rs[i]]))))
    c.run_streams("boundary pairs", items, transitions_per_line=len(vals))
    # every pair of small numbers
    n = 40 if c.quick else 120
    sm = list(range(-n, n + 1))
    pre2 = PRE + "let vals = [%s];\n" % ",".join(map(lit, sm))
    items = []
    for tag, e, fn in OPS:
        items.append(("small %s" % tag, pre2 + "rows (\\x.\\y. %s) vals vals;\nquit;\n" % e,
                      ["".join(fn(x, y) + " " for y in sm) for x in sm],
                      lambda i, e=e, tag=tag: ("small %s %d" % (tag, sm[i]),
                                              pre2 + "rows (\\x.\\y. %s) [%s] vals;\nquit;\n" % (e, lit(sm[i])))))
    # powers, and identities over three operands
    items.append(("power", PRE + "rows (\\x.\\y. int2str (x ** y)) [%s] (0 upto 40);\nquit;\n" % ",".join(map(lit, sm)),
                  ["".join(str(x ** y) + " " for y in range(41)) for x in sm], None))
    tri = [0, 1, -1, 3, -5, (1 << 32) - 1, -(1 << 31), (1 << 63) - 1, -(1 << 63), 1 << 64, -(10 ** 20)]
    e3 = 'int2str (((x * y) - (y + z)) / (z + 7)) ^ "," ^ (int2str ((z - x) % (y + 11)))'
    items.append(("triples", PRE + "let l = [%s];\n" % ",".join(map(lit, tri)) + "".join(
        "rows (\\x.\\y. let z = %s in %s) l l;\n" % (lit(z), e3) for z in tri) + "quit;\n",
        ["".join("%d,%d " % ((x * y - (y + z)) // (z + 7), (z - x) % (y + 11)) for y in tri)
         for z in tri for x in tri], None))
    # quotients with chosen quotient and remainder around multi-word sizes (the trial quotient must be corrected)
    qs = [0, 1, 2, (1 << 31) - 1, (1 << 32) + 1, (1 << 62) - 1, 1 << 62, (1 << 63) - 1, (1 << 64) - 1, 1 << 64, (1 << 65) - 3]
    ds = [(1 << 64) - 1, 1 << 64, (1 << 64) + 1, (1 << 95) - 1, (1 << 127) - 1, 1 << 127, (1 << 127) + 1, (1 << 128) - 1,
          (1 << 128) + 5, 3 * (1 << 126), (1 << 191) + (1 << 63), (1 << 192) - (1 << 64)]
    exp, xs = [], []
    for d in ds:
        for q in qs:
            for r in (0, 1, d // 2, d - 1):
                for sd in (1, -1):
                    for sx in (1, -1):
                        xs.append((sx * (q * d + r), sd * d))
    scr = PRE + "".join('print (sprintf "@%%d %%d %%d\\n" ((%s)/(%s)) ((%s)%%(%s)) (gcd (%s) (%s)));\n' % (
        (lit(a), lit(b)) * 3) for a, b in xs) + "quit;\n"
    items.append(("chosen quotients", scr, ["%d %d %d" % (a // b, a % b, gcd(a, b)) for a, b in xs],
                  lambda i: ("div %d %d" % xs[i], PRE + 'print (sprintf "@%%d %%d %%d\\n" ((%s)/(%s)) ((%s)%%(%s)) (gcd (%s) (%s)));\nquit;\n' % (
                      (lit(xs[i][0]), lit(xs[i][1])) * 3))))
    c.run_streams("small pairs, powers, triples, divisions", items, transitions_per_line=len(sm))
    # lists of integers, conversion with bool lists
    cases = []
    for k in range(1, 6):
        for v in range(-(1 << (k - 1)), 1 << k):
            bits = [(v >> (k - 1 - i)) & 1 for i in range(k)]
            if v < (1 << (k - 1)):
                cases.append(("bl2int %d %d" % (k, v), "int2str (bl2int [%s])" % ",".join("FT"[b] for b in bits), str(v)))
    for lo in range(-3, 4):
        for hi in range(-3, 4):
            cases.append(("upto %d %d" % (lo, hi), 'itlist (\\x.\\r. (int2str x)^r) (%s upto %s) ";"' % (lit(lo), lit(hi)),
                          "".join(str(i) for i in range(lo, hi + 1)) + ";"))
            cases.append(("downto %d %d" % (lo, hi), 'itlist (\\x.\\r. (int2str x)^r) (%s downto %s) ";"' % (lit(lo), lit(hi)),
                          "".join(str(i) for i in range(lo, hi - 1, -1)) + ";"))
    c.run_cases("ranges and bit lists", PRE, cases, chunk=200)
    # integer sets
    U = [1, 2, 32, 33, 63, 64, 65, 128]
    import itertools
    subs = [s for k in range(4) for s in itertools.combinations(U, k)][:60 if c.quick else 400]
    st = lambda s: "(set2iset [%s])" % ",".join(map(str, reversed(s)))
    sh = lambda e: 'itlist (\\x.\\r. (int2str x)^","^r) (iset2set (%s)) ";"' % e
    out = lambda s: "".join("%d," % i for i in sorted(s)) + ";"
    cases = []
    for s in subs:
        cases.append(("pop %s" % (s,), "int2str (ipop_cnt %s)" % st(s), str(len(s))))
        cases.append(("mem %s" % (s,), "itlist (\\e.\\r. (b (imem %s e))^r) [%s] \"\"" % (st(s), ",".join(map(str, U))),
                      "".join(tw(u in s) for u in U)))
        for t in subs[::4]:
            cases.append(("union %s %s" % (s, t), sh("%s iunion %s" % (st(s), st(t))), out(set(s) | set(t))))
            cases.append(("inter %s %s" % (s, t), sh("%s iintersect %s" % (st(s), st(t))), out(set(s) & set(t))))
            cases.append(("sub %s %s" % (s, t), sh("%s isubtract %s" % (st(s), st(t))), out(set(s) - set(t))))
    c.run_cases("integer sets", PRE, cases)
