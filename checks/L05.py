"""L05: a memoised function (clet, cletrec) answers as the plain function with the same body, in every history of calls."""
import itertools

# values of each argument type: (fl expression, text of it as shown by the plain function, class)
# equal texts mean equal values
PRE = '''
VARS "a b c";
lettype tree = LF int | ND tree tree | EM;
lettype {*a} opt = NO | YES *a;
letrec bs f = f == T => "1" | f == F => "0" | val (v,H,L) = top_cofactor f in v^(bs H)^(bs L);
let sI {x::int} = sprintf "%d" x;
let sS {x::string} = "'"^x^"'";
let sB f = bs f;
let sX {f::bexpr} = bs (prim_bexpr2bdd f);
letrec sLr sx [] = "" /\\ sLr sx (x:xs) = (sx x)^";"^(sLr sx xs);
let sL sx l = "["^(sLr sx l)^"]";
let sP sx sy (x,y) = "("^(sx x)^","^(sy y)^")";
let sV v = sL sB (bv2list v);
letrec sT EM = "EM" /\\ sT (LF x) = "LF"^(sI x) /\\ sT (ND x y) = "ND("^(sT x)^","^(sT y)^")";
let sO sx NO = "NO" /\\ sO sx (YES x) = "YES"^(sx x);
let sF f = sprintf "%d/%d/%d" (f 0) (f 1) (f 7);
let sK t = sL (sP sI sS) (qsort (\\x.\\y. fst x - fst y) (tbl2list t));
let big = 2 ** 64;
let sq {x::int} = x*x;
let inc {x::int} = x+1;
let fpair = ((\\x. x + 3), (\\x. x * 3));
let fails = \\x. IF x = 0 THEN (error "zero") ELSE x;
'''

TYPES = {
 "int": ("sI", [("0", "0"), ("1", "1"), ("(-1)", "-1"), ("241", "241"), ("242", "242"), ("(-240)", "-240"),
                ("big", str(2**64)), ("(big+1)", str(2**64 + 1)), ("(big - big)", "0"), ("(241*big)", str(241 * 2**64)),
                ("(0-big)", str(-2**64)), ("(1+1-1)", "1")]),
 "string": ("sS", [('""', "''"), ('"a"', "'a'"), ('("a"^"")', "'a'"), ('"ab"', "'ab'"), ('"ba"', "'ba'"), ('"1"', "'1'"),
                   ('(sprintf "%d" 1)', "'1'"), ('"a\\n"', "'a\n'"), ('("a"^"b")', "'ab'")]),
 "bool": ("sB", [("T", "1"), ("F", "0"), ("a", "a10"), ("b", "b10"), ("(NOT a)", "a01"), ("(NOT (NOT a))", "a10"),
                 ("(a AND b)", "ab100"), ("(b AND a)", "ab100"), ("(a OR b)", "a1b10"), ("(a OR NOT a)", "1")]),
 "bexpr": ("sX", [("bT", "1"), ("bF", "0"), ('(bvariable "a")', "a10"), ('(bvariable "b")', "b10"),
                  ('(bNOT (bvariable "a"))', "a01"), ('((bvariable "a") bAND (bvariable "b"))', "ab100"),
                  ('((bvariable "a") bOR (bvariable "b"))', "a1b10")]),
 "bv": ("sV", [("(int2bv 0)", None), ("(int2bv 1)", None), ("(int2bv (-1))", None), ("(int2bv 5)", None),
               ("(list2bv [a,b])", None), ("(list2bv [b,a])", None), ("(list2bv [F,a,b])", None)]),
 "int list": ("(sL sI)", [("[]", "[]"), ("[1]", "[1;]"), ("[1,2]", "[1;2;]"), ("[2,1]", "[2;1;]"), ("[1,1,2]", "[1;1;2;]"),
                          ("[0]", "[0;]"), ("[0,0]", "[0;0;]"), ("[big]", "[%d;]" % 2**64), ("(map inc [0,1])", "[1;2;]"),
                          ("([1]@[2])", "[1;2;]")]),
 "int list list": ("(sL (sL sI))", [("[]", "[]"), ("[[]]", "[[];]"), ("[[],[]]", "[[];[];]"), ("[[1],[2]]", "[[1;];[2;];]"),
                                    ("[[1,2]]", "[[1;2;];]"), ("[[],[1,2]]", "[[];[1;2;];]"), ("[[1,2],[]]", "[[1;2;];[];]")]),
 "int#int": ("(sP sI sI)", [("(1,2)", "(1,2)"), ("(2,1)", "(2,1)"), ("(1,1)", "(1,1)"), ("(1,242)", "(1,242)"),
                            ("(fst (1,2), inc 1)", "(1,2)"), ("(242,1)", "(242,1)")]),
 "int#(int#int)": ("(sP sI (sP sI sI))", [("(1,2,3)", "(1,(2,3))"), ("(3,2,1)", "(3,(2,1))"), ("(2,(1,3))", "(2,(1,3))"),
                                          ("(1,3,2)", "(1,(3,2))")]),
 "tree": ("sT", [("EM", "EM"), ("(LF 0)", "LF0"), ("(LF 1)", "LF1"), ("(ND EM (LF 1))", "ND(EM,LF1)"),
                 ("(ND (LF 1) EM)", "ND(LF1,EM)"), ("(ND (ND EM (LF 0)) (LF 1))", "ND(ND(EM,LF0),LF1)"),
                 ("(ND EM (ND (LF 0) (LF 1)))", "ND(EM,ND(LF0,LF1))"), ("(LF (0+1))", "LF1")]),
 "int opt": ("(sO sI)", [("NO", "NO"), ("(YES 0)", "YES0"), ("(YES 1)", "YES1"), ("(YES 242)", "YES242")]),
 "int->int": ("sF", [("sq", "0/1/49"), ("inc", "1/2/8"), ("(fst fpair)", "3/4/10"), ("(snd fpair)", "0/3/21"),
                     ("(i_plus 1)", "1/2/8"), ("(i_plus 2)", "2/3/9"), ("(\\x. x + 242)", "242/243/249"),
                     ("(\\x. inc (sq x))", "1/2/50")]),
 "{int,string} tbl": ("sK", [("(list2tbl [])", "[]"), ('(list2tbl [(1,"a")])', "[(1,'a');]"), ('(list2tbl [(1,"b")])', "[(1,'b');]"),
                             ('(list2tbl [(1,"a"),(2,"b")])', "[(1,'a');(2,'b');]"),
                             ('(list2tbl [(1,"b"),(2,"a")])', "[(1,'b');(2,'a');]"), ('(list2tbl [(2,"b")])', "[(2,'b');]")]),
}


def run(c):
    order = ["int", "string", "bool", "bexpr", "int list", "int list list", "int#int", "int#(int#int)", "tree", "int opt",
             "int->int", "{int,string} tbl"]
    # 1. all sequences of calls, one argument; two memoised functions and one plain
    dep = 3
    cases = []
    for ty in order:
        sh, vs = TYPES[ty]
        vs = vs if not c.quick else vs[:9]
        hist = ["fresh", "used"]
        n = len(vs)
        for h in hist:
            for i in range(n):
                e = "let r = ((%s) [%s]) in r" % (
                    "\\l. itlist (\\x.\\s. %s(itlist (\\y.\\s. (m1 x)^(m1 y)^(m2 x)^(m1 x)^(itlist (\\z.\\s. (m1 z)^(m2 y)^s) l \"\")^\"/\"^s) l s)) [el %d l] \"\"" % (
                        "(clean_clets ()) seq " if h == "fresh" else "", i + 1),
                    ",".join(v[0] for v in vs))
                # model
                t = [v[1] for v in vs]
                m1 = lambda k: "<" + t[k] + ">"
                m2 = lambda k: "{" + t[k] + "}"
                exp = ""
                for y in range(n):
                    exp += m1(i) + m1(y) + m2(i) + m1(i)
                    for z in range(n):
                        exp += m1(z) + m2(y)
                    exp += "/"
                cases.append((ty, "%s, %s, first argument %s" % (ty, h, vs[i][0]), e, exp))
    for ty in order:
        sh = TYPES[ty][0]
        pre = PRE + 'clet m1 x = "<"^(%s x)^">";\nclet m2 x = "{"^(%s x)^"}";\n' % (sh, sh)
        cs = [(k, e, x) for t, k, e, x in cases if t == ty]
        c.run_cases("calls in sequence: " + ty, pre, cs, chunk=max(6, len(cs) // 2), timeout=60,
                    transitions_per_case=len(TYPES[ty][1]) * (4 + 2 * len(TYPES[ty][1])))
    # 2. two arguments, of every pair of types; argument order, partial application, failing arguments
    small = {ty: (sh, vs[:5]) for ty, (sh, vs) in TYPES.items() if ty != "bv"}
    cases = []
    pre = PRE
    prs = [(x, y) for x in order for y in order]
    if c.quick:
        prs = [(x, y) for k, (x, y) in enumerate(prs) if order.index(x) <= order.index(y)]
    for q, (x, y) in enumerate(prs):
        sx, vx = small[x]
        sy, vy = small[y]
        pre += 'clet g%d x y = "<"^(%s x)^"|"^(%s y)^">";\n' % (q, sx, sy)
        # all calls, all again in reverse order, through one partial application, failing in either place
        for i in range(len(vx)):
            calls = []
            exp = []
            for j in range(len(vy)):
                calls.append("g%d %s %s" % (q, vx[i][0], vy[j][0]))
                exp.append("<%s|%s>" % (vx[i][1], vy[j][1]))
            for j in reversed(range(len(vy))):
                k = (i + j) % len(vx)
                calls.append("p %s" % vy[j][0])
                exp.append("<%s|%s>" % (vx[i][1], vy[j][1]))
                calls.append("g%d %s %s" % (q, vx[k][0], vy[j][0]))
                exp.append("<%s|%s>" % (vx[k][1], vy[j][1]))
                calls.append('((g%d (error "e") %s) catch "bad")' % (q, vy[j][0]))
                exp.append("bad")
                calls.append('((g%d %s (error "e")) catch "bad")' % (q, vx[i][0]))
                exp.append("bad")
            e = "let p = g%d %s in (%s)" % (q, vx[i][0], "^".join("(%s)" % s for s in calls))
            cases.append(("%s, %s: %s" % (x, y, vx[i][0]), e, "".join(exp)))
    c.run_cases("two arguments of all types", pre, cases, chunk=60, timeout=60, transitions_per_case=25)
    # 3. recursion, mutual histories, growth of the table, cleaning, collections in between
    pre = PRE + '''
cletrec fib n = (n < 2) => n | fib (n-1) + fib (n-2);
cletrec binom n k = ((k = 0) OR (k = n)) => 1 | binom (n-1) (k-1) + binom (n-1) k;
cletrec lev [] y = length y /\\ lev x [] = length x /\\
        lev (x:xs) (y:ys) = (x = y) => lev xs ys | 1 + (min (lev xs ys) (min (lev (x:xs) ys) (lev xs (y:ys))));
clet pr {i::int} = IF (i % 7) = 3 THEN (error (sprintf "bad %d" i)) ELSE i * i;
clet lz {i::int} = (i, (IF (i % 5) = 2 THEN {(error "lazy") :: int} ELSE i + 1));
clet mkref i = ref {i :: int};
cletrec ev n = (n = 0) => T | NOT (od (n - 1)) /\\ od n = (n = 0) => F | NOT (ev (n - 1));
'''
    pre = pre.replace("/\\ od n = (n = 0) => F | NOT (ev (n - 1))", "").replace("NOT (od (n - 1))", "NOT (ev (n - 1))")

    def fib(n):
        a, b = 0, 1
        for _ in range(n):
            a, b = b, a + b
        return a
    import math
    cases = []
    between = [("", ""), ("clean", "(clean_clets ()) seq "), ("gc", "(mc_gc_now_) seq ")]
    pre += 'let mc_gc_now_ = ();\n'
    ns = range(0, 90, 1 if not c.quick else 3)
    for n in ns:
        cases.append(("fib %d" % n, 'sprintf "%%d" (fib %d)' % n, str(fib(n))))
        cases.append(("fib %d after clean" % n, '(clean_clets ()) seq (sprintf "%%d" (fib %d))' % n, str(fib(n))))
        cases.append(("even %d" % n, 'sprintf "%%B" (ev %d)' % n, "FT"[n % 2 == 0]))
    for n in range(0, 26 if c.quick else 40):
        for k in range(n + 1):
            cases.append(("binom %d %d" % (n, k), 'sprintf "%%d" (binom %d %d)' % (n, k), str(math.comb(n, k))))
    ws = ["".join(t) for m in range(4 if c.quick else 5) for t in itertools.product("ab", repeat=m)]

    def lv(x, y):
        if not x or not y:
            return len(x) + len(y)
        if x[0] == y[0]:
            return lv(x[1:], y[1:])
        return 1 + min(lv(x[1:], y[1:]), lv(x, y[1:]), lv(x[1:], y))
    for x in ws:
        for y in ws:
            cases.append(("lev %s %s" % (x, y), 'sprintf "%%d" (lev (explode "%s") (explode "%s"))' % (x, y), str(lv(x, y))))
    for i in range(0, 60):
        cases.append(("failing result %d" % i, '((sprintf "%%d" (pr %d)) catch "E")^((sprintf "%%d" (pr %d)) catch "E")' % (i, i),
                      ("E" if i % 7 == 3 else str(i * i)) * 2))
        r = str(i) + ("E" if i % 5 == 2 else str(i + 1))
        cases.append(("partly failing result %d" % i,
                      'let p = lz %d in (sprintf "%%d" (fst p))^((sprintf "%%d" (snd p)) catch "E")^(sprintf "%%d" (fst (lz %d)))^((sprintf "%%d" (snd (lz %d))) catch "E")' % (
                          i, i, i), r + r))
    # growth: many entries, then all of them again, with a collision pattern of the table sizes
    N = 3000 if c.quick else 8000
    for stp in (1, 7, 241, 503, 1009, 2**32):
        cases.append(("growth, step %d" % stp,
                      "let t i = (sqm (i * %d)) = (i * i * %d) in sprintf \"%%B%%B\" (lp2 t %d) (lp2 t %d)" % (
                          stp, stp * stp, N // 50, N // 50), "TT"))
        cases.append(("growth of pairs, step %d" % stp,
                      "let t j = (let i = j * %d in ((adm i (i-1)) = (2*i - 1)) AND ((adm (i-1) i) = (2*i - 1)) AND "
                      "((sbm i (i-1)) = 1) AND ((sbm (i-1) i) = (-1))) in sprintf \"%%B%%B\" (lp2 t %d) (lp2 t %d)" % (
                          stp, N // 150, N // 150), "TT"))
    pre += 'letrec lp t i n = IF i > n THEN T ELSE IF (t i) THEN (lp t (i+1) n) ELSE F;\nlet lp2 t n = lp (\\b. lp (\\i. t (b * 50 + i)) 0 49) 0 (n-1);\n'
    pre += 'clet sqm {x::int} = x * x;\nclet adm {x::int} {y::int} = x + y;\nclet sbm {x::int} {y::int} = x - y;\n'
    c.run_cases("recursion, failures, growth", pre, cases, chunk=max(60, len(cases) // 8), timeout=120)
    # 4. collections at every allocation while memoised functions run
    gpre = '''
let sI {x::int} = sprintf "%d" x;
letrec sL [] = "" /\\ sL (x:xs) = (sI x)^";"^(sL xs);
clet ma l = map (\\x. x + 1) l;
clet mb x y = (x^y, [x,y]);
cletrec fib n = (n < 2) => n | fib (n-1) + fib (n-2);
clet mv a b = a AND NOT b;
VARS "a b";
'''
    ge = []
    for i in range(6):
        for j in range(6):
            l1 = "[" + ",".join(map(str, range(i))) + "]"
            l2 = "[" + ",".join(map(str, range(j, j + 2))) + "]"
            s1 = "".join("%d;" % (x + 1) for x in range(i))
            s2 = "".join("%d;" % (x + 1) for x in range(j, j + 2))
            ge.append(("lists %d %d" % (i, j), "(sL (ma %s))^(sL (ma %s))^(sL (ma %s))" % (l1, l2, l1), s1 + s2 + s1))
            ge.append(("strings %d %d" % (i, j), 'let p = mb "%s" "%s" in (fst (mb "x" "y"))^(fst p)^(hd (snd (mb "%s" "%s")))' % (
                "p" * i, "q" * j, "p" * i, "q" * j), "xy" + "p" * i + "q" * j + "p" * i))
            ge.append(("numbers %d %d" % (i, j), "(sI (fib %d))^\",\"^(sI (fib %d))" % (i + 6, j + 6), "%d,%d" % (fib(i + 6), fib(j + 6))))
    for per in (1, 2, 3) if not c.quick else (1,):
        c.run_cases("collections, period %d" % per, gpre + 'mc_gc 2 1 %d;\n' % per, ge, chunk=14, args=("--mini",), timeout=120)
    c.note("all sequences of 3 calls over up to 12 values of each of 12 argument types, in fresh and used tables; all pairs of "
           "argument types; tables of up to %d entries; a collection at every safe point" % N)
