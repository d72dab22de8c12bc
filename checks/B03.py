"""B03: BDD values survive every history: all sequences of operations, collections, reorderings."""
import itertools
from vk import bddlib as L
from vk.bvlib import sval

NAMES = ("a", "b", "c", "d")
N = 4
FULL = L.full(N)
A, Bv, C, D = (L.var(N, i) for i in range(N))


def neg(x):
    return FULL & ~x


# op name -> (fl function of the register triple, model).  Impure steps keep the registers.
OPS = [
    ("and", "\\(x,y,z). (x AND y, y, z)", lambda x, y, z: (x & y, y, z)),
    ("xor", "\\(x,y,z). (y, z, x XOR z)", lambda x, y, z: (y, z, x ^ z)),
    ("ite", "\\(x,y,z). ((IF x THEN y ELSE z), x, y)", lambda x, y, z: (L.ite(N, x, y, z), x, y)),
    ("ora", "\\(x,y,z). (x OR (a AND d), y, NOT z)", lambda x, y, z: (x | (A & D), y, neg(z))),
    ("ex", "\\(x,y,z). (quant_thereis (b) x, x, y)", lambda x, y, z: (L.exists(N, x, (1,)), x, y)),
    ("all", "\\(x,y,z). (y, quant_forall (a AND d) (x OR z), x)", lambda x, y, z: (y, L.forall(N, x | z, (0, 3)), x)),
    ("sub", "\\(x,y,z). (substitute [(\"a\",c),(\"c\",NOT b)] x, y, substitute [(\"b\",y)] z)",
     lambda x, y, z: (L.subst(N, x, {0: C, 2: neg(Bv)}), y, L.subst(N, z, {1: y}))),
    ("drop", "\\(x,y,z). (c XOR d, x, F)", lambda x, y, z: (C ^ D, x, 0)),
    ("gc", "\\(x,y,z). ((mc_gc 2 1 0) fseq (length [1,2,3])) seq (x,y,z)", None),
    ("reorder", "\\(x,y,z). (bdd_reorder 1) seq (x,y,z)", None),
    ("order1", "\\(x,y,z). (length (var_order [\"d\",\"c\",\"b\",\"a\"])) seq (x,y,z)", None),
    ("order2", "\\(x,y,z). (length (var_order [\"b\",\"d\"])) seq (x,y,z)", None),
]
STARTS = [(A & Bv, Bv | C, A ^ D), (L.ite(N, A, Bv, C), FULL, neg(C & D))]
START_FL = ["(a AND b, b OR c, a XOR d)", "((IF a THEN b ELSE c), T, NOT (c AND d))"]


def run(c):
    c.assumptions = ["registers are read back by evaluating them at all 16 assignments through top_cofactor"]
    pre = 'VARS "a b c d";\nupdate_vossrc "VERBOSE-DYNAMIC-ORDERING" "NO";\n' + '''
// value of f at an assignment, given as an association list, independent of the variable order
let ev asg f =
    letrec go f = f == T => "1" | f == F => "0" |
        val (v,H,L) = top_cofactor f in (assoc v asg) => go H | go L
    in go f;
letrec rowsof [] = [[]] /\\ rowsof (v:vs) = let r = rowsof vs in (map (\\l. (v,F):l) r)@(map (\\l. (v,T):l) r);
let asgs = rowsof ["a","b","c","d"];
let tt f = itlist (\\g.\\r. (ev g f)^r) asgs "";
let eq x y = x == y => "=" | "#";
let sh (x,y,z) = (tt x)^" "^(tt y)^" "^(tt z)^(eq x y)^(eq y z)^(eq x z);
'''
    pre += "let is_true q = q == T;\nlet ops = [%s];\n" % ",\n".join("(%s)" % o[1] for o in OPS)
    pre += '''
let reset = (length (var_order ["a","b","c","d"])) seq ();
letrec go st [] = "" /\\ go st (i:is) = let st1 = (el (i+1) ops) st in (sh st1)^" "^(go st1 is);
letrec ext p [] = [] /\\ ext p (i:is) = (p@[i]):(ext p is);
'''

    def ttstr(f):
        return "".join("1" if (f >> r) & 1 else "0" for r in range(16))

    def shown(st):
        x, y, z = st
        return "%s %s %s%s%s%s" % (ttstr(x), ttstr(y), ttstr(z), "#="[x == y], "#="[y == z], "#="[x == z])

    def step(st, i):
        return st if OPS[i][2] is None else OPS[i][2](*st)

    def script(si, prefix, seqs):
        return pre + "".join("let o _ = length (var_order [\"a\",\"b\",\"c\",\"d\"]);\nprint (let s = (o 1) seq (go %s [%s]) in \"\\n@\"^s^\"\\n\");\n" % (
            START_FL[si], ",".join(map(str, s))) for s in seqs) + "quit;\n"

    def gen_script(si, prefix, depth):
        # all extensions of prefix by `depth` more operations, enumerated inside fl
        return pre + '''
letrec all 0 = [[]] /\\ all n = let r = all (n-1) in flat (map (\\i. map (\\s. i:s) r) (0 upto %d));
letrec each [] = () /\\ each (s:ss) = (let r = ((length (var_order ["a","b","c","d"])) seq (go %s (%s@s))) in r seq (print ("\\n@"^r^"\\n"))) fseq (each ss);
each (all %d);
quit;
''' % (len(OPS) - 1, START_FL[si], "[%s]" % ",".join(map(str, prefix)), depth)

    def expected(si, seq):
        st = STARTS[si]
        out = []
        for i in seq:
            st = step(st, i)
            out.append(shown(st) + " ")
        return "".join(out)

    items = []
    depth = 3 if c.quick else 5
    for si in range(len(STARTS)):
        for i in range(len(OPS)):
            seqs = [(i,) + s for s in itertools.product(range(len(OPS)), repeat=depth - 1)]
            exp = [expected(si, s) for s in seqs]
            name = lambda s: "start %d: %s" % (si, " ".join(OPS[k][0] for k in s))
            items.append(("start%d %s" % (si, OPS[i][0]), gen_script(si, (i,), depth - 1), exp,
                          lambda k, si=si, seqs=seqs: ("start %d: %s" % (si, " ".join(OPS[q][0] for q in seqs[k])),
                                                       script(si, (), [seqs[k]]))))
    c.run_streams("all operation sequences", items, transitions_per_line=depth, args=("--mini", "-s", "14"))
    c.note("every sequence of %d steps from an alphabet of %d operations (Boolean operations, quantifiers, substitution, "
           "dropping values, garbage collection, sifting, two explicit orders) from %d start states, earlier sequences kept" %
           (depth, len(OPS), len(STARTS)))

    # every pair of single calls (f op g) then (f' op' g') over a family chosen for memo table collisions:
    # the second answer must not depend on the first call
    fam = [0, FULL, A, neg(A), Bv, neg(Bv), A & Bv, A | Bv, A ^ Bv, neg(A & C), Bv ^ C, L.ite(N, A, Bv, C), (A & Bv) ^ (C & D)]
    src = ["F", "T", "a", "NOT a", "b", "NOT b", "a AND b", "a OR b", "a XOR b", "NOT (a AND c)", "b XOR c",
           "IF a THEN b ELSE c", "(a AND b) XOR (c AND d)"]
    B2 = [("AND", lambda x, y: x & y), ("XOR", lambda x, y: x ^ y), ("OR", lambda x, y: x | y),
          ("ex", lambda x, y: L.exists(N, x & y, (1,))), ("all", lambda x, y: L.forall(N, x | y, (1,))),
          ("sub", lambda x, y: L.subst(N, x, {1: y})), ("rel", lambda x, y: L.exists(N, x & y, (1, 2))),
          ("relall", lambda x, y: L.forall(N, x & y, (1, 2)))]
    fl2 = ["\\x.\\y. x AND y", "\\x.\\y. x XOR y", "\\x.\\y. x OR y", "\\x.\\y. quant_thereis (b) (x AND y)",
           "\\x.\\y. quant_forall (b) (x OR y)", "\\x.\\y. substitute [(\"b\",y)] x",
           "\\x.\\y. relprod_thereis (b AND c) x y", "\\x.\\y. relprod_forall (b AND c) x y"]
    n = len(fam)
    half = '''
let fam = [%s];
let bops = [%s];
letrec each2 w [] k = () /\\ each2 w (x:xs) k =
  (print "@") fseq (itlist (\\y.\\r. (w x y) seq (print ((tt ((el k bops) y x))^" ")) fseq r) fam ()) fseq (print "\\n") fseq (each2 w xs k);
''' % (",".join("(%s)" % f for f in src), ",".join("(%s)" % f for f in fl2))
    items = []
    # order of evaluation in itlist: element first, then the rest
    for i, (o1, _) in enumerate(B2):
        ex, body = [], ""
        for j, (o2, f2) in enumerate(B2):
            body += "each2 (el %d bops) fam %d;\n" % (i + 1, j + 1)
            for x in fam:
                ex.append("".join(ttstr(f2(y, x)) + " " for y in fam))
        items.append(("after " + o1, pre + half + body + "quit;\n", ex, None))
    c.run_streams("pairs of memoised calls", items, transitions_per_line=2 * n, args=("--mini", "-s", "14"))

    # collection (and reordering) at every allocated node during the evaluation of each operator
    def rowsv(bits):
        return [[(b >> r) & 1 for b in bits] for r in range(16)]

    def vbit(fn, xb, yb, k):
        t = 0
        for r, (xs, ys) in enumerate(zip(rowsv(xb), rowsv(yb))):
            t |= ((fn(sval(xs), sval(ys)) >> k) & 1) << r
        return t
    prog = [
        ("and-or chain", "(a AND b) OR (c AND d)", (A & Bv) | (C & D)),
        ("xor chain", "a XOR b XOR c XOR d", A ^ Bv ^ C ^ D),
        ("ite", "IF (a XOR b) THEN (c AND d) ELSE (b OR NOT c)", L.ite(N, A ^ Bv, C & D, Bv | neg(C))),
        ("thereis", "quant_thereis (b AND c) ((a XOR b) AND (c OR d))", L.exists(N, (A ^ Bv) & (C | D), (1, 2))),
        ("forall", "quant_forall (a) ((a XOR b) OR (c AND d))", L.forall(N, (A ^ Bv) | (C & D), (0,))),
        ("substitute", "substitute [(\"a\",c XOR d),(\"b\",a)] ((a AND b) OR (b XOR c))",
         L.subst(N, (A & Bv) | (Bv ^ C), {0: C ^ D, 1: A})),
        ("relprod", "relprod_thereis (b AND c) (a XOR b) (b XOR c XOR d)", L.exists(N, (A ^ Bv) & (Bv ^ C ^ D), (1, 2))),
        ("nested substitute", "hd (substitute [(\"a\",b)] [substitute [(\"b\",a XOR c)] (b AND d), a, b XOR a])",
         L.subst(N, L.subst(N, Bv & D, {1: A ^ C}), {0: Bv})),
        ("list fold", "itlist (\\f.\\r. f XOR r) (map (\\i. i%2=0 => a AND b | c OR d) (1 upto 7)) F", (A & Bv) ^ 0 if False else ((A & Bv) * 0 ^ (A & Bv) ^ (A & Bv) ^ (A & Bv) ^ (C | D) ^ (C | D) ^ (C | D) ^ (C | D))),
        ("bv add", "el 2 (rev (bv2list (bv_add (list2bv [a,b,c]) (list2bv [F,d,a]))))",
         vbit(lambda x, y: x + y, (A, Bv, C), (0, D, A), 1)),
        ("bv sub", "el 1 (bv2list (bv_sub (list2bv [a,b,c]) (list2bv [b,d,a])))",
         vbit(lambda x, y: x - y, (A, Bv, C), (Bv, D, A), 9)),
        ("bv mul", "el 3 (rev (bv2list (bv_mul (list2bv [F,a,b]) (list2bv [F,c,d]))))",
         vbit(lambda x, y: x * y, (0, A, Bv), (0, C, D), 2)),
        ("bv div", "el 1 (rev (bv2list (bv_div (list2bv [F,a,b,c]) (list2bv [F,d,T]))))",
         vbit(lambda x, y: x // y, (0, A, Bv, C), (0, D, FULL), 0)),
        ("bv mod", "el 2 (rev (bv2list (bv_mod (list2bv [F,a,b,c]) (list2bv [F,T,d]))))",
         vbit(lambda x, y: x % y, (0, A, Bv, C), (0, FULL, D), 1)),
        ("bv cond", "el 1 (rev (bv2list (IF (a XOR b) THEN (list2bv [c,d]) ELSE (list2bv [F,c,b XOR d]))))",
         L.ite(N, A ^ Bv, D, Bv ^ D)),
        ("compare", "bv_less (list2bv [a,b,c]) (list2bv [d,c,b])",
         sum(1 << r for r in range(16) if sval([(v >> r) & 1 for v in (A, Bv, C)]) < sval([(v >> r) & 1 for v in (D, C, Bv)]))),
        ("relprod forall", "relprod_forall (a AND d) (a XOR b) (NOT (b XOR c) OR d)",
         L.forall(N, (A ^ Bv) & (neg(Bv ^ C) | D), (0, 3))),
        ("cofactor", "let f = ((a AND b) OR (c XOR d)) in (val (v,H,L) = top_cofactor f in (IF (variable v) THEN H ELSE L) XOR a)",
         ((A & Bv) | (C ^ D)) ^ A),
        ("symbolic values", "let l = (IF a THEN [b,c] ELSE [c,d]) in (el 1 l) XOR (el 2 l)", L.ite(N, A, Bv ^ C, C ^ D)),
        ("arrays and refs", "let r = ref (a AND b) in (r := (c OR d)) fseq ((deref r) XOR (a AND b))", (A & Bv) ^ (C | D)),
    ]
    defs = 'VERBOSE_OFF;\n' if False else ''
    bodies = []
    for tag, e, m in prog:
        bodies.append((tag, '''
let p a b c d = %s;
let vr n s = n < 0 => F | variable s;
let run n = p (vr n "a") (vr n "b") (vr n "c") (vr n "d");
// every run starts from a table without left-over nodes
let clear n = (mc_gc 2 1 0) fseq (length (map (\\x. x+n) [1,2,3]));
let want = tt (run 0);
print (sprintf "\\n@%%s\\n" want);
let total = (clear 3) seq ((mc_gc 0 0 0) fseq ((let q = run 1 in (is_true q) seq (mc_gc_count %%K%%))));
letrec gcs n = n > total => () |
   let got = (clear n) seq ((mc_gc %%K%% n 0) fseq (let q = run n in (is_true q) seq (mc_gc 0 0 0) fseq (tt q))) in
   (got = want => () | print (sprintf "\\n@collection at node %%d gave %%s\\n" n got)) fseq (gcs (n+1));
gcs 1;
let every = (clear 5) seq ((mc_gc %%K%% 1 1) fseq (let q = run 0 in (is_true q) seq (let k = mc_gc_count 0 in k seq (mc_gc 0 0 0) fseq (tt q))));
print (sprintf "\\n@%%s\\n" every);
print (sprintf "#%%d\\n" total);
''' % e, [ttstr(m), ttstr(m)]))
    items = []
    for kind in (2, 3):
        for dyn in ("NO", "YES"):
            for half in range(2 if c.quick else 4):
                bs = bodies[half::2 if c.quick else 4]
                mk = lambda bs, dyn=dyn, kind=kind: (
                    pre + 'update_vossrc "DYNAMIC-ORDERING" "%s";\nupdate_vossrc "DYNAMIC-ORDERING-THRESHOLD" "0";\n' % dyn +
                    'update_vossrc "VERBOSE-DYNAMIC-ORDERING" "NO";\n' +
                    "".join(b[1] for b in bs).replace("%K%", str(kind)) + "quit;\n")
                items.append(("collect kind %d dynamic %s part %d" % (kind, dyn, half), mk(bs),
                              [l for b in bs for l in b[2]],
                              None))
    c.run_streams("collection at every node", items, transitions_per_line=100, args=("--mini", "-s", "14"))

    # tables that outgrow their initial size: an array multiplier in a small table, under several orders
    k = 7 if c.quick else 8
    xs = ["x%d" % i for i in range(k)]
    ys = ["y%d" % i for i in range(k)]
    inter = [v for p in zip(xs, ys) for v in p]
    items = []
    exp = []
    for i in range(1 << k):
        exp.append("".join("%d" % (((i * j) >> k) % 2 + 2 * (bin(i * j).count("1") & 1)) for j in range(1 << k)))
    for oname, order in (("separate", xs + ys), ("interleaved", inter), ("reversed", ys[::-1] + xs)):
        for dyn in ("NO", "YES"):
            scr = 'update_vossrc "VERBOSE-DYNAMIC-ORDERING" "NO";\nupdate_vossrc "DYNAMIC-ORDERING" "%s";\n' % dyn
            scr += 'update_vossrc "DYNAMIC-ORDERING-THRESHOLD" "500";\n'
            scr += 'VARS "%s";\n' % " ".join(order)
            scr += pre[pre.index("// value of f"):pre.index("let asgs")]
            scr += '''
let x = list2bv [F,%s];
let y = list2bv [F,%s];
let bits = rev (bv2list (bv_mul x y));
let hash = itlist (\\f.\\r. (f AND (NOT r)) OR ((NOT f) AND r)) bits F;
let obs = [el %d bits, hash];
letrec bits_of i [] = [] /\\ bits_of i (v:vs) = (v, (i%%2 = 1)):(bits_of (i/2) vs);
letrec num [] asg = 0 /\\ num (f:fs) asg = ((ev asg f) = "1" => 1 | 0) + 2*(num fs asg);
let asgx = map (\\i. bits_of i [%s]) (0 upto %d);
let asgy = map (\\i. bits_of i [%s]) (0 upto %d);
let row ax = print (let s = (itlist (\\ay.\\r. (int2str (num obs (ax@ay)))^r) asgy "") in s seq ("\\n@"^s^"\\n"));
foreach row asgx;
print (sprintf "#size %%d\\n" (bdd_size bits));
quit;
''' % (",".join(xs), ",".join(ys), k + 1, ",".join('"%s"' % v for v in xs[::-1]), (1 << k) - 1,
       ",".join('"%s"' % v for v in ys[::-1]), (1 << k) - 1)
            items.append(("multiplier %s dynamic %s" % (oname, dyn), scr, exp, None))
    c.run_streams("growing tables", items, transitions_per_line=1 << k, args=("--mini", "-s", "12"))
    c.note("table growth: two output functions of a %d-bit array multiplier in a table of 4096 nodes, all %d operand "
           "pairs, three orders, with and without dynamic reordering" % (k, 1 << (2 * k)))
