"""B05: Boolean expression graphs (bexpr) denote Boolean functions; SAT answers, substitution and conversion are exact."""
import itertools
from vk import bddlib as L

NAMES = ("a", "b", "c")
N = 3
FULL = L.full(N)
A, Bv, C = (L.var(N, i) for i in range(N))


def neg(x):
    return FULL & ~x


def ttstr(f):
    return "".join("1" if (f >> r) & 1 else "0" for r in range(8))


D = [L.dump(N, f, NAMES) for f in range(256)]

PRE = '''
let vr x = bvariable x;
let emt = map (\\f. hd (bool2bexpr [f])) mt;
// four structurally different expressions of every function
letrec mke [] = [bF] /\\ mke (m:ms) = let r = mke ms in (flat (map (\\f. [f, f bOR m]) r));
let etabl = mke emt;
letrec mkx [] = [bF] /\\ mkx (m:ms) = let r = mkx ms in (flat (map (\\f. [f, m bXOR f]) r));
letrec mkp [] = [bT] /\\ mkp (m:ms) = let r = mkp ms in (flat (map (\\f. [(bNOT m) bAND f, f]) r));
let btabl = map (\\f. hd (bool2bexpr [f])) tabl;
let eb e = bs (prim_bexpr2bdd e);
let sel l is = map (\\i. el (i+1) l) is;
// reading an expression by walking its structure only
let eval asg e =
  letrec go e = let t = bget_type e in
     t = "const_0" => F | t = "const_1" => T |
     t = "variable" => assoc (bget_variable e) asg | t = "not-variable" => NOT (assoc (bget_variable e) asg) |
     val (x,y) = bget_arguments e in
     t = "and" => (go x) AND (go y) | t = "not-and" => NOT ((go x) AND (go y)) | error t in
  go e;
letrec rowsof [] = [[]] /\\ rowsof (v:vs) = let r = rowsof vs in (map (\\l. (v,F):l) r)@(map (\\l. (v,T):l) r);
let asgs = rowsof ["a","b","c"];
let walk e = itlist (\\g.\\r. ((eval g e) == T => "1" | "0")^r) asgs "";
'''


def run(c):
    c.assumptions = ["expressions are read back by conversion to BDDs and, in the structure group, by walking bget_type "
                     "and bget_arguments only"]
    base = L.preamble(N, NAMES) + PRE
    order = 'update_vossrc "BEXPR-ORDER-AND-ARGS" "%s";\n'
    # 1. structures of all functions, read by walking and by conversion
    items = []
    forms = [("minterms", "etabl"), ("xor", "mkx emt"), ("maxterms", "mkp emt"), ("from BDD", "btabl"),
             ("bdd2bexpr", "map bdd2bexpr tabl"), ("double negation", "map (\\f. bNOT (bNOT f)) etabl")]
    for ro in ("NO", "YES"):
        for tag, e in forms:
            items.append(("%s reorder=%s" % (tag, ro), order % ro + base +
                          'map (\\e. print ("@"^(walk e)^" "^(eb e)^" "^(eb (bNOT e))^"\\n")) (%s);\nquit;\n' % e,
                          ["%s %s %s" % (ttstr(f), D[f], D[neg(f)]) for f in range(256)], None))
    c.run_streams("structure of every function", items, transitions_per_line=8)

    # 2. binary operators on all pairs
    ops = [("bAND", lambda x, y: x & y), ("bOR", lambda x, y: x | y), ("bXOR", lambda x, y: x ^ y),
           ("bXNOR", lambda x, y: neg(x ^ y)), ("bEqual", lambda x, y: neg(x ^ y))]
    items = []
    rows = 64
    step = 5 if c.quick else 1
    for op, m in ops:
        for lo in range(0, 256, rows):
            fs = range(lo + lo // rows % step, lo + rows, step)
            e = "(bEqual f g)" if op == "bEqual" else "(f %s g)" % op
            body = "prr (\\f.\\g. eb %s) (sel etabl [%%s]) btabl;\nquit;\n" % e
            exp = ["".join(D[m(f, g)] + " " for g in range(256)) for f in fs]
            items.append(("%s rows %d" % (op, lo), base + body % ",".join(map(str, fs)), exp,
                          lambda i, fs=fs, op=op, body=body: ("%s row %d" % (op, fs[i]), base + body % fs[i])))
    c.run_streams("binary operators", items, transitions_per_line=256)

    # 3. equality of expressions as decided by SAT, all pairs
    items = []
    for lo in range(0, 256, rows):
        fs = range(lo + lo // rows % step, lo + rows, step)
        body = 'prr (\\f.\\g. (bexpr_is_unsat (f bXOR g) 10) == T => "=" | "#") (sel etabl [%s]) (mkx emt);\nquit;\n'
        exp = ["".join("#="[f == g] + " " for g in range(256)) for f in fs]
        items.append(("sat rows %d" % lo, base + body % ",".join(map(str, fs)), exp,
                      lambda i, fs=fs, body=body: ("sat row %d" % fs[i], base + body % fs[i])))
    c.run_streams("equality by SAT", items, transitions_per_line=256)

    # 4. models of all pairs of conditions
    def model(f, g):
        def judge(s):
            both = f & g
            if s == "none":
                return None if both == 0 else "there is a model"
            if both == 0:
                return "no model exists"
            t = FULL
            seen = []
            for p in s.split():
                n, v = p.split("=")
                if n == "":
                    continue
                if n in seen:
                    return "variable twice"
                seen.append(n)
                if n not in NAMES:
                    return "foreign variable"
                x = L.var(N, NAMES.index(n))
                t &= x if v == "1" else neg(x)
            return None if t & both == t else "not a model"
        return judge
    fam = sorted(set([0, FULL, A, neg(A), Bv, C, neg(C), A & Bv, A | C, A ^ Bv, A ^ Bv ^ C, neg(A & Bv & C), A & neg(Bv) & C,
                      L.ite(N, A, Bv, C), (A & Bv) | (Bv & C) | (A & C), neg(A) & neg(Bv) & neg(C)]))
    pairs = [(f, g) for f in range(256) for g in (fam if c.quick else range(256))]
    items, norm = [], {}
    for k in range(16):
        ps = pairs[k::16]
        key = "models %d" % k
        norm[key] = lambda i, l, ps=ps: "ok" if i < len(ps) and model(*ps[i])(l) is None else "%s for %s" % (l, ps[i:i + 1])
        items.append((key, base + '''
let mstr l = l = [] => "none" | itlist (\\(n,v).\\r. n^"="^((prim_bexpr2bdd v) == T => "1" | (prim_bexpr2bdd v) == F => "0" | "?")^" "^r) l "";
map (\\(f,g). print ("@"^(let m = (bget_model [el (f+1) etabl, el (g+1) btabl] 20) in ((length m) = 0 => "none" | mstr m))^"\\n")) [%s];
quit;
''' % ",".join("(%d,%d)" % p for p in ps), ["ok"] * len(ps), None))
    c.run_streams("models", items, norm=norm)
    c.note("SAT models for %d pairs of conditions over 3 variables" % len(pairs))

    # 5. substitution: one variable by every function, several variables at once, over lists and pairs
    items = []
    for v in range(3):
        for lo in range(0, 256, rows):
            fs = list(range(lo + v, lo + rows, 8 if c.quick else 1))
            body = 'prr (\\f.\\g. eb (bsubstitute [("%s",g)] f)) (sel etabl [%%s]) btabl;\nquit;\n' % NAMES[v]
            exp = ["".join(D[L.subst(N, f, {v: g})] + " " for g in range(256)) for f in fs]
            items.append(("%s rows %d" % (NAMES[v], lo), base + body % ",".join(map(str, fs)), exp,
                          lambda i, fs=fs, body=body, v=v: ("subst %s row %d" % (NAMES[v], fs[i]), base + body % fs[i])))
    subs = [{0: Bv, 1: A}, {0: Bv, 1: C, 2: A}, {0: 0, 1: FULL}, {0: A ^ Bv, 1: A & C}, {0: neg(A), 1: neg(Bv), 2: neg(C)},
            {0: A & Bv, 2: A | Bv}, {2: C, 0: FULL, 1: neg(C)}]
    for k, s in enumerate(subs):
        sl = "[%s]" % ",".join('("%s", el %d btabl)' % (NAMES[i], g + 1) for i, g in s.items())
        body = 'map (\\(f,g). print ("@"^(eb f)^" "^(eb (hd g))^" "^(eb (el 2 g))^"\\n")) (bsubstitute %s (zip etabl (map (\\f. [f, f bAND (vr "a")]) (rev etabl))));\nquit;\n' % sl
        exp = ["%s %s %s" % (D[L.subst(N, f, s)], D[L.subst(N, 255 - f, s)], D[L.subst(N, (255 - f) & A, s)]) for f in range(256)]
        items.append(("simultaneous %d" % k, base + body, exp, None))
    c.run_streams("substitution", items, transitions_per_line=256)

    # 6. conversion with a substitution: every sequence of conversions under different tables
    tabs = [{}, {0: C}, {0: Bv, 1: A}, {1: FULL}, {0: A ^ C, 2: 0}]
    exprs = [A, A & Bv, A ^ Bv, L.ite(N, A, Bv, C), (A & Bv) ^ C]
    def tstr(s):
        return "[%s]" % ",".join('("%s", el %d tabl)' % (NAMES[i], g + 1) for i, g in s.items())
    k = 3 if c.quick else 4
    items = []
    for first in range(len(tabs)):
        seqs = list(itertools.product(range(len(tabs)), repeat=k - 1))
        body = "let tabs = [%s];\nlet es = sel etabl [%s];\n" % (",".join(tstr(s) for s in tabs), ",".join(map(str, exprs)))
        body += '''
let go is = map (\\i. map (\\e. base_bexpr2bdd (el (i+1) tabs) e) es) is;
let show is = print ("@"^(itlist (\\l.\\r. (itlist (\\f.\\r. (bs f)^" "^r) l "")^r) (go is) "")^"\\n");
map show [%s];
quit;
''' % ",".join("[%d,%s]" % (first, ",".join(map(str, s))) for s in seqs)
        exp = ["".join(D[L.subst(N, f, tabs[i])] + " " for i in (first,) + s for f in exprs) for s in seqs]
        items.append(("first table %d" % first, base + body, exp, None))
    c.run_streams("conversion under substitutions", items, transitions_per_line=len(exprs) * k)

    # 7. if-then-else and the pointwise operators over structures
    few = fam
    items = []
    for lo in range(0, 256, 32):
        cs = list(range(lo, lo + 32, 4 if c.quick else 1))
        body = '''
let few = sel btabl [%s];
let st f = (f, [bNOT f, f bAND (vr "a")]);
let sh3 (f,[g,h]) = (eb f)^" "^(eb g)^" "^(eb h)^" ";
letrec rows c [] = () /\\ rows c (f:fs) = (print "@") fseq (itlist (\\g.\\r. (print (sh3 (bITE c (st f) (st g)))) fseq r) few ()) fseq (print "\\n") fseq (rows c fs);
map (\\c. rows c few) (sel etabl [%s]);
quit;
''' % (",".join(map(str, few)), ",".join(map(str, cs)))
        exp = []
        for q in cs:
            for f in few:
                exp.append("".join("%s %s %s " % (D[L.ite(N, q, f, g)], D[L.ite(N, q, neg(f), neg(g))],
                                                  D[L.ite(N, q, f & A, g & A)]) for g in few))
        items.append(("conditions %d" % lo, base + body, exp, None))
    body = '''
let few = sel btabl [%s];
let st f = ([f], (bNOT f, 7, "s"));
let sh3 ([f],(g,n,s)) = (eb f)^" "^(eb g)^(sprintf " %%d%%s " n s);
letrec rows [] = () /\\ rows (f:fs) = (print "@") fseq (itlist (\\g.\\r. (print ((sh3 (gen_bAND (st f) (st g)))^(sh3 (gen_bOR (st f) (st g)))^
   (eb (bEqual (st f) (st g)))^" "^(sh3 (gen_bNOT (st f))))) fseq r) few ()) fseq (print "\\n") fseq (rows fs);
rows etabl;
quit;
''' % ",".join(map(str, few))
    exp = []
    for f in range(256):
        exp.append("".join("%s %s 7s %s %s 7s %s %s %s 7s " % (D[f & g], D[neg(f) & neg(g)], D[f | g], D[neg(f) | neg(g)],
                                                              D[neg(f ^ g)], D[neg(f)], D[f]) for g in few))
    items.append(("pointwise", base + body, exp, None))
    c.run_streams("structures", items, transitions_per_line=len(few))

    # 8. single answers: dependencies, sizes, natural numbers, wrong uses
    cases = []

    def dep(f, want_min):
        def judge(s):
            got = s.split()
            if got != sorted(set(got)):
                return "not sorted or not unique"
            sup = {NAMES[i] for i in L.support(N, f)}
            if not sup <= set(got):
                return "misses a variable"
            if not set(got) <= set(want_min):
                return "foreign variable"
            return None
        return judge
    for f in range(256):
        cases.append(("depends %d" % f, 'itlist (\\x.\\r. x^" "^r) (bdepends [el %d etabl]) ""' % (f + 1), dep(f, NAMES)))
        cases.append(("depends pair %d" % f, 'itlist (\\x.\\r. x^" "^r) (bdepends (el %d btabl, 3, [el %d btabl bAND (vr "z")])) ""' % (f + 1, 256 - f),
                      dep(f, NAMES + ("z",))))
        cases.append(("size %d" % f, '''let walk = letrec go e seen = let t = bget_type e in
              ((t = "and") OR (t = "not-and")) => let i = min (bexpr_signature e) (bexpr_signature (bNOT e)) in
                 (mem i seen => seen | val (x,y) = bget_arguments e in go y (go x (i:seen))) | seen in go in
              let es = [el %d etabl, el %d btabl] in
              (length (itlist walk es [])) = (bsize es) => "ok" | "bad"''' % (f + 1, 256 - f), "ok"))
    for k in range(0, 6):
        for bits in itertools.product((0, 1), repeat=k):
            cases.append(("num %s" % (bits,), 'int2str (bev2num [%s])' % ",".join("bT" if b else "bF" for b in bits),
                          str(int("".join(map(str, bits)) or "0", 2))))
    for e in ('int2str (bev2num [bT, vr "a", bF])', 'eb (bsubstitute [("a",bT),("b",bF),("a",bF)] (vr "a"))',
              'eb (hd (bITE (vr "a") [vr "b"] [vr "b", vr "c"]))', 'snd (bITE (vr "a") (vr "b","x") (vr "b","y"))',
              'eb (hd (gen_bAND [vr "b"] []))', 'snd (gen_bOR (vr "b","x") (vr "b","y"))', 'bget_variable bT',
              'bget_variable (vr "a" bAND (vr "b"))', 'eb (fst (bget_arguments bT))', 'eb (fst (bget_arguments (vr "a")))'):
        cases.append(("refused: " + e, e, "EXN"))
    for e, w in (('snd (bITE bT (vr "b","x") (vr "b","y"))', "x"), ('snd (bITE bF (vr "b","x") (vr "b","y"))', "y"),
                 ('eb (bEqual (vr "b","x") (vr "b","y"))', "0"), ('eb (bEqual [vr "b"] [vr "b"])', "1"),
                 ('eb (bF bAND (error "x"))', "0"), ('eb (bT bOR (error "x"))', "1"), ('eb (bITE bT (vr "a") (error "x"))', "a10"),
                 ('bget_type bT', "const_1"), ('bget_type bF', "const_0"), ('bget_type (bNOT (vr "a"))', "not-variable"),
                 ('bget_variable (bNOT (vr "a"))', "a"), ('int2str (length (bget_model [] 5))', "1"),
                 ('int2str (length (bget_model [bT,bT] 5))', "1"), ('int2str (length (bget_model [bT,bF] 5))', "0")):
        cases.append(("value: " + e, e, w))
    c.run_cases("single answers", base, cases)

    # 9. a collection at every allocation during each operation over structures
    prog = [
        ("substitute", 'bsubstitute [("x", vr (uq n)),("y", vr "c"),("w", bF)] [[((vr "x") bAND (vr "y")) bAND (vr "w")],[bT],'
         '[((vr "x") bAND (vr "y")) bAND (vr "b")],[(vr "b") bAND (vr "c")]]', [0, FULL, A & C & Bv, Bv & C]),
        ("ite", 'bITE ((vr (uq n)) bAND (vr "b")) [[vr "c"],[bNOT (vr "b")]] [[(vr "b") bXOR (vr "c")],[vr "c"]]',
         [L.ite(N, A & Bv, C, Bv ^ C), L.ite(N, A & Bv, neg(Bv), C)]),
        ("and", 'gen_bAND [[vr (uq n)],[bT],[vr "c"]] [[vr "c"],[vr (uq n)],[vr (uq n)]]', [A & C, A, A & C]),
        ("or", 'gen_bOR [[vr (uq n)],[bNOT (vr "b")],[vr "c"]] [[vr "c"],[vr (uq n)],[vr (uq n)]]', [A | C, neg(Bv) | A, A | C]),
        ("not", 'gen_bNOT [[(vr (uq n)) bAND (vr "c")],[vr (uq n)],[(vr "b") bXOR (vr (uq n))]]', [neg(A & C), neg(A), neg(Bv ^ A)]),
        ("equal", '[[bEqual [[vr (uq n)],[vr "b"]] [[vr "b"],[vr "c"]]]]', [neg(A ^ Bv) & neg(Bv ^ C)]),
        ("from BDD", '[bool2bexpr [variable "b" AND (variable (uq n)), variable "c" XOR (variable (uq n)), F]]', [A & Bv, A ^ C, 0]),
        ("map", 'map (\\x. [x bAND (vr (uq n))]) [vr "b", vr "c", (vr "b") bOR (vr "c")]', [A & Bv, A & C, A & (Bv | C)]),
        ("to BDD", 'map (\\x. bool2bexpr [base_bexpr2bdd [("b",variable "c" AND (variable (uq n)))] (x bXOR (vr (uq n)))]) [vr "b", vr "c", (vr "b") bAND (vr "c")]',
         [(C & A) ^ A, C ^ A, (C & A) ^ A]),
    ]
    items = []
    for tag, e, want in prog:
        items.append((tag, 'VARS "a b c";\n' + '''
let vr x = bvariable x;
let is_true q = q == T;
// every run uses another variable, so that nothing is found from an earlier run
let uq n = sprintf "a%%d" n;
let run n = %s;
letrec bs f = f == T => "1" | f == F => "0" | val (v,H,L) = top_cofactor f in (strlen v > 1 => "a" | v)^(bs H)^(bs L);
let tt n f = itlist (\\(x,y,z).\\r. ((substitute [(uq n,x),("b",y),("c",z)] f) == T => "1" | "0")^r)
     [(F,F,F),(F,F,T),(F,T,F),(F,T,T),(T,F,F),(T,F,T),(T,T,F),(T,T,T)] "";
let show n l = itlist (\\q.\\r. (itlist (\\e.\\r. (tt n (prim_bexpr2bdd e))^" "^r) q "")^r) l "";
let depth l = length (flat l);
let want = show 0 (run 0);
print ("\\n@"^want^"\\n");
let count n = (mc_gc 0 0 0) fseq (let q = run (n+1) in (depth q) seq (mc_gc_count n));
let total = count 1;
letrec gcs n = n > total + 40 => () |
   let got = (mc_gc 2 n 0) fseq (let q = run (n+10) in (depth q) seq (mc_gc 0 0 0) fseq (show (n+10) q)) in
   (got = want => () | print (sprintf "\\n@collection at node %%d gave %%s\\n" n got)) fseq (gcs (n+1));
gcs 1;
let every n = (mc_gc 2 1 1) fseq (let q = run n in (depth q) seq (mc_gc 0 0 0) fseq (show n q));
print ("\\n@"^(every 5000)^"\\n");
print (sprintf "#%%d\\n" total);
quit;
''' % e, ["".join(ttstr(f) + " " for f in want)] * 2, None))
    c.run_streams("collection at every node", items, transitions_per_line=100, args=("--mini", "-s", "14"))
