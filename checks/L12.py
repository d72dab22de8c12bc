"""L12: written values read back as the same values, in any process, and only as the type they were written."""
import itertools, os
from vk import core, fllang as F, bddlib as L

TY = '''
lettype tt = NUL | I int | S string | B bool | E bexpr | P (tt#tt) | LI (int list) | LB (bool list) | LS (string list) |
   LL ((int list) list) | R tt tt | RI (int ref) (int ref) | RL ((int ref) list) | V bv | TB ({string,int} tbl) |
   FN (int->int) | FL ((int->int) list) | G (bool->bool) | PR ((int->int)#int) | U (int#(bool#string)) | BI {bool,int} tbl
   | FP (string->int->string) | VV (bv->bv->bv);
'''.replace("BI {bool,int} tbl", "BI ({bool,int} tbl)")
OB = '''
letrec assoc k l = empty l => error ("no "^k) | k = fst (hd l) => snd (hd l) | assoc k (tl l);
letrec rowsof [] = [[]] /\\ rowsof (v:vs) = let r = rowsof vs in (map (\\l. (v,F):l) r)@(map (\\l. (v,T):l) r);
let ev asg f = letrec go f = f == T => "1" | f == F => "0" |
        val (v,H,L) = top_cofactor f in (assoc v asg) => go H | go L in go f;
let asgs = rowsof ["a","b","c"];
letrec cats [] = "" /\\ cats (s:r) = s^(cats r);
let tt f = cats (map (\\g. ev g f) asgs);
let num n = sprintf "%d" n;
let cod s = (num (strlen s))^":"^(cats (map (\\c. (num (ord c))^".") (explode s)));
let lst f l = "["^(cats (map (\\x. (f x)^";") l))^"]";
let safe s = (s catch "EXN");
let tolist v = bv2list v;
letrec ob v =
    (val (I n) = v in safe (num n)) catch
    (val (S s) = v in safe (cod s)) catch
    (val (B f) = v in safe (tt f)) catch
    (val (E f) = v in safe (tt (prim_bexpr2bdd f))) catch
    (val (LI l) = v in lst (\\n. safe (num n)) l) catch
    (val (LB l) = v in lst (\\n. safe (tt n)) l) catch
    (val (LS l) = v in lst (\\n. safe (cod n)) l) catch
    (val (LL l) = v in lst (\\n. lst num n) l) catch
    (val (P (a,b)) = v in "<"^(ob a)^","^(ob b)^">") catch
    (val (R a b) = v in "{"^(ob a)^","^(ob b)^"}") catch
    (val (RI a b) = v in
        let x = (num (deref a))^","^(num (deref b)) then let n = (deref a)+10 then (a := n) fseq (
        let z = (num (deref b))^","^(num (deref a)) then let m = (deref a)-10 then (a := m) fseq (x^","^z))) catch
    (val (RL l) = v in lst (\\r. num (deref r)) l) catch
    (val (V b) = v in lst (\\f. tt f) (tolist b)) catch
    (val (TB t) = v in lst (\\k. k^(safe (num (tbl_get t k)))) (filter (\\k. tbl_member t k) ["a","b","c","","d e"])) catch
    (val (BI t) = v in lst (\\k. (tt k)^(safe (num (tbl_get t k)))) (filter (\\k. tbl_member t k) [T,F,va,vb,vc,va AND vb, NOT va])) catch
    (val (FN f) = v in lst (\\x. safe (num (f x))) [0,1,(0-2)]) catch
    (val (FL l) = v in lst (\\f. lst (\\x. safe (num (f x))) [0,1,(0-2)]) l) catch
    (val (G f) = v in lst (\\x. safe (tt (f x))) [T,F,va,vb,vc]) catch
    (val (PR (f,n)) = v in safe (num (f n))) catch
    (val (FP f) = v in lst (\\x. safe (cod x)) [f "q" 3, f "" (0-1)]) catch
    (val (VV f) = v in lst (\\f. tt f) (tolist (f (list2bv [va,vb]) (list2bv [F,vc,T])))) catch
    (val (U (n,(b,s))) = v in (safe (num n))^(safe (tt b))^(safe (cod s))) catch "NUL";
letrec filter p l = empty l => [] | (p (hd l)) => (hd l):(filter p (tl l)) | (filter p (tl l));
'''


def pre(order):
    i = OB.index("letrec filter")
    return ('VARS "%s";\n' % " ".join(order) + 'let va = variable "a";\nlet vb = variable "b";\nlet vc = variable "c";\n'
            + TY + OB[i:] + OB[:i] + "let rob f = let v = read_tt f in v seq (ob v);\n")


def values(q):
    """[(key, fl expression, observation or None)]"""
    out = []
    ints = [0, 1, -1, 7, 2**31, -2**31, 2**32, 2**63, -2**63, 2**63 - 1, 2**64, -2**64 + 1, 10**40, -10**40]
    lit = lambda n: str(n) if n >= 0 else "(0-%d)" % -n
    leaves = [("NUL", "NUL", "NUL")]
    for n in ints:
        leaves.append(("I %d" % n, "(I %s)" % lit(n), str(n)))
    strs = ["", "a", " ", "  x ", "a b", "12 z", "3", "\\n", "a\\nb\\n", "\\\"", "\\\\", "%d", "\\t", "x" * 300, "0 ", "\\n7 q"]
    raw = lambda s: s.replace("\\\\", "\0").replace("\\n", "\n").replace("\\t", "\t").replace('\\"', '"').replace("\0", "\\")
    cod = lambda s: "%d:%s" % (len(raw(s)), "".join("%d." % ord(c) for c in raw(s)))
    for s in strs:
        leaves.append(("S %s" % s[:20], '(S "%s")' % s, cod(s)))
    A, Bv, C = 0xf0, 0xcc, 0xaa

    def tt(f):      # rows in the order of rowsof: a slowest
        return "".join("1" if f >> r & 1 else "0" for r in range(8))
    fs = [("T", 255), ("F", 0), ("va", A), ("vc", C), ("(NOT vb)", 255 ^ Bv), ("(va AND vb)", A & Bv), ("(va XOR vc)", A ^ C),
          ("((va AND vb) OR (NOT va AND vc))", (A & Bv) | ((255 ^ A) & C)), ("(vb XOR (va AND NOT vc))", Bv ^ (A & (255 ^ C)))]
    for s, f in fs:
        leaves.append(("B %s" % s, "(B %s)" % s, tt(f)))
    be = [("bT", 255), ("bF", 0), ("(bvariable \"a\")", A), ("(bNOT (bvariable \"b\"))", 255 ^ Bv),
          ("((bvariable \"a\") bAND (bNOT (bvariable \"c\")))", A & (255 ^ C)),
          ("(((bvariable \"a\") bXOR (bvariable \"b\")) bOR (bvariable \"c\"))", (A ^ Bv) | C)]
    for s, f in be:
        leaves.append(("E %s" % s, "(E %s)" % s, tt(f)))
    leaves += [("LI []", "(LI [])", "[]"), ("LI 1..", "(LI [1,2,(0-3)])", "[1;2;-3;]"),
               ("LI thunk", "(LI [1+1, (\\x. x*x) 5, hd [9]])", "[2;25;9;]"),
               ("LI err", "(LI [1, error \"e\", 3])", "[1;EXN;3;]"),
               ("LI hderr", "(LI (1 : [hd [], 4]))", "[1;EXN;4;]"),
               ("LI shared", "(let x = 3+4 in LI [x,x,x])", "[7;7;7;]"),
               ("LI forced err", "(let x = {(error \"q\")::int} in ((x catch 1) seq (LI [x,2,x])))", "[EXN;2;EXN;]"),
               ("LB", "(LB [va, va OR vb, F])", "[%s;%s;%s;]" % (tt(A), tt(A | Bv), tt(0))),
               ("LB quant", "(LB [quant_thereis va (va AND vb), va OR (vb AND vc)])", "[%s;%s;]" % (tt(Bv), tt(A | (Bv & C)))),
               ("LS", '(LS ["","a","","x y","a"])', "[0:;1:97.;0:;3:120.32.121.;1:97.;]"),
               ("LL", "(LL [[],[1],[2,3]])", "[[];[1;];[2;3;];]"),
               ("LL shared", "(let l = [1,2] in LL [l,l,3:l,tl l])", "[[1;2;];[1;2;];[3;1;2;];[2;];]"),
               ("U", '(U (5,(va,"q")))', "5%s1:113." % tt(A)),
               ("RI same", "(let r = ref 1 in RI r r)", "1,1,11,11"),
               ("RI two", "(RI (ref 1) (ref 2))", "1,2,2,11"),
               ("RI id", "(let r = ref 3 in RI r ((\\x. x) r))", "3,3,13,13"),
               ("RI hd", "(let r = ref 3 in RI (hd [r]) (fst (r,1)))", "3,3,13,13"),
               ("RI forced", "(let r = ref 3 in let a = hd [r] in let b = snd (1,r) in (deref a) fseq (deref b) fseq (RI a b))", "3,3,13,13"),
               ("RI eq", "(let r = ref 3 in let q = ref 3 in RI q r)", "3,3,3,13"),
               ("RL", "(let r = ref 3 in let q = ref 4 in (q := 5) fseq (RL [r,q,r]))", "[3;5;3;]"),
               ("V", "(V (list2bv [va,T,vb]))", "[%s;%s;%s;]" % (tt(A), tt(255), tt(Bv))),
               ("V int", "(V (int2bv (0-3)))", "[%s;%s;%s;]" % (tt(255), tt(0), tt(255))),
               ("TB", '(TB (list2tbl [("a",1),("b",2),("",3),("d e",4)]))', "[a1;b2;3;d e4;]"),
               ("TB empty", "(TB (tbl_create 10))", "[]"),
               ("BI", "(BI (list2tbl [(va,1),(va AND vb,2),(T,3),(vc,4)]))", "[%s3;%s1;%s4;%s2;]" % (tt(255), tt(A), tt(C), tt(A & Bv))),
               ("G not", "(G (\\x. NOT x))", "[%s;]" % ";".join(tt(255 ^ f) for f in (255, 0, A, Bv, C))),
               ("G and", "(G (\\x. x AND vb))", "[%s;]" % ";".join(tt(f & Bv) for f in (255, 0, A, Bv, C))),
               ("G id", "(G (\\x. x))", "[%s;]" % ";".join(tt(f) for f in (255, 0, A, Bv, C))),
               ("FP", "(FP (sprintf \"%s-%d\"))", "[3:113.45.51.;3:45.45.49.;]"),
               ("VV", "(VV bv_add)", None), ("VV2", "(VV (\\x.\\y. bv_sub y x))", None),
               ("PR", "(let k = 4 in PR ((\\x. x+k),k))", "8"),
               ("F plus", "(FN (i_plus 3))", "[3;4;1;]"), ("F err", "(FN (\\x. error \"z\"))", "[EXN;EXN;EXN;]"),
               ("F fact", "(letrec f n = n < 1 => 1 | n * (f (n-1)) in FN f)", "[1;1;1;]"),
               ("F clause", "(let f 0 = 10 /\\ f 1 = 20 in FN f)", "[10;20;EXN;]"),
               ("F memo", "(let f x = x * 3 in FN (\\x. f x))", "[0;3;-6;]"),
               ("F cache", "(clet f x = x * 3 in FN f)" if False else "(FN cf)", "[5;6;3;]"),
               ("F usr", "(FN (usr 2))", "[2;3;0;]"), ("F comp", "(FN (\\x. usr (usr x 1) x))", "[1;3;-3;]")]
    out += leaves
    # pairs of leaves; nesting; sharing; cycles
    sel = [l for l in leaves if l[0] in ("NUL", "I -1", "I %d" % 2**64, "S a\\nb\\n", "S ", "B (va XOR vc)", "B T", "E bT", "LI err",
                                         "LI []", "RI same", "V", "TB", "F plus", "F fact", "LS")]
    for x, y in itertools.product(sel, repeat=2):
        out.append(("R %s, %s" % (x[0], y[0]), "(R %s %s)" % (x[1], y[1]), "{%s,%s}" % (x[2], y[2])))
        if not q or (sel.index(x) + sel.index(y)) % 4 == 0:
            out.append(("P %s, %s" % (x[0], y[0]), "(P (%s, %s))" % (x[1], y[1]), "<%s,%s>" % (x[2], y[2])))
    for x in leaves:
        out.append(("share %s" % x[0], "(let x = %s in R x x)" % x[1], None if x[2] is None else "{%s,%s}" % (x[2], x[2])))
        out.append(("deep %s" % x[0], "(R NUL (P (%s, R NUL NUL)))" % x[1], None if x[2] is None else "{NUL,<%s,{NUL,NUL}>}" % x[2]))
    return out


def run(c):
    q = c.quick
    d = os.path.join(core.scratch(), "files")
    os.makedirs(d)
    vals = values(q)
    USR = "let usr x y = x + y;\nclet cf x = x + 5;\n"
    orders = ["abc", "cba"] if q else ["".join(o) for o in itertools.permutations("abc")]
    # observations whose value is not given in closed form: taken from the value itself before it is written
    n = len(vals)
    per = max(1, (n + 31) // 32)

    def wscript(o, part, only=None):
        s = pre(o) + USR
        for i, (k, e, x) in part:
            f = "%s/%s-%d" % (d, o, i)
            line = '''let v = %s;
let s0 = ob v;
let s1 = num (strlen s0) seq (write_tt "%s" v => "T" | "F");
let s2 = s1 seq (ob (read_tt "%s"));
let s3 = s2 seq (ob v);
let s4 = s3 seq (write_tt "%s.2" (read_tt "%s") => "T" | "F");
let s5 = s4 seq (ob (read_tt "%s.2"));
print (s5 seq ("\\n@"^s0^" "^s1^" "^(s0 = s2 => "=" | s2)^" "^(s0 = s3 => "=" | s3)^" "^s4^" "^(s0 = s5 => "=" | s5)^"\\n"));
''' % (e, f, f, f, f, f)
            if i % 2:       # written before anything is evaluated
                line = line.replace("let s0 = ob v;\n", "").replace("num (strlen s0) seq ", "").replace(
                    "let s2 =", "let s0 = s1 seq (ob v);\nlet s2 =")
            s += line
        return s + "quit;\n"
    items = []
    obs = {}
    for o in orders:
        for b in range(0, n, per):
            part = list(enumerate(vals))[b:b + per]
            exp = [x if x is not None else None for i, (k, e, x) in part]
            items.append((o, part))

    def lines(r):
        return [l[1:] for l in r.out.split("\n") if l.startswith("@")]

    def do(it):
        o, part = it
        if c.full():
            return
        r = core.run_fl(wscript(o, part), args=("--mini",))
        ls = lines(r)
        for j, (i, (k, e, x)) in enumerate(part):
            g = ls[j] if j < len(ls) else "NO ANSWER (rc=%s) %s" % (r.rc, (r.out[-200:] + r.err[-200:]).replace("\n", " | "))
            want = "%s T = = T =" % x if x is not None else None
            c.states += 1
            c.transitions += 6
            if x is None and g.endswith(" T = = T =") and "EXN" not in g:
                obs[(o, i)] = g[:-len(" T = = T =")]
                c.validated += 1
                continue
            if g != want:
                s = wscript(o, [(i, (k, e, x))])
                r1 = core.run_fl(s, args=("--mini",))
                l1 = lines(r1)
                if l1 == [want]:
                    c.violation("%s written under order %s" % (k, o), want, g, wscript(o, part), "with the history before it", ("--mini",))
                else:
                    c.violation("%s written under order %s" % (k, o), want, l1[0] if l1 else repr(r1)[:600], s, "alone", ("--mini",))
                if j >= len(ls):
                    return
            else:
                c.validated += 1
                obs[(o, i)] = x
    core.pmap(do, items)
    print("  written and read in one process    %d" % c.states, flush=True)
    c.note("%d values of a type with 23 constructors, written before and after their evaluation, read back, written again and read "
           "again in the writing process (%d variable orders)" % (n, len(orders)))
    if c.violations:
        return
    # ---- fresh processes, other orders, other histories
    rd = []
    for wo in orders:
        for ro in (["bca", wo] if q else ["".join(p) for p in itertools.permutations("abc")]):
            for hist in ("", 'let zz = map (\\n. variable ("x"^(num n))) [1,2,3,4,5,6,7,8,9];\nlet hh = itlist (\\v.\\r. v XOR r) zz (va AND vc);\nhh;\n'):
                s = pre(ro) + "letrec itlist f [] x = x /\\ itlist f (y:ys) x = f y (itlist f ys x);\n" + hist
                exp = []

                def one(i, s=s, wo=wo):
                    return 'let v = read_tt "%s/%s-%d";\nprint (let s = ob v in s seq ("\\n@"^s^"\\n"));\n' % (d, wo, i)
                body = ""
                idx = []
                for i in range(n):
                    if (wo, i) not in obs:
                        continue
                    if "cf)" in vals[i][1] and False:
                        continue
                    idx.append(i)
                    body += one(i)
                    exp.append(obs[(wo, i)])

                def single(j, s=s, idx=idx, one=one, wo=wo, ro=ro):
                    return "read %s written under %s in a process with order %s" % (vals[idx[j]][0], wo, ro), s + one(idx[j]) + "quit;\n"
                for h in range(2):
                    lo, hi = h * len(exp) // 2, (h + 1) * len(exp) // 2
                    rd.append(("%s>%s%s.%d" % (wo, ro, "h" if hist else "", h),
                               s + "".join(one(i) for i in idx[lo:hi]) + "quit;\n", exp[lo:hi],
                               lambda j, lo=lo, single=single: single(j + lo)))
    # writer files are per order; the functions of user code (usr, cf) come with the file
    c.run_streams("read in fresh processes", rd, args=("--mini",))
    c.note("every file read in fresh processes under %s, with and without other variables and BDDs" % ("two orders" if q else "all orders"))
    if c.violations:
        return
    functions(c, d)
    types(c, d)
    damage(c, d)
    misc(c, d)


def functions(c, d):
    """All functions int->int of the reference language up to a size, written as code, run after reading."""
    q = c.quick
    sel = []
    for n in range(2, 6 if q else 7):
        for e in F.gen("F", n, ()):
            o = []
            for x in (0, 1):
                try:
                    r = F.run(("ap", e, ("lit", x)))
                except Exception:
                    r = None
                if r is None:
                    break
                o.append(r)
            else:
                sel.append((e, o))
    per = 60
    items = []
    for b in range(0, len(sel), per):
        part = sel[b:b + per]
        f = "%s/fn-%d" % (d, b)
        sh = 'let rd v = val (FL l) = v in l;\nlet sh x = (num x) catch "E";\n'
        w = pre("abc") + sh + "write_tt \"%s\" (FL [\n%s]);\n" % (f, ",\n".join(F.show(e) for e, o in part))
        w += 'let l = rd (read_tt "%s");\n' % f
        w += 'write_tt "%s.2" (FL l);\n' % f
        w += '''let go l = map (\\f. let s = (sh (f 0))^" "^(sh (f 1)) in s seq (print ("\\n@"^s^"\\n"))) l;
letrec each [] = () /\\ each (x:xs) = x seq (each xs);
each (go l);
write_tt "%s.3" (FL l);
each (go (rd (read_tt "%s.2")));
each (go (rd (read_tt "%s.3")));
quit;
''' % (f, f, f)
        exp = ["%s %s" % tuple(o) for e, o in part] * 3
        items.append(("functions %d.." % b, w, exp, None))
    c.run_streams("functions written as code", items, args=("--mini",))
    c.note("all %d functions int->int of up to %d constructors of the reference language, written in lists of %d, "
           "read, written again before and after use, and run on 0 and 1" % (len(sel), 5 if q else 6, per))


DEFS = ["A int", "A int | B", "A int | B int", "A bool", "A (int list)", "A int int", "B int | A int", "A string",
        "A ((int#bool)#string)", "A (int#(bool#string))", "A (int->(int#bool))", "A ((int->int)#bool)", "AA int", "A inn",
        "A (inn list)", "A inn | B", "A ({int} box)", "A ({bool} box)", "A (int ref)", "A bexpr", "A ({int,bool} tbl)",
        "A ({bool,int} tbl)", "A int | B bool | C (int#int) | D (int list) | E string", "A tp | B", "A tp | B tp"]
INNS = ["X int", "X bool", "X int | Y"]
BOXES = ["K *a", "K (*a list)"]
VAL = {"A int": "A 5", "A int | B": "A 5", "A int | B int": "A 5", "A bool": "A T", "A (int list)": "A [5]", "A int int": "A 5 6",
       "B int | A int": "A 5", "A string": 'A "s"', "A ((int#bool)#string)": 'A ((1,T),"s")', "A (int#(bool#string))": 'A (1,(T,"s"))',
       "A (int->(int#bool))": "A (\\x. (x,T))", "A ((int->int)#bool)": "A ((\\x. x),T)", "AA int": "AA 5", "A inn": "A (error \"e\")",
       "A (inn list)": "A []", "A inn | B": "A (error \"e\")", "A ({int} box)": "A (K (error \"e\"))", "A ({bool} box)": "A (K (error \"e\"))",
       "A (int ref)": "A (ref 1)", "A bexpr": "A bT", "A ({int,bool} tbl)": "A (tbl_create 3)", "A ({bool,int} tbl)": "A (tbl_create 3)",
       "A int | B bool | C (int#int) | D (int list) | E string": "A 5", "A tp | B": "A B", "A tp | B tp": "A (error \"e\")"}


def types(c, d):
    """What is written as one type is read as another exactly if the definitions agree."""
    confs = []
    for t in DEFS:
        for i in (INNS if "inn" in t else INNS[:1]):
            for b in (BOXES if "box" in t else BOXES[:1]):
                confs.append((t, i, b))

    def define(x):
        return "lettype inn = %s;\nlettype {*a} box = %s;\nlettype tp = %s;\n" % (x[1], x[2], x[0])

    def wr(n):
        x = confs[n]
        return core.run_fl('%swrite_tp "%s/ty-%d" (%s);\nquit;\n' % (define(x), d, n, VAL[x[0]]), args=("--mini",))
    for n, r in enumerate(core.pmap(wr, range(len(confs)))):
        if r.rc != 0:
            c.violation("writing a value of type %s" % (confs[n],), "written", repr(r), None)
    if c.violations:
        return
    items = []
    for n, x in enumerate(confs):
        def one(m):
            return 'let s = ((read_tp "%s/ty-%d") seq "accepted") catch "refused";\nprint (s seq ("\\n@"^s^"\\n"));\n' % (d, m)
        exp = ["accepted" if m == n else "refused" for m in range(len(confs))]
        items.append(("type %s" % (x,), define(x) + "".join(one(m) for m in range(len(confs))) + "quit;\n", exp,
                      lambda i, x=x, one=one: ("a value of %s read as %s" % (confs[i], x), define(x) + one(i) + "quit;\n")))
    # the same, in one process that defines the type again
    for n, x in enumerate(confs):
        s = ""
        exp = []
        for m, y in enumerate(confs):
            f = "%s/re-%d-%d" % (d, n, m)
            s += define(x) + 'let ok = write_tp "%s" (%s);\nok;\n' % (f, VAL[x[0]]) + define(y)
            s += 'let s = ((read_tp "%s") seq "accepted") catch "refused";\nprint (s seq ("\\n@"^s^"\\n"));\n' % f
            exp.append("accepted" if m == n else "refused")
        items.append(("redefinition of %s" % (x,), s + "quit;\n", exp, None))
    c.run_streams("type of the reader", items, args=("--mini",))
    c.note("all pairs of %d definitions of a type (and of the types it uses) as writer and reader, in two processes and in one"
           % len(confs))


A_, B_, C_ = 0xf0, 0xcc, 0xaa


def rows(f):
    return "".join("1" if f >> r & 1 else "0" for r in range(8))


GOOD = "{[%s;%s;],[1;2;3;]}" % (rows(A_ & B_), rows(C_))


def damage(c, d):
    """A file cut at any byte, or with any byte changed, is refused or answers the original; the next read works."""
    q = c.quick
    s = pre("abc") + 'write_tt "%s/good" (R (LB [va AND vb, vc]) (LI [1,2,3]));\nquit;\n' % d
    core.run_fl(s, args=("--mini",))
    with open(d + "/good", "rb") as fh:
        data = fh.read()
    forms = [("cut at %d" % i, data[:i]) for i in range(len(data))]
    if not q:
        forms += [("byte %d inverted" % i, data[:i] + bytes([data[i] ^ 255]) + data[i + 1:]) for i in range(10, len(data))]
    forms += [("empty", b""), ("text", b"hello\n"), ("twice", data + data)]
    for n, (k, b) in enumerate(forms):
        with open("%s/dmg-%d" % (d, n), "wb") as fh:
            fh.write(b)
    items = []
    per = 40

    def one(i):
        return '''let s = (rob "%s/dmg-%d") catch "refused";
let s2 = s seq (rob "%s/good");
print (s2 seq ("\\n@"^s^" "^s2^"\\n"));
''' % (d, i, d)
    for b in range(0, len(forms), per):
        idx = list(range(b, min(b + per, len(forms))))
        # either refused or, where the damage does not reach the content, the original value
        items.append(("damage %d.." % b, pre("abc") + "".join(one(i) for i in idx) + "quit;\n", ["ok"] * len(idx), None))
    norm = {k[0]: (lambda i, l: "ok" if l in ("refused " + GOOD, GOOD + " " + GOOD) else l) for k in items}
    c.run_streams("damaged files", items, args=("--mini",), norm=norm)
    c.note("a file cut at every byte%s: refused (or the original value), then a complete file is read" % ("" if q else ", every byte inverted"))


def misc(c, d):
    """File names, failing writes, what is left in the temporary directory."""
    items = []
    names = ["a b", "a  b", " lead", "trail ", "q'uote", 'dq\\"x', "do$HOME", "semi;x", "amp&x", "st*r", "a:b", "-dash", "new\\nline", "back\\\\sl",
             "(par)", "`x`", "#h", "~", "a|b", "x>y", "%d", "[ab]", "tab\\tx", "a" * 200]
    os.makedirs(d + "/nm", exist_ok=True)
    s = pre("abc")
    exp = []
    for i, n in enumerate(names):
        f = "%s/nm/%s" % (d, n)
        s += 'let s = (write_tt "%s" (I %d)) => "T" | "F";\nlet s2 = s seq (rob "%s");\nprint (s2 seq ("\\n@"^s^" "^s2^"\\n"));\n' % (f, i, f)
        exp.append("T %d" % i)
    for i, n in enumerate(names):
        s += 'let s2 = (rob "%s/nm/%s");\nprint (s2 seq ("\\n@"^s2^"\\n"));\n' % (d, n)
        exp.append("%d" % i)
    items.append(("file names", s + "quit;\n", exp, None))
    # histories of failing and working writes and reads
    ops = {"w": ('(write_tt "DIR/h.ok" (R (B va) (I 7))) => "T" | "F"', "T"),
           "r": ('rob "DIR/good"', GOOD),
           "W": ('((write_tt "DIR/none/x" (I 1)) => "T" | "F") catch "E"', "E"),
           "S": ('((write_us "DIR/h.us" (US (fopen "DIR/h.tmp" "w"))) => "T" | "F") catch "E"', None),
           "R": ('(rob "DIR/none") catch "E"', "E"),
           "D": ('(rob "DIR/dmg-60") catch "E"', "E"),
           "Y": ('((read_us "DIR/good") seq "T") catch "E"', "E"),
           "Q": ('((write_tt (error "f") (I 1)) => "T" | "F") catch "E"', "E")}
    n_ = 3 if c.quick else 4
    hs = ["".join(h) for n in range(1, n_ + 1) for h in itertools.product("wrWSRDYQ", repeat=n)]
    per = 40
    for b in range(0, len(hs), per):
        s = pre("abc") + "lettype us = US stream;\nlet fo = fopen \"%s/h%d.tmp\" \"w\";\nlet fq = (sprintf \"%%d\" (strlen (stream2filename fo)));\nfq;\n" % (d, b)
        exp = []
        for h in hs[b:b + per]:
            s += "let k0 = \"\";\n"
            e = ""
            for j, o in enumerate(h):
                t, x = ops[o]
                t = t.replace('(fopen "DIR/h.tmp" "w")', "fo").replace("DIR/", d + "/").replace("h.ok", "h%d.ok" % b).replace("h.us", "h%d.us" % b)
                s += "let k%d = let x = (%s) in x seq (k%d^x^\" \");\nk%d;\n" % (j + 1, t, j, j + 1)
                e += (x if x is not None else "E") + " "
            s += '''let n = ob (R (read_tt "%s/good") (I 3));
print (n seq ("\\n@"^k%d^n^"\\n"));
''' % (d, len(h))
            exp.append(e + "{%s,3}" % GOOD)
        items.append(("histories %d.." % b, s + "quit;\n", exp, None))
    c.run_streams("names and histories", items, args=("--mini",))
    c.note("%d file names with special characters; all sequences of up to %d working and failing writes and reads followed by a "
           "working read" % (len(names), n_))
    leftovers(c, d)


def leftovers(c, d):
    """Nothing stays in the temporary directory after working and failing writes and reads."""
    import subprocess, tempfile
    from vk import build
    ops = ['write_tt "%s/lo1" (I 1);' % d, 'read_tt "%s/good";' % d, '((write_tt "%s/none/x" (I 1)) catch F);' % d,
           '((read_tt "%s/none") catch NUL);' % d, '((read_tt "%s/dmg-70") catch NUL);' % d, '((write_us "%s/x" (US stdin)) catch F);' % d]

    def do(h):
        w = tempfile.mkdtemp(prefix="tmpd-", dir=core.scratch())
        f = os.path.join(w, "lo.fl")
        s = pre("abc") + "lettype us = US stream;\n" + "\n".join(ops[i] for i in h).replace("lo1", "lo%d" % (7 * h[0] + h[-1])) + "\nquit;\n"
        with open(f, "w") as fh:
            fh.write(s)
        r = subprocess.run([core.mini_fl(), "-noX", "-q", "-T", w, "-F", f], stdin=subprocess.DEVNULL, capture_output=True,
                           env=build.env(), timeout=60, preexec_fn=core.limits)
        left = [x for x in os.listdir(w) if x.startswith("tmp_")]
        return h, s, left, r
    hs = [h for n in range(1, 3) for h in itertools.product(range(len(ops)), repeat=n)]
    for h, s, left, r in core.pmap(do, hs):
        c.states += 1
        c.validated += 1
        if (left or r.returncode != 0) and not c.full():
            c.violation("left in the temporary directory after %s" % [ops[i].replace(d, "DIR") for i in h], "nothing",
                        "%s %s" % (left, r.stderr[-300:]), s, "alone", ("--mini",))
    print("  temporary directory                %d" % len(hs), flush=True)
