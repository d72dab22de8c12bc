"""L07: garbage collection is never observable."""
import importlib
from vk.core import pmap

# Programs: name, definitions, expression in n (an int) giving a string.  The value must depend on n, so that every run
# evaluates it again, and may not depend on what was run before.
MINI = [
    ("lists", "", "let l = map (\\x. x+n) [5,3,1,4] in let s = qsort (\\a.\\b. a-b) (l@(rev l)) in "
     "sprintf \"%d %d %d\" (itlist (\\a.\\b. a+2*b) s 0) (length (setify s)) (hd (tl (butlast s)))"),
    ("closures", "letrec tw f k x = (k = 0) => x | tw f (k-1) (f x);\nlet cmp f g x = f (g x);\n",
     "let add = (\\a.\\b.\\c. a+b*c) n in let h = cmp (add 2) (tw (\\v. v+n) 3) in sprintf \"%d\" (itlist (\\f.\\s. f s) [h, add 1, (\\v. v-n)] n)"),
    ("strings", "", "let s = sprintf \"%d-%s\" n (implode (map (\\i. chr (65+i+n)) [0,1,2])) in "
     "sprintf \"%s %d %s\" (implode (rev (explode s))) (strlen s) (substr s 2 3)"),
    ("big integers", "letrec pw b e = (e = 0) => 1 | b * (pw b (e-1));\n",
     "let x = (pw 10 25)+n in let y = (pw 7 11)-n in sprintf \"%d %d %d %x\" (x*y) (x/y) (x%y) x"),
    ("references", "", "let r = {(ref [n])::(int list) ref} in letrec go i = (i = 0) => () | (r := (i:(deref r))) seq (go (i-1)) in "
     "(go 4) seq (sprintf \"%d %d\" (hd (deref r)) (itlist (\\a.\\b. a+3*b) (deref r) 0))"),
    ("exceptions", "letrec chk i = (i > 3) => {(error (sprintf \"no %d\" i))::int} | i;\n",
     "let try i = (chk i) gen_catch (\\m. (strlen m > 0) => (0-i) | 0) in sprintf \"%d %d %s\" (try (n+2)) (try (n+7)) "
     "(((chk (n+9)) fseq \"none\") catch \"caught\")"),
    ("types", "lettype tree = LF {v::int} | ND {l::tree} {r::tree};\nletrec mk i = (i = 0) => LF 1 | ND (mk (i-1)) (LF i);\n"
     "letrec flat_ (LF v) = [v] /\\ flat_ (ND l r) = (flat_ l)@(flat_ r);\nletrec mir (LF v) = LF (v*2) /\\ mir (ND l r) = ND (mir r) (mir l);\n",
     "let t = mk (n+3) in itlist (\\a.\\s. sprintf \"%d,%s\" a s) (flat_ (mir t)) \"\""),
    ("patterns", "letrec f [] acc = acc /\\ f ((x,1):xs) acc = f xs (acc+x) /\\ f ((x,y):xs) acc assuming (x > y) = f xs (acc-y) /\\ f (h:xs) acc = f xs (acc*2);\n",
     "sprintf \"%d\" (f [(n,1),(n+5,2),(0,n+1),(n,n),(3,1)] n)"),
    ("tables", "", "let t = tbl_insert (tbl_insert (tbl_create 10) (n+1) \"one\") (n+2) (sprintf \"two%d\" n) in "
     "sprintf \"%s %s %d\" (tbl_get t (n+2)) ((tbl_member t (n+1)) => \"y\" | \"n\") (table_size t)"),
    ("formulas", "let va = variable \"a\";\nlet vb = variable \"b\";\nlet vc = variable \"c\";\n",
     "let k = (n > 0) => va | vb in let f = (k AND vb) OR ((NOT k) AND vc) in let g = (IF f THEN (va XOR vc) ELSE (vb OR k)) in "
     "sprintf \"%B / %B / %B\" f g (f XOR g)"),
    ("quantification", "let va = variable \"a\";\nlet vb = variable \"b\";\nlet vc = variable \"c\";\n",
     "let f = ((n > 0) => va | vc) XOR (va AND vb) in sprintf \"%B / %B / %B\" (quant_thereis va f) (quant_forall vb (f OR vc)) "
     "(substitute [(\"a\", vc AND vb), (\"b\", NOT va)] f)"),
    ("symbolic integers", "", "let bl = map (\\i. variable (sprintf \"s%d_%d\" n i)) [1,2] in sprintf \"%B\" "
     "((IF (hd bl) THEN (hd (tl bl)) ELSE (NOT (hd (tl bl)))) == ((hd bl) XOR (NOT (hd (tl bl)))))"),
    ("caches", "cletrec fib k = (k < 2) => k | (fib (k-1)) + (fib (k-2));\nclet sq {a::int} {b::int} = a*a+b;\n",
     "sprintf \"%d %d %d\" (fib (n+9)) (sq n 3) ((sq n 3) - (sq (n+1) 3))"),
    ("lazy lists", "letrec from k = k:(from (k+1));\nletrec take k (x:xs) = (k = 0) => [] | x:(take (k-1) xs);\n",
     "sprintf \"%d\" (itlist (\\a.\\b. a*2+b) (take 6 (from n)) 0)"),
    ("evaluation of text", "", "(eval (sprintf \"let e%d x = x*%d;\" n (n+2))) fseq (sprintf \"%d\" n)"),
    ("mutual recursion", "letrec ev k = (k = 0) => T | (od (k-1)) /\\ od k = (k = 0) => F | (ev (k-1));\n".replace("/\\ od", "/\\ od"),
     "sprintf \"%s\" ((n > 99) => \"big\" | \"small\")"),
    ("mutable sharing", "", "let r = {(ref n)::int ref} in let f = (\\u. (r := ((deref r)+u)) seq (deref r)) in let a = f 1 in let b = f 2 in "
     "a seq b seq (sprintf \"%d %d %d\" a b (deref r))"),
    ("text input", "", "sprintf \"%d %s\" (sscanf \"%d:\" (sprintf \"%d:x\" (n+40))) (snd (sscanf \"%d-%s\" (sprintf \"%d-%s\" n \"tail\")))"),
]

FULL = [
    ("Boolean expressions", "", "let a = bvariable (sprintf \"a%d\" n) in let b = bvariable \"b\" in let e = (a bAND b) bOR (bNOT a) in "
     "sprintf \"%S %B %d\" (bdepends e) (prim_bexpr2bdd e) (length (bdepends (e bXOR b)))"),
    ("bit vectors", "", "let v = bv_variable \"v[3:0]\" in let w = int2bv n in let s = bv_add (bv_sub v w) (bv_mul w w) in "
     "(sprintf \"%S %d\" (map (sprintf \"%B\") (bv2list s)) (bv2int (bv_div (int2bv (100*n)) (int2bv 7))))"),
    ("vectors and names", "", "sprintf \"%S %S %d\" (md_expand_vector (sprintf \"a[%d:0][1:0]\" n)) (md_extract_vectors [\"x[0]\",\"x[1]\",\"y\"]) (md_size \"q[3:1]\")"),
    ("saved values", "lettype sv = SV int (string list) bool (int->int) ({int,string} tbl);\n",
     "let f = stream2filename (mktemp \"mc\") in (write_sv f (SV n [\"a\",\"b\"] (variable \"z\") (\\x. x+n) (tbl_insert (tbl_create 3) n \"t\"))) fseq ("
     "val (SV a l b g t) = read_sv f in sprintf \"%d %S %B %d %s\" a l b (g 5) (tbl_get t n))"),
    ("circuits", "let mkc k = pexlif2fsm (PINST \"t\" [] F [(\"a[1:0]\",[\"a[1:0]\"]),(\"c\",[\"c\"])] [(\"o[1:0]\",[\"o[1:0]\"])] [] (P_HIER ["
     "PINST \"u\" [] T [(\"x[1:0]\",[\"a[1:0]\"]),(\"c\",[\"c\"])] [(\"y[1:0]\",[\"o[1:0]\"])] [] (P_LEAF [W_PHASE_DELAY (W_VAR 2 \"y\") "
     "(W_ITE (W_VAR 1 \"c\") (W_ADD (W_VAR 2 \"x\") (W_CONST 2 k)) (W_VAR 2 \"y\"))])]));\n",
     "let ck = mkc (n%3+1) in let ste = STE \"-e\" ck [] [(T,\"a[1]\",variable \"p\",0,3),(T,\"a[0]\",T,0,3),(T,\"c\",variable \"q\",1,2)] [] "
     "[(\"o[0]\",0,3),(\"o[1]\",0,3)] in sprintf \"%B %B %S\" (fst (get_trace_val ste \"o[0]\" 2)) (snd (get_trace_val ste \"o[1]\" 2)) (fanin ck \"o[1]\")"),
    ("checking", "let inv = pexlif2fsm (PINST \"t\" [] F [(\"a\",[\"a\"])] [(\"o\",[\"o\"])] [] (P_HIER [PINST \"u\" [] T [(\"a\",[\"a\"])] [(\"o\",[\"o\"])] [] "
     "(P_LEAF [W_UPDATE_FN (W_VAR 1 \"o\") (W_NOT (W_VAR 1 \"a\"))])]));\n",
     "let x = variable (sprintf \"x%d\" n) in let r = STE \"-e\" inv [] [(T,\"a\",x,0,1)] [(T,\"o\",NOT x,0,1),((n > 0),\"o\",x,0,1)] [] in sprintf \"%B %B\" (get_ste_result r \"implies\") (get_ste_result r \"antOK\")"),
    ("operators by name", "", "sprintf \"%s %s %s\" (Pwexpr (W_AND (W_VAR 4 \"a\") (W_CONST 4 n))) (str_split \"a-b-c\" \"-\" == [\"a\",\"b\",\"c\"] => \"same\" | \"different\") (substr (sha256_signature (sprintf \"abc%d\" n)) 1 8)"),
    ("text files", "", "let o = mktemp \"mc\" in let f = stream2filename o in (fprintf o \"%d lines\\n%s\\n\" n \"end\") fseq (fclose o) fseq "
     "(let i = fopen f \"r\" in let a = fgets i in let b = a seq (fgets i) in (a seq b seq (fclose i)) fseq (sprintf \"%s|%s\" (trim a) (trim b)))"),
    ("substitution tables", "", "let t = list2tbl (map (\\i. (sprintf \"k%d\" (i+n)), i) (1 upto 6)) in sprintf \"%d %S\" (tbl_get t (sprintf \"k%d\" (n+3))) (qsort strcmp (tbl2keys t))"),
    ("depth", "", "sprintf \"%S %d %S\" (depends ((variable \"a\") AND (variable (sprintf \"w%d\" n)))) (bdd_size [variable \"a\" XOR variable \"b\"]) (map (\\p. sprintf \"%s=%B\" (fst p) (snd p)) (param ((variable \"a\") OR (variable (sprintf \"w%d\" n)))))"),
]


class Rec:
    """Collects the cases of another check instead of running them."""

    def __init__(self):
        self.quick, self.tier, self.groups = True, "quick", []
        self.states = self.transitions = self.validated = 0
        self.outcomes, self.per_group, self.extra = set(), {}, {}
        self.assumptions, self.bounds, self.violations, self.known_hits = [], [], [], []
        self.exhaustive, self.hangs, self.max_viol, self.budget, self.t0 = True, 0, 8, 400, 0

    def note(self, *a):
        pass
    sample = violation = note

    def full(self):
        return False

    def is_known(self, key):
        return False

    def run_cases(self, name, preamble, cases, chunk=None, args=(), timeout=60, env=None, postamble="", catch=True, **kw):
        cases = list(cases)
        if "mc_gc" not in preamble and catch and not postamble and not env:
            self.groups.append((name, preamble, cases, tuple(args)))
        return len(cases)

    def run_streams(self, name, items, args=(), norm=None, env=None, **kw):
        return 0


def driver(kind):
    """part i of m: the collection points i, i+m, i+2m .. of a run, each in a run of its own, then collections at every p-th"""
    return """
let clear n = (mc_gc 2 1 0) fseq (length (map (\\x. x+n) [1,2,3]));
letrec from_to a b s = (a > b) => [] | a:(from_to (a+s) b s);
let drive run {n::int} {i::int} {m::int} {ps::int list} =
    let base = let q = run (n+0) in (strlen q > 0) => q | "?" in
    let total = base seq (clear 3) seq ((mc_gc 0 0 0) fseq (let q = run (n*1) in (strlen q) seq (mc_gc_count %d))) in
    let got k = (clear k) seq ((mc_gc %d k 0) fseq (let q = run (n+0*k) in (strlen q) seq ((mc_gc 0 0 0) fseq q))) in
    let every p = (clear p) seq ((mc_gc %d 1 p) fseq (let q = run (n+0*p) in (strlen q) seq ((mc_gc 0 0 0) fseq q))) in
    let bad = filter (\\k. (got k) != base) (from_to (i+1) total m) in
    let bade = filter (\\p. (every p) != base) ps in
    let sh l = itlist (\\a.\\s. sprintf "%%d,%%s" a s) l "" in
    sprintf "%%d;%%s;%%s;%%s" total (sh bad) (sh bade) base;
""" % (kind, kind, kind)


SLOW = {"saved values": 5, "bit vectors": 2, "operators by name": 2, "text files": 2, "types": 2}
BDDS = ["formulas", "quantification", "symbolic integers", "bit vectors", "circuits", "depth", "Boolean expressions"]
OTHERS = ["A01", "A02", "B01", "B04", "B06", "L01", "L06", "L09", "L11", "L18", "S01", "S08"]


# known findings of L18; too long to run with collections
SKIP = ["L18 shared conditionals"]
SKIP_QUICK = ["B06 sequences of orders", "B06 4 variables, order abcd", "L11 long formulas"] + \
    ["B06 3 variables, order " + o for o in ("abc", "acb", "bac", "bca", "cab", "cba")] + ["S08 searches"]


def verdict(total_min):
    def f(g):
        t, bad, bade, base = g.split(";", 3)
        if bad:
            return "the same answer as without a collection, also with one after each of the nodes " + bad[:100]
        if bade:
            return "the same answer as without a collection, also with one after every n-th node, n = " + bade[:100]
        if int(t) < total_min:
            return "a program that allocates"
        return None
    return f


def run(c):
    quick = c.quick
    for nm, progs, args in (("small programs", MINI, ("--mini",)), ("programs", FULL, ())):
        cases = []
        for n, d, e in progs:
            for kind in (2, 3):
                if kind == 3 and n not in BDDS:
                    continue
                m = SLOW.get(n, 1)
                for i in range(m if kind == 2 else 1):
                    if quick and i % 2 and m > 2:
                        continue
                    ps = [[1, 2, 3, 5, 8], [13, 21, 34, 55, 89], [], [], []][i]
                    cases.append(("%s, %s, part %d of %d" % (n, "graph nodes" if kind == 2 else "BDD nodes", i, m), kind, d,
                                  "(drive (\\n. %s) 2 %d %d [%s])" % (e, i, m if kind == 2 else 1, ",".join(map(str, ps)))))

        # the programs define names of their own: each in a process of its own
        l = []
        for key, kind, d, e in cases:
            l.append((key, driver(kind) + d, e))
        run_each(c, nm, l, args, 250 if not quick else 120)
    # cases of the other checks, with collections going on
    groups = []
    for o in OTHERS:
        r = Rec()
        importlib.import_module("checks." + o).run(r)
        for name, pre, cases, args in r.groups:
            groups.append(("%s %s" % (o, name), pre, cases, args))
    per = 16 if quick else 150
    total = 0
    jobs = []
    for name, pre, cases, args in groups:
        if name in SKIP or (quick and name in SKIP_QUICK):
            continue
        n = per if args else per // 4
        st = max(1, len(cases) // n)
        sel = [("%s: %s" % (name, k), e, x) for k, e, x in cases[::st][:n]]
        jobs.append((name, pre, sel, args))
        total += len(sel)
    before = c.states

    def one(job):
        name, pre, sel, args = job
        for p in ((89,) if quick else (13, 89, 377)):
            c.run_cases("%s, period %d" % (name, p), pre + "mc_gc 2 1 %d;\n" % (p if args else 4 * p), sel, args=args,
                        timeout=120, jobs=1)
    names = set(c.per_group)
    pmap(one, sorted(jobs, key=lambda x: -len(x[2])))
    c.states = c.transitions = c.validated = before + sum(v["cases"] for k, v in c.per_group.items() if k not in names)


def run_each(c, name, l, args, timeout):
    items = []
    for key, pre, e in l:
        items.append((key, pre + "print (sprintf \"\\n@%%s\\n\" (%s));\nquit;\n" % e, ["ok"], None))
    norm = dict((k, lambda j, g, f=verdict(1 if "BDD nodes" in k else 20): f(g) or "ok") for k, _, _ in l)
    c.run_streams(name, items, args=args, norm=norm, timeout=timeout)
