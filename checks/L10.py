"""Tables: all operation histories up to a depth over several key types against a dictionary, with all observations after
every operation; growth; collections at every safe point."""
import itertools

TYPES = {
    "int": ("int", ["0", "(0-3)", "7"]),
    "big": ("int", ["18446744073709551616", "(0-18446744073709551616)", "(18446744073709551616*18446744073709551616)"]),
    "string": ("string", ['""', '"ab"', '("a"^"c")']),
    "pair": ("int#string", ['(1,"a")', '(1,"b")', '(2,"a")']),
    "list": ("int list", ["[]", "[1]", "[1,2]"]),
    "bool": ("bool", ['(variable "a")', '(NOT (variable "a"))', '((variable "a") AND (variable "b"))']),
    "bexpr": ("bexpr", ['(bvariable "a")', '(bNOT (bvariable "a"))', '((bvariable "a") bAND (bvariable "b"))']),
    "bv": ("bv", ["(int2bv 0)", "(int2bv 5)", "(int2bv (0-1))"]),
}


def ops():
    o = []
    for k in range(3):
        o.append(("insert %d" % k, ("i", k), "\\t.\\n. tbl_insert t k%d n" % k))
        o.append(("delete %d" % k, ("d", k), "\\t.\\n. tbl_delete t k%d" % k))
    o.append(("clear", ("c",), "\\t.\\n. tbl_clear t"))
    for ks in ((0, 1), (1, 2), (2, 2), (), (2, 1, 0)):
        o.append(("insertn %s" % (ks,), ("n",) + ks, "\\t.\\n. tbl_insertn t [%s]" % ",".join("(k%d,n+%d)" % (k, i) for i, k in enumerate(ks))))
    o.append(("rebuild", ("r",), "\\t.\\n. list2tbl (tbl2list t)"))
    return o


def step(d, op, n):
    """The new dictionary or None when the operation fails."""
    t = op[0]
    d = dict(d)
    if t == "i":
        if op[1] in d:
            return None
        d[op[1]] = n
    elif t == "d":
        if op[1] not in d:
            return None
        del d[op[1]]
    elif t == "c":
        d = {}
    elif t == "n":
        for i, k in enumerate(op[1:]):
            if k in d:
                return None
            d[k] = n + i
    return d


def show(d):
    s = "".join("T%d" % d[k] if k in d else "FE" for k in range(3))
    s += "#%d" % len(d)
    s += "[%s]" % "".join("%d:%d," % p for p in sorted(d.items()))
    s += "[%s]" % "".join("%d," % k for k in sorted(d))
    return s + "[%s];" % "".join("%d," % v for v in sorted(d.values()))


PRE = r"""
let sI {n::int} = sprintf "%d" n;
letrec sL [] = "" /\ sL (x:xs) = (sI x)^","^(sL xs);
letrec sP [] = "" /\ sP ((a,b):xs) = (sI a)^":"^(sI b)^","^(sP xs);
let srt l = qsort (\x.\y. x - y) l;
let srtp l = qsort (\x.\y. (fst x) - (fst y)) l;
let ob t k = (sprintf "%B" (tbl_member t k))^((sI (tbl_get t k)) catch "E");
let obs ix k0 k1 k2 t = (ob t k0)^(ob t k1)^(ob t k2)^"#"^(sI (table_size t))^
    "["^(sP (srtp (map (\p. (ix (fst p), snd p)) (tbl2list t))))^"]"^
    "["^(sL (srt (map ix (tbl2keys t))))^"]"^"["^(sL (srt (tbl2data t)))^"];";
let dead t = (sI (table_size t)) catch "x";
letrec runh ob [] t n = ""
 /\    runh ob ((mut,f):fs) t n =
        let r = ((let u = f t n in u seq [u]) catch []) in
        r seq (
        (r = []) => "F"^(ob t)^(runh ob fs t (n+10)) |
        (let u = hd r in
         let s = ob u in
         let old = (mut => (dead t) | "x") in
         s seq (old seq (s^old^(runh ob fs u (n+10))))));
"""


def expect(seq, O):
    d, out = {}, ""
    for i, j in enumerate(seq):
        e = step(d, O[j][1], 10 * (i + 1))
        if e is None:
            out += "F" + show(d)
        else:
            d = e
            out += show(d) + "x"
    return out


def run(c):
    q = c.quick
    O = ops()
    mut = ["T" if o[1][0] != "r" else "F" for o in O]
    for ty, (t, ks) in TYPES.items():
        P = PRE + "".join("let k%d = {%s::%s};\nlet j%d = {(hd [%s])::%s};\n" % (i, k, t, i, k, t) for i, k in enumerate(ks))
        P += "let ix {x::%s} = (x == k0) => 0 | (x == k1) => 1 | (x == k2) => 2 | 9;\n" % t
        P += "let O t = obs ix j0 j1 j2 {t::{%s, int} tbl};\n" % t
        for i, o in enumerate(O):
            P += "let o%d = {(%s, (%s))::bool#({%s, int} tbl->int->{%s, int} tbl)};\n" % (i, mut[i], o[2], t, t)
        depth = {"int": 4, "string": 4}.get(ty, 3) + (0 if q else 1)
        if ty == "int" and not q:
            depth = 5
        cs = []
        for d in range(1, depth + 1):
            for seq in itertools.product(range(len(O)), repeat=d):
                if d == depth and (q and ty == "string" and sum(seq) % 3 or not q and ty == "string" and sum(seq) % 2):
                    continue
                cs.append(("%s: %s" % (ty, "; ".join(O[i][0] for i in seq)), "runh O [%s] (tbl_create %d) 10" % (
                    ",".join("o%d" % i for i in seq), (len(seq) * 3 + sum(seq)) % 12 - 1 if sum(seq) % 12 else 0), expect(seq, O)))
        cs = [(k, e.replace("(tbl_create -1)", "(tbl_create (0-1))"), r) for k, e, r in cs]
        c.run_cases("%s: histories up to %d" % (ty, depth), P, cs, chunk=500, transitions_per_case=depth)
    # list2tbl with all short lists of keys
    P = PRE + r"""
let O t = obs id 0 1 2 t;
letrec gen {i::int} {n::int} = (i > n) => [] | i:(gen (i+1) n);
let big n = flat (map (\b. gen (100*b+1) (100*b+100)) (gen 0 (n-1)));
letrec ok f {i::int} {n::int} = IF i > n THEN T ELSE IF (f i) THEN (ok f (i+1) n) ELSE F;
let all f n = ok (\b. ok (\i. f (100*b+i)) 1 100) 0 (n-1);
letrec insl t [] = t /\ insl t (x:xs) = let u = tbl_insert t x (2*x) in u seq (insl u xs);
letrec ins2 t [] = t /\ ins2 t (l:ls) = let u = insl t l in u seq (ins2 u ls);
letrec dell t [] = t /\ dell t (x:xs) = let u = tbl_delete t x in u seq (dell u xs);
letrec del2 t [] = t /\ del2 t (l:ls) = let u = dell t l in u seq (del2 u ls);
let blk a n = map (\b. gen (100*b+1) (100*b+100)) (gen a (n-1));
let sB {b::bool} = sprintf "%B" b;
"""
    cs = []
    for n in range(5):
        for ks in itertools.product(range(3), repeat=n):
            l = "[%s]" % ",".join("(%d,%d)" % (k, i + 5) for i, k in enumerate(ks))
            d = {k: i + 5 for i, k in enumerate(ks)}
            cs.append(("list2tbl %s" % (ks,), '(O (list2tbl %s)) catch "E"' % l, show(d) if len(d) == n else "E"))
    # two tables at a time, tables of tables, tables as data
    for a in range(3):
        for b in range(3):
            r1, r2 = {a: 5}, {b: 6}
            cs.append(("two tables %d %d" % (a, b), "let t = tbl_insert (tbl_create 1) %d 5 in let u = tbl_insert (tbl_create 1) %d 6 in "
                       "(O t)^(O u)^(O (tbl_insertn u [(9,1)]))^(O t)" % (a, b),
                       show(r1) + show(r2) + show({b: 6}).replace("#1[%d:6,]" % b, "#2[%d:6,9:1,]" % b).replace("[%d,][6,]" % b, "[%d,9,][1,6,]" % b) + show(r1)))
            cs.append(("table of tables %d %d" % (a, b), "let m = list2tbl [(\"x\", list2tbl [(%d,5)]), (\"y\", list2tbl [(%d,6)])] in (O (tbl_get m \"x\"))^(O (tbl_get m \"y\"))^(O (tbl_get m \"x\"))" % (a, b),
                       show(r1) + show(r2) + show(r1)))
    for n in (1, 3, 11, 26) if q else (1, 2, 3, 5, 8, 13, 21, 34, 55):
        N = 100 * n
        for sz in (0, 1, 100, 100000):
            cs.append(("growth to %d from %d" % (N, sz), "let t = ins2 (tbl_create %d) (blk 0 %d) in t seq ((sB (all (\\i. (tbl_get t i) = 2*i) %d))^(sI (table_size t))^(sB (tbl_member t %d))^(sB (tbl_member t 0)))" % (
                sz, n, n, N + 1), "T%dFF" % N))
        cs.append(("growth and shrinking, %d" % N, "let t = ins2 (tbl_create 1) (blk 0 %d) in t seq (let u = del2 t (blk %d %d) in u seq ((sI (table_size u))^(sB (all (\\i. (tbl_member u i) = (i <= %d)) %d))^(sL (srt (map (\\x. x - %d) (lastn 2 (srt (tbl2keys u))))))))" % (
            n, n // 2, n, 100 * (n // 2), n, 100 * (n // 2)), ("%dT" % (100 * (n // 2)) + "-1,0,") if n > 1 else None))
        cs.append(("list2tbl of %d" % N, "let t = list2tbl (map (\\i. (i,i*i)) (big %d)) in (sB (all (\\i. (tbl_get t i) = i*i) %d))^(sI (length (tbl2list t)))" % (n, n), "T%d" % N))
        cs.append(("keys that differ by a power of two, %d" % N, "let t = list2tbl (map (\\i. (i*4294967296,i)) (big %d)) in sB (all (\\i. ((tbl_get t (i*4294967296)) = i) AND NOT (tbl_member t i)) %d)" % (n, n), "T"))
    cs = [x for x in cs if x[2] is not None]
    c.run_cases("tables from lists, several tables, growth", P, cs, chunk=20, timeout=120)
    # collections at every safe point
    G = r"""
let qsort f l = defix qsort f l;
let table_size t = defix table_size t; let tbl2keys t = defix tbl2keys t; let tbl2data t = defix tbl2data t;
let tbl_create n = defix tbl_create n; non_lazy tbl_create;
let tbl_insert t k d = defix tbl_insert t k d; let tbl_delete t k = defix tbl_delete t k; let tbl_get t k = defix tbl_get t k;
let tbl_member t k = defix tbl_member t k; let tbl_clear t = defix tbl_clear t; let tbl2list t = defix tbl2list t;
let list2tbl l = defix list2tbl l; let tbl_insertn t l = defix tbl_insertn t l;
let rev l = defix rev l; let strcmp a b = defix strcmp a b;
let mk s = implode (rev (explode s));
letrec sS [] = "" /\ sS (x:xs) = x^","^(sS xs);
let srt l = qsort (\x.\y. strcmp x y) l;
let o k t = (((tbl_get t (mk k)) catch "E")^"/");
let O t = (o "ab" t)^(o "cd" t)^(sS (srt (tbl2keys t)))^(sS (srt (tbl2data t)))^"|";
"""
    gops = [("i", "ab", 'tbl_insert t (mk "ab") (mk "%d12")'), ("i", "cd", 'tbl_insert t (mk "cd") (mk "%d34")'), ("d", "ab", 'tbl_delete t (mk "ab")'),
            ("d", "cd", 'tbl_delete t (mk "cd")'), ("c", "", 'tbl_clear t'), ("r", "", 'list2tbl (tbl2list t)')]
    cs = []
    for n in range(1, 4 if q else 5):
        for seq in itertools.product(range(len(gops)), repeat=n):
            if n == 3 and q and sum(seq) % 4:
                continue
            d, out, e = {}, "", 'let t = tbl_create 3 in '
            good = True
            for i, j in enumerate(seq):
                kind, k, txt = gops[j]
                rk = k[::-1]
                if kind == "i":
                    good = rk not in d
                    if good:
                        d[rk] = ("%d" % i + txt[-4:-2])[::-1]
                elif kind == "d":
                    good = rk in d
                    d.pop(rk, None)
                elif kind == "c":
                    d = {}
                if not good:
                    break
                e += "let t = %s in t seq (let s%d = O t in s%d seq (" % (txt % i if "%d" in txt else txt, i, i)
                out += "".join(d.get(x, "E") + "/" for x in ("ba", "dc")) + "".join(x + "," for x in sorted(d)) + "".join(x + "," for x in sorted(d.values())) + "|"
            if not good:
                continue
            e += "^".join("s%d" % i for i in range(n)) + "))" * n
            cs.append(("gc %s" % "; ".join(gops[j][0] + gops[j][1] for j in seq), e, out))
    for per in (1,) if q else (1, 2, 3):
        c.run_cases("collections, period %d" % per, G + "mc_gc 2 1 %d;\n" % per, cs, chunk=14, args=("--mini",), timeout=120)
    c.note("all histories of up to 3-4 (4-5 thorough) of %d operations for 8 key types, all observations after each; tables of up to %d "
           "entries; a collection at every safe point of all histories of up to %d operations" % (len(O), 2600 if q else 5500, 3 if q else 4))
