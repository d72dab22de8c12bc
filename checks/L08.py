"""List functions of the language against plain list semantics: all short lists, all pairs of functions on one list
(memo tables of assoc, mem and el are keyed by the list cell), all pairs of lists, all counts."""
import itertools
from functools import cmp_to_key

# element types: three distinct values and a fourth one that occurs in no list, each written in two ways
TYPES = {
    "int": (["0", "5", "(0-7)", "11"], "int"),
    "big": (["18446744073709551616", "(0-18446744073709551616)", "(4294967296*4294967296*4294967296)", "9223372036854775808"], "int"),
    "str": (['""', '"a"', '"ab"', '"b"'], "string"),
    "bool": (['(variable "a")', '(NOT (variable "a"))', '((variable "a") AND (variable "b"))', "T"], "bool"),
    "pair": (["(1,2)", "(2,1)", "(1,(0-1))", "(2,2)"], "int#int"),
    "list": (["[]", "[1]", "[1,1]", "[2]"], "int list"),
    "bexpr": (['(bvariable "a")', '(bNOT (bvariable "a"))', '((bvariable "a") bAND (bvariable "b"))', "bT"], "bexpr"),
}
COUNTS = [-1, 0, 1, 2, 3, 4, 5]


def sh(l):
    return "".join("%s," % x for x in l)


class Fail(Exception):
    pass


def need(b):
    if not b:
        raise Fail()


def tk(n, l):
    need(n <= len(l))
    return l[:max(n, 0)]


def dp(n, l):
    need(n <= len(l))
    return l[max(n, 0):]


def el(n, l):
    need(1 <= n <= len(l))
    return l[n - 1]


def uniq(l):
    return [x for i, x in enumerate(l) if x not in l[:i]]


def part(f, l):
    ks = uniq([f(x) for x in l])
    return [[x for x in l if f(x) == k] for k in ks]


def chunks(k, l):
    need(k > 0 and len(l) % k == 0)
    return [l[i:i + k] for i in range(0, len(l), k)]


def find(p, l):
    r = [x for x in l if p(x)]
    need(r)
    return r[0]


def pos0(p, l):
    return next((i + 1 for i, x in enumerate(l) if p(x)), 0)


def inter(ll):
    out = []
    while any(ll):
        ll = [l for l in ll if l]
        out += [l[0] for l in ll]
        ll = [l[1:] for l in ll]
    return out


def lst(l):
    return sh(l)


def lol(ll):
    return "".join(sh(l) + ";" for l in ll)


def num(n):
    return str(n)


def val(x):
    return str(x)


def bol(b):
    return "T" if b else "F"


def ops():
    """(name, fl body of \\l giving a string, python function list -> string)."""
    o = []

    def add(name, body, f, out):
        o.append((name, "%s (%s)" % ({lst: "sL", lol: "sLL", num: "sN", val: "D", bol: "sB"}[out], body), lambda l: out(f(l))))
    add("length", "length l", len, num)
    add("rev", "rev l", lambda l: l[::-1], lst)
    add("last", "last l", lambda l: el(len(l), l), val)
    add("butlast", "butlast l", lambda l: (need(l), l[:-1])[1], lst)
    add("setify", "setify l", uniq, lst)
    add("append twice", "(l@l)@l", lambda l: l * 3, lst)
    add("append", "append l [v3]", lambda l: l + [3], lst)
    add("cons hd tl", "(hd l):(tl l)", lambda l: (need(l), l)[1], lst)
    add("flat", "flat [l,[],l,[v3]]", lambda l: l + l + [3], lst)
    add("flatmap", "flatmap (\\x. [x,v3]) l", lambda l: [y for x in l for y in (x, 3)], lst)
    add("interleave", "interleave [l,[v3,v3],rev l]", lambda l: inter([l, [3, 3], l[::-1]]), lst)
    add("partition", "partition (\\x. x == v0) l", lambda l: part(lambda x: x == 0, l), lol)
    add("partition by value", "partition (\\x. (x,x)) l", lambda l: part(lambda x: x, l), lol)
    add("split", "let p = split (\\x. x == v1) l in [fst p, snd p]", lambda l: [[x for x in l if x == 1], [x for x in l if x != 1]], lol)
    add("sitlist", "sitlist (\\x.\\y. (ix x)+3*y) l 1", lambda l: __import__("functools").reduce(lambda y, x: x + 3 * y, l[::-1], 1), num)
    add("itlist", "itlist (\\x.\\y. (ix x)+3*y) l 1", lambda l: __import__("functools").reduce(lambda y, x: x + 3 * y, l[::-1], 1), num)
    add("rev_itlist", "rev_itlist (\\x.\\y. (ix x)+3*y) l 1", lambda l: __import__("functools").reduce(lambda y, x: x + 3 * y, l, 1), num)
    add("accumulate", "accumulate (\\x.\\y. x+3*y) (map ix l)",
        lambda l: (need(l), __import__("functools").reduce(lambda y, x: x + 3 * y, l[:-1][::-1], l[-1]))[1], num)
    add("map_index", "map_index (\\i.\\x. (i+ix x) < 3 => v0 | x) l", lambda l: [0 if i + 1 + x < 3 else x for i, x in enumerate(l)], lst)
    add("unzip", "let p = unzip (zip l (rev l)) in [fst p, snd p]", lambda l: [l, l[::-1]], lol)
    add("foreach", "let r = {(ref [])::%T list ref} in (foreach (\\x. r := (x:(deref r))) l) fseq (deref r)", lambda l: l[::-1], lst)
    add("qsort", "qsort (\\x.\\y. ix x - ix y) l", sorted, lst)
    add("qsort down", "qsort (\\x.\\y. ix y - ix x) l", lambda l: sorted(l)[::-1], lst)
    add("qsort failing", 'qsort (\\x.\\y. (x == v2) => error "q" | ix x - ix y) (v2:l)', lambda l: (need(not l), [2])[1], lst)
    add("qsort nested", "qsort (\\x.\\y. let z = qsort (\\s.\\t. t - s) [ix x, ix y, 1] in (hd z) - (hd z) + ix x - ix y) l", sorted, lst)
    for v in range(4):
        V = "v%d" % v
        add("mem %d" % v, "mem %s l" % V, lambda l, v=v: v in l, bol)
        add("mem' %d" % v, "%s' mem2 l" % V if False else "mem w%d l" % v, lambda l, v=v: v in l, bol)
        add("assoc %d" % v, "assoc %s al" % V, lambda l, v=v: 1 + l.index(v) if v in l else need(0), num)
        add("rev_assoc %d" % v, "rev_assoc w%d ra" % v, lambda l, v=v: 1 + l.index(v) if v in l else need(0), num)
        add("find %d" % v, "find (\\x. x == %s) l" % V, lambda l, v=v: find(lambda x: x == v, l), val)
        add("find not %d" % v, "find (\\x. NOT (x == %s)) l" % V, lambda l, v=v: find(lambda x: x != v, l), val)
        add("find_first %d" % v, "find_first (\\x. x == %s) l" % V, lambda l, v=v: (need(v in l), pos0(lambda x: x == v, l))[1], num)
        add("find_first0 %d" % v, "find_first0 (\\x. x == %s) l" % V, lambda l, v=v: pos0(lambda x: x == v, l), num)
        o.append(("find_all %d" % v, "sNL (find_all (\\x. x == %s) l)" % V, lambda l, v=v: sh([i + 1 for i, x in enumerate(l) if x == v])))
        add("filter %d" % v, "filter (\\x. NOT (x == %s)) l" % V, lambda l, v=v: [x for x in l if x != v], lst)
        add("union %d" % v, "(setify l) union [%s]" % V, lambda l, v=v: uniq(l + [v]), lst)
    for k in COUNTS:
        K = str(k) if k >= 0 else "(0-%d)" % -k
        add("el %d" % k, "el %s l" % K, lambda l, k=k: el(k, l), val)
        add("firstn %d" % k, "firstn %s l" % K, lambda l, k=k: tk(k, l), lst)
        add("butfirstn %d" % k, "butfirstn %s l" % K, lambda l, k=k: dp(k, l), lst)
        add("lastn %d" % k, "lastn %s l" % K, lambda l, k=k: tk(k, l[::-1])[::-1], lst)
        add("butlastn %d" % k, "butlastn %s l" % K, lambda l, k=k: dp(k, l[::-1])[::-1], lst)
        add("cluster %d" % k, "cluster %s l" % K, lambda l, k=k: chunks(k, l), lol)
        add("atmost %d" % k, "atmost %s l [v3]" % K, lambda l, k=k: l if len(l) <= k else l[:max(k, 0)] + [3], lst)
        add("split_list %d" % k, "let (a,b,e) = split_list %s l in [a,[b],e]" % K if False else "sp3 (split_list %s l)" % K,
            lambda l, k=k: (el(k, l), [l[:k - 1], [l[k - 1]], l[k:]])[1], lol)
        add("replicate %d" % k, "replicate %s (last l)" % K, lambda l, k=k: (need(k >= 0), [el(len(l), l)] * k if k else [])[1], lst)
    for ix in ([], [1], [2], [1, 1], [2, 1], [3, 2, 1], [0], [-1], [2, 4]):
        I = "[%s]" % ",".join(str(x) if x >= 0 else "0-%d" % -x for x in ix)
        add("gather %s" % ix, "gather l %s" % I, lambda l, ix=ix: [el(i, l) for i in ix], lst)
        add("separate %s" % ix, "let p = separate l %s in [fst p, snd p]" % I,
            lambda l, ix=ix: [[el(i, l) for i in uniq(ix)], [x for i, x in enumerate(l) if i + 1 not in ix]], lol)
    return o


def pre(ty, names):
    vs, t = TYPES[ty]
    s = "".join("let v%d = {%s::%s};\nlet w%d = {(hd [%s])::%s};\n" % (i, v, t, i, v, t) for i, v in enumerate(vs))
    s += """
let ix x = (x == v0) => 0 | (x == v1) => 1 | (x == v2) => 2 | (x == v3) => 3 | {(error "?")::int};
let D x = sprintf "%d" (ix x);
letrec sL [] = "" /\\ sL (x:xs) = (D x)^","^(sL xs);
letrec sLL [] = "" /\\ sLL (x:xs) = (sL x)^";"^(sLL xs);
let sN {n::int} = sprintf "%d" n;
letrec sNL [] = "" /\\ sNL (x:xs) = (sN x)^","^(sNL xs);
let sB {b::bool} = sprintf "%B" b;
let sp3 (a,b,e) = [a,[b],e];
let tr f l al ra = (f l al ra) catch "E";
""".replace("let ix x", "let ix {x::%s}" % t)
    for i, (n, body, f) in enumerate(names):
        s += "let o%d l al ra = %s;\n" % (i, body.replace("%T", "(%s)" % t))
    s += 'let mk l = let p = (1 upto (length l)) in (l, (zip l p), (zip p l));\n'
    s += 'let one f l = let q = mk l in tr f (fst q) (fst (snd q)) (snd (snd q));\n'
    s += ('let seq3 f g h l = let q = mk l in let a = fst q in let b = fst (snd q) in let d = snd (snd q) in '
          'let r1 = tr f a b d then let r2 = tr g a b d then let r3 = tr h a b d then let r4 = tr f a b d then '
          'r1^"/"^r2^"/"^r3^"/"^r4^"/"^(sL a);\n')
    return s


def flist(l, alt=0):
    return "[" + ",".join(("v%d" if (i + alt) % 2 == 0 else "w%d") % x for i, x in enumerate(l)) + "]"


def run_op(f, l):
    try:
        return f(list(l))
    except Fail:
        return "E"


def lists(n):
    return [l for k in range(n + 1) for l in itertools.product(range(3), repeat=k)]


def run(c):
    O = ops()
    q = c.quick
    for ty in TYPES:
        P = pre(ty, O)
        cs = []
        for l in lists((4 if ty == "int" else 3) if q else (6 if ty == "int" else 5)):
            for i, (n, body, f) in enumerate(O):
                cs.append(("%s %s: %s" % (ty, list(l), n), "one o%d %s" % (i, flist(l, i)), run_op(f, l)))
        c.run_cases("%s: one function" % ty, P, cs, chunk=400)
    # sequences on one list: f g h f
    look = [i for i, (n, _, _) in enumerate(O) if n.split()[0] in ("mem", "assoc", "rev_assoc", "el")]
    for ty, ll in (("int", [(0, 1), (2, 0, 2)]), ("str", [(1,), (0, 1, 0, 2)]), ("bool", [(0, 1, 2)]), ("pair", [(2, 1, 2, 0)])):
        P = pre(ty, O)
        cs = []
        for l in ll if not q else ll[-1:]:
            for i, (n1, _, f1) in enumerate(O):
                for j, (n2, _, f2) in enumerate(O):
                    if q and (i + j) % (1 if ty == "int" else 4):
                        continue
                    k = (i + j) % len(O)
                    r = [run_op(f, l) for f in (f1, f2, O[k][2], f1)]
                    cs.append(("%s %s: %s; %s; %s; again" % (ty, list(l), n1, n2, O[k][0]), "seq3 o%d o%d o%d %s" % (i, j, k, flist(l)),
                               "/".join(r) + "/" + sh(l)))
            for i, j, k in itertools.product(look, repeat=3):
                if q and ty != "str" and (i + j + k) % 4:
                    continue
                r = [run_op(O[x][2], l) for x in (i, j, k, i)]
                cs.append(("%s %s: lookups %s; %s; %s; again" % (ty, list(l), O[i][0], O[j][0], O[k][0]),
                           "seq3 o%d o%d o%d %s" % (i, j, k, flist(l)), "/".join(r) + "/" + sh(l)))
        c.run_cases("%s: sequences of functions on one list" % ty, P, cs, chunk=400)
    # two lists
    def two(l, m):
        U, V = uniq(l), uniq(m)
        dup = lambda x: len(set(x)) < len(x)
        Z = lambda f: f if len(l) == len(m) else "E"
        out = [sh(l + m), bol(bool(set(l) & set(m))),
               "-" if dup(l) or dup(m) else bol(set(l) == set(m)),
               sh(sorted(set(U) | set(V))), sh(sorted(set(U) & set(V))), sh(sorted(set(U) - set(V))),
               sh(sorted(x for x in l if x not in m)),
               Z("".join("%d%d," % p for p in zip(l, m))), Z("".join("%d," % (3 * x + y) for x, y in zip(l, m))),
               Z("".join("%d," % (9 * x + 3 * y + x) for x, y in zip(l, m))),
               sh(inter([l, m])), bol(l == m), bol(l != m)]
        return "/".join(out)
    for ty in TYPES:
        P = pre(ty, []) + """
let cmpf a b = let x = {((sL (qsort (\\x.\\y. ix x - ix y) a)))::string} in x;
let cE s = s catch "E";
let two l m =
  let U = setify l in let V = setify m in
  let ss x = sL (qsort (\\x.\\y. ix x - ix y) x) in
  let r0 = cE (sL (l@m)) then
  let r1 = cE (sB (l overlap m)) then
  let r2 = (((length U) = (length l)) AND ((length V) = (length m))) => cE (sB (set_eq l m)) | "-" then
  let r3 = cE (ss (U union V)) then
  let r4 = cE (ss (U intersect V)) then
  let r5 = cE (ss (U subtract V)) then
  let r6 = cE (ss (l subtract m)) then
  let r7 = cE (sitlist (\\p.\\r. (D (fst p))^(D (snd p))^","^r) (zip l m) "") then
  let r8 = cE (sNL (map2 (\\x.\\y. 3 * ix x + ix y) l m)) then
  let r9 = cE (sNL (map3 (\\x.\\y.\\z. 9 * ix x + 3 * ix y + ix z) l m l)) then
  let r10 = cE (sL (interleave [l,m])) then
  let r11 = cE (sB (l == m)) then
  let r12 = cE (sB (NOT (l == m))) then
  r0^"/"^r1^"/"^r2^"/"^r3^"/"^r4^"/"^r5^"/"^r6^"/"^r7^"/"^r8^"/"^r9^"/"^r10^"/"^r11^"/"^r12;
"""
        L = lists(2 if ty not in ("int", "str") and q else 3 if q or ty not in ("int", "str") else 4)
        cs = []
        for l in L:
            for m in L:
                if (len(l) == 4 or len(m) == 4) and len(l) * len(m) > 12 and abs(len(l) - len(m)) < 1 and sum(l) % 2:
                    continue
                cs.append(("%s %s and %s" % (ty, list(l), list(m)), "two %s %s" % (flist(l), flist(m, 1)), two(list(l), list(m))))
        c.run_cases("%s: two lists" % ty, P, cs, chunk=300, transitions_per_case=13)
    # sorting: all lists of keys up to 7 with distinct tags; permutations; many elements
    P = """
let sI {n::int} = sprintf "%d" n;
letrec sP [] = "" /\\ sP (x:xs) = (sI (fst x))^":"^(sI (snd x))^","^(sP xs);
letrec sN [] = "" /\\ sN (x:xs) = (sI x)^","^(sN xs);
let up l = qsort (\\x.\\y. (fst x) - (fst y)) l;
let dn l = qsort (\\x.\\y. (fst y) - (fst x)) l;
let lex l = qsort (\\x.\\y. ((fst x) = (fst y)) => ((snd y) - (snd x)) | ((fst x) - (fst y))) l;
let nest l = qsort (\\x.\\y. let s = qsort (\\a.\\b. strcmp a b) [fst x, fst y] in
     ((fst x) = (fst y)) => ((snd x) - (snd y)) | (((hd s) = (fst x)) => 0-1 | 1)) l;
let sS l = sitlist (\\p.\\r. (fst p)^":"^(sI (snd p))^","^r) l "";
letrec gen n = (n = 0) => [] | n:(gen (n-1));
"""
    def srt(keys):
        def chk(g):
            try:
                a, b, d = g.split("/")
                pa = [tuple(map(int, x.split(":"))) for x in a.split(",") if x]
                pb = [tuple(map(int, x.split(":"))) for x in b.split(",") if x]
            except ValueError:
                return "wrong"
            tagged = sorted((k, i) for i, k in enumerate(keys))
            if sorted(pa) != tagged or sorted(pb) != tagged:
                return "wrong"
            if any(x[0] > y[0] for x, y in zip(pa, pa[1:])) or any(x[0] < y[0] for x, y in zip(pb, pb[1:])):
                return "wrong"
            return None if d == "".join("%d:%d," % p for p in sorted(tagged, key=lambda p: (p[0], -p[1]))) else "wrong"
        return chk
    cs = []
    for n in range(0, 8 if q else 9):
        for keys in itertools.product(range(2 if n > 5 else 3), repeat=n):
            t = "[" + ",".join("(%d,%d)" % (k, i) for i, k in enumerate(keys)) + "]"
            cs.append(("sort %s" % (keys,), 'let l = %s in (sP (up l))^"/"^(sP (dn l))^"/"^(sP (lex l))' % t, srt(keys)))
    for n in range(0, 6 if q else 8):
        for keys in itertools.permutations(range(n)):
            t = "[" + ",".join("(%d,%d)" % (k, i) for i, k in enumerate(keys)) + "]"
            cs.append(("sort permutation %s" % (keys,), 'let l = %s in (sP (up l))^"/"^(sP (dn l))^"/"^(sP (lex l))' % t, srt(keys)))
            t = "[" + ",".join('("%s",%d)' % ("abcdefgh"[k], i) for i, k in enumerate(keys)) + "]"
            cs.append(("sort within sort %s" % (keys,), "sS (nest %s)" % t,
                       "".join("%s:%d," % ("abcdefgh"[k], keys.index(k)) for k in sorted(keys))))
    big = 2**64
    for n in range(0, 5):
        for keys in itertools.permutations([-big, -1, 0, big][:n]):
            cs.append(("big keys %s" % (keys,), "sN (qsort (\\x.\\y. x - y) [%s])" % ",".join("%d" % k if k >= 0 else "(0-%d)" % -k for k in keys),
                       "".join("%d," % k for k in sorted(keys))))
    for n in (10, 100, 999, 1000, 1001, 2500):
        for m, a in ((7919, 1), (31, 5), (1, 0)):
            ks = [(i * m + a) % 1009 for i in range(n, 0, -1)]
            cs.append(("sort of %d elements, %d" % (n, m), "sN (qsort (\\x.\\y. x - y) (map (\\i. (i*%d+%d) %% 1009) (gen %d)))" % (m, a, n),
                       "".join("%d," % k for k in sorted(ks))))
    c.run_cases("sorting", P, cs, chunk=300)
    # ranges, replicate and lazy elements
    P = """
let sI {n::int} = sprintf "%d" n;
letrec sN [] = "" /\\ sN (x:xs) = (sI x)^","^(sN xs);
"""
    cs = []
    rn = list(range(-3, 4))
    I = lambda n: "%d" % n if n >= 0 else "(0-%d)" % -n
    for a in rn + [2**63 - 1, 2**64]:
        for b in sorted(set(rn + [a - 2, a, a + 2])):
            if abs(a - b) > 9:
                continue
            up = list(range(a, b + 1))
            dn = list(range(a, b - 1, -1))
            cs.append(("%d upto %d" % (a, b), "sN (%s upto %s)" % (I(a), I(b)), sh(up)))
            cs.append(("%d downto %d" % (a, b), "sN (%s downto %s)" % (I(a), I(b)), sh(dn)))
            cs.append(("%d -- %d" % (a, b), "sN (%s -- %s)" % (I(a), I(b)), sh(up if a < b else dn)))
    huge = ["2147483647", "2147483648", "4294967296", "4294967297", "18446744073709551617", "9223372036854775809"]
    for h in huge:
        for s in (1, -1):
            k = h if s > 0 else "(0-%s)" % h
            for f in ("firstn", "butfirstn", "lastn", "butlastn"):
                r = "E" if s > 0 else {"firstn": "", "lastn": "", "butfirstn": "5,6,7,", "butlastn": "5,6,7,"}[f]
                cs.append(("%s %s" % (f, k), '(sN (%s %s [5,6,7])) catch "E"' % (f, k), r))
            cs.append(("el %s" % k, '(sI (el %s [5,6,7])) catch "E"' % k, "E"))
            cs.append(("gather %s" % k, '(sN (gather [5,6,7] [%s])) catch "E"' % k, "E"))
    for n in range(1, 5):
        for bad in range(1, n + 1):
            l = "[" + ",".join('{(error "e")::int}' if i == bad else str(i) for i in range(1, n + 1)) + "]"
            cs.append(("length with element %d of %d failing" % (bad, n), "sI (length %s)" % l, str(n)))
            for k in range(1, n + 1):
                e = "E" if k == bad else str(k)
                for nm, ex in (("el", "el %d l" % k), ("rev", "el %d (rev l)" % (n + 1 - k)), ("firstn", "last (firstn %d l)" % k),
                               ("butfirstn", "hd (butfirstn %d l)" % (k - 1)), ("lastn", "hd (lastn %d l)" % (n + 1 - k)),
                               ("append", "el %d (l@l)" % (k + n)), ("map", "el %d (map (\\x. x) l)" % k),
                               ("flat", "el %d (flat [l,l])" % k)):
                    cs.append(("%s: element %d of %d with element %d failing" % (nm, k, n, bad),
                               'let l = %s in ((sI (%s)) catch "E")^((sI (%s)) catch "E")' % (l, ex, ex), e + e))
    c.run_cases("ranges, huge counts, failing elements", P, cs, chunk=300)
    # long lists: memo tables grow, lookups in every order
    P = """
let sI {n::int} = sprintf "%d" n;
letrec gen {i::int} {n::int} = (i > n) => [] | i:(gen (i+1) n);
let big n = flat (map (\\b. gen (100*b+1) (100*b+100)) (gen 0 (n-1)));
letrec ok f {i::int} {n::int} = IF i > n THEN T ELSE IF (f i) THEN (ok f (i+1) n) ELSE F;
let all f n = ok (\\b. ok (\\i. f (100*b+i)) 1 100) 0 (n-1);
let sB {b::bool} = sprintf "%B" b;
"""
    cs = []
    for n in (1, 3, 11, 25):
        N = 100 * n
        for nm, ex in (("el up", "el i l = i"), ("el down", "(let j = %d - i in el j l = j)" % (N + 1)), ("mem", "(mem i l) AND NOT (mem (i+%d) l)" % N),
                       ("assoc", "assoc i (hd al) = 2*i"), ("rev_assoc", "rev_assoc (2*i) (hd al) = i"),
                       ("el in steps", "(let j = 1 + ((i * 7) %% %d) in el j l = j)" % N)):
            cs.append(("%s in a list of %d" % (nm, N),
                       "let l = big %d in let al = [map (\\i. (i,2*i)) l] in sB (all (\\i. %s) %d)" % (n, ex, n), "T"))
        cs.append(("setify of %d" % N, "let l = big %d in sI (length (setify (l@l)))" % n, str(N)))
        cs.append(("union, intersect, subtract of %d" % N,
                   "let l = big %d in let m = map (\\i. i+50) l in (sI (length (l union m)))^\",\"^(sI (length (l intersect m)))^\",\"^(sI (length (l subtract m)))" % n,
                   "%d,%d,50" % (N + 50, N - 50)))
        cs.append(("partition of %d" % N, "let l = big %d in sI (length (partition (\\i. i %% 37) l))" % n, str(min(37, N))))
    c.run_cases("long lists", P, cs, chunk=6, timeout=120)
    # collections at every safe point while list functions run
    GP = """
let mem x l = defix mem x l; let assoc x l = defix assoc x l; let rev_assoc x l = defix rev_assoc x l; let el i l = defix el i l;
let filter p l = defix filter p l; let find p l = defix find p l; let find_all p l = defix find_all p l; let split p l = defix split p l;
let partition p l = defix partition p l; let setify l = defix setify l; let flat l = defix flat l; let uni a b = defix union a b;
let subtract a b = defix subtract a b; let intersect a b = defix intersect a b; let qsort f l = defix qsort f l; let sitlist f l x = defix sitlist f l x;
let append a b = defix append a b; let last l = defix last l; let gather l i = defix gather l i; let separate l i = (defix separate) l i;
let firstn n l = defix firstn n l; let butfirstn n l = defix butfirstn n l; let lastn n l = defix lastn n l; let butlastn n l = defix butlastn n l;
let foreach f l = defix foreach f l; let rev l = defix rev l; let loop f p x = defix loop f p x; let find_first0 p l = defix find_first0 p l;
let sI {n::int} = sprintf "%d" n;
letrec sL [] = "" /\\ sL (x:xs) = x^","^(sL xs);
letrec sLL [] = "" /\\ sLL (x:xs) = (sL x)^";"^(sLL xs);
let up s = implode (rev (explode (s^"x")));
let is s t = (up (s^"q")) = (up (t^"q"));
"""
    G = []
    E = lambda n, e, r: G.append((n, e, r))
    for l in ([], ["a"], ["a", "b"], ["b", "a", "b"], ["c", "a", "b", "a"]):
        fl = "(map (\\s. implode (explode s)) [%s])" % ",".join('"%s"' % x for x in l)
        tl = lambda x: "".join("%s," % y for y in x)
        nm = "".join(l)
        E("filter " + nm, "let l = %s in (sL (filter (\\s. is s \"a\") l))^(sL l)" % fl, tl([x for x in l if x == "a"]) + tl(l))
        E("split " + nm, "let l = %s in let p = split (\\s. is s \"b\") l in (sL (fst p))^\";\"^(sL (snd p))" % fl,
          tl([x for x in l if x == "b"]) + ";" + tl([x for x in l if x != "b"]))
        E("partition " + nm, "let l = %s in sLL (partition up l)" % fl, "".join(tl(p) + ";" for p in part(lambda x: x, l)))
        E("find " + nm, "let l = %s in (find (\\s. is s \"b\") l) catch \"E\"" % fl, "b" if "b" in l else "E")
        E("find_all " + nm, "let l = %s in sL (map sI (find_all (\\s. is s \"a\") l))" % fl, tl([str(i + 1) for i, x in enumerate(l) if x == "a"]))
        E("find_first0 " + nm, "let l = %s in sI (find_first0 (\\s. is s \"a\") l)" % fl, str(l.index("a") + 1 if "a" in l else 0))
        E("qsort " + nm, "let l = %s in sL (qsort (\\s.\\t. (strlen (up s)) - (strlen (up t)) + (ord s) - (ord t)) l)" % fl, tl(sorted(l)))
        E("qsort failing " + nm, "let l = %s in (sL (qsort (\\s.\\t. (is s t) => 0 | error (up \"q\")) l)) catch \"E\"" % fl, tl(l) if len(set(l)) < 2 else "E")
        E("sitlist " + nm, "let l = %s in sitlist (\\s.\\t. up (s^t)) l \"z\"" % fl, __import__("functools").reduce(lambda t, s: "x" + (s + t)[::-1], l[::-1], "z"))
        E("mem " + nm, "let l = %s in sL (map (\\s. (mem (implode (explode s)) l) => s | \"-\") [\"a\",\"c\",\"b\",\"a\",\"d\",\"c\"])" % fl,
          tl([x if x in l else "-" for x in "acbadc"]))
        E("assoc " + nm, "let l = %s in let al = map (\\s. (s, up s)) l in sL (map (\\s. (assoc (implode (explode s)) al) catch \"E\") [\"b\",\"a\",\"d\",\"b\",\"c\"])" % fl,
          tl(["x" + x if x in l else "E" for x in "badbc"]))
        E("rev_assoc " + nm, "let l = %s in let al = map (\\s. (up s, s)) l in sL (map (\\s. (rev_assoc (implode (explode s)) al) catch \"E\") [\"b\",\"a\",\"d\",\"b\",\"c\"])" % fl,
          tl(["x" + x if x in l else "E" for x in "badbc"]))
        E("el " + nm, "let l = map up %s in sL (map (\\i. (el (strlen i) l) catch \"E\") [\"11\",\"1\",\"111\",\"1\",\"11111\",\"1111\"])" % fl,
          tl(["x" + l[i - 1] if i <= len(l) else "E" for i in (2, 1, 3, 1, 5, 4)]))
        E("setify, flat, union " + nm, "let l = %s in (sL (setify (flat [l, map up l, l])))^(sL (uni l (map up l)))" % fl,
          tl(uniq(l + ["x" + x for x in l])) + (tl(uniq(l + ["x" + x for x in l]))))
        E("cuts " + nm, "let l = %s in let n = length l in sLL [firstn n l, butfirstn 0 l, lastn n l, butlastn 0 l, append l (map up l)]" % fl,
          "".join(tl(x) + ";" for x in (l, l, l, l, l + ["x" + x for x in l])))
        E("foreach " + nm, "let l = %s in let r = {(ref \"\")::string ref} in (foreach (\\s. r := up (s^(deref r))) l) fseq (deref r)" % fl,
          __import__("functools").reduce(lambda t, s: "x" + (s + t)[::-1], l, ""))
        E("loop " + nm, "let l = %s in loop (\\s. up s) (\\s. strlen s > 5) (\"i\"^(sL l))" % fl,
          (lambda s: [s := (s if len(s) > 5 else "x" + s[::-1]) for _ in range(8)][-1])("i" + tl(l)))
    for per in (1,) if q else (1, 2, 3):
        c.run_cases("collections, period %d" % per, GP + "mc_gc 2 1 %d;\n" % per, G, chunk=8, args=("--mini",), timeout=120)
    c.note("all lists over 3 values up to length 4 (thorough 6), 7 element types, %d functions, all pairs of functions and triples of "
           "lookups on one list, all pairs of lists, all key sequences up to 7 for sorting" % len(O))
