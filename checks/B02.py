"""B02: quantification, substitution, relational product, cofactors, support and counting."""
import itertools
from functools import lru_cache
from vk import bddlib as L

NAMES = ("a", "b", "c")


def rows(c, name, pre, specs, group, transitions):
    """specs: list of (key, expr in \\f.\\g., row list, expected(row)->list of text)."""
    items = []
    for key, e, rws, exp, collist in specs:
        per = max(1, (len(rws) + 1) // 2) if group else len(rws)
        for lo in range(0, len(rws), per):
            rs = rws[lo:lo + per]
            scr = lambda rs, e=e, collist=collist: pre + "prr (\\f.\\g. %s) (map (\\i. el (i+1) tabl) [%s]) %s;\nquit;\n" % (
                e, ",".join(map(str, rs)), collist)
            items.append(("%s %d" % (key, lo), scr(rs), ["".join(x + " " for x in exp(r)) for r in rs],
                          lambda i, rs=rs, scr=scr, key=key: ("%s row %d" % (key, rs[i]), scr([rs[i]]))))
    c.run_streams(name, items, transitions_per_line=transitions)


def run(c):
    c.assumptions = ["results are read back through top_cofactor and identity with T/F"]
    n, N = 3, 256
    names = NAMES
    pre = L.preamble(n, names)
    D = [L.dump(n, f, names) for f in range(N)]
    allr = list(range(N))
    # quantification by the support of an arbitrary function
    specs = [("forall/thereis", "(bs (quant_forall f g))^\"/\"^(bs (quant_thereis f g))^(bs (quant_forall f g))", allr,
              lambda f: [D[L.forall(n, g, L.support(n, f))] + "/" + D[L.exists(n, g, L.support(n, f))] +
                         D[L.forall(n, g, L.support(n, f))] for g in range(N)], "tabl"),
             ("thereis/forall", "(bs (quant_thereis f g))^\"/\"^(bs (quant_forall f g))", allr,
              lambda f: [D[L.exists(n, g, L.support(n, f))] + "/" + D[L.forall(n, g, L.support(n, f))]
                         for g in range(N)], "tabl")]
    rows(c, "quantification", pre, specs, True, N)
    # by variable lists (any order, duplicates allowed)
    specs = []
    for q, fn in (("Quant_forall", L.forall), ("Quant_thereis", L.exists)):
        for vs in [v for k in range(4) for v in itertools.permutations(range(3), k)]:
            specs.append(("%s %s" % (q, "".join(names[v] for v in vs)),
                          "bs (%s [%s] g)" % (q, ",".join('"%s"' % names[v] for v in vs)), [0],
                          lambda f, fn=fn, vs=vs: [D[fn(n, g, vs)] for g in range(N)], "tabl"))
    rows(c, "quantification by list", pre, specs, False, N)
    # relational product
    specs = []
    cubes = ["a", "b", "c", "(a AND b)", "(a AND c)", "(b AND c)", "(a AND b AND c)", "T", "(a XOR c)", "(NOT b)"]
    cvars = [[0], [1], [2], [0, 1], [0, 2], [1, 2], [0, 1, 2], [], [0, 2], [1]]
    step = 1 if not c.quick else 2
    # both operators on the same operands in one process, in both orders
    for k, (cu, vs) in enumerate(zip(cubes, cvars)):
        rs = [f for f in allr if c.tier != "quick" or (f % 4 in (1, 2)) or f in (0, 255, 15, 51, 85)]
        q1, q2 = ("relprod_thereis", "relprod_forall") if k % 2 else ("relprod_forall", "relprod_thereis")
        f1, f2 = (L.exists, L.forall) if k % 2 else (L.forall, L.exists)
        specs.append(("%s/%s %s" % (q1, q2, cu), "(bs (%s %s f g))^\"/\"^(bs (%s %s f g))" % (q1, cu, q2, cu), rs,
                      lambda f, f1=f1, f2=f2, vs=vs: [D[f1(n, f & g, vs)] + "/" + D[f2(n, f & g, vs)] for g in range(N)], "tabl"))
    rows(c, "relational product", pre, specs, True, 2 * N)
    # substitution of one variable by any function
    specs = []
    for v in range(3):
        specs.append(("substitute %s" % names[v], "bs (substitute [(\"%s\",f)] g)" % names[v],
                      allr if not c.quick else [f for f in allr if f % 3 != 1 or f in (15, 51, 85, 255)],
                      lambda f, v=v: [D[L.ite(n, f, L.cof(n, g, v, 1), L.cof(n, g, v, 0))] for g in range(N)], "tabl"))
    rows(c, "substitute one variable", pre, specs, True, N)
    # simultaneous substitution of two and three variables
    A, B_, C = (L.var(3, i) for i in range(3))
    pool = [("T", 255), ("F", 0), ("a", A), ("b", B_), ("c", C), ("(NOT a)", 255 ^ A), ("(NOT c)", 255 ^ C),
            ("(a AND b)", A & B_), ("(b XOR c)", B_ ^ C), ("(a OR NOT c)", A | (255 ^ C)), ("(NOT b)", 255 ^ B_)]
    specs = []
    pairs = [(u, v) for u in range(3) for v in range(3) if u != v]
    for u, v in pairs:
        for (se, st) in pool:
            ex = "bs (substitute [(\"%s\",%s),(\"%s\",f)] g)" % (names[u], se, names[v])
            rr = [t for _, t in pool]
            specs.append(("substitute %s:=%s %s" % (names[u], se, names[v]), ex, rr,
                          lambda f, u=u, v=v, st=st: [D[subst2(g, u, st, v, f)] for g in range(N)], "tabl"))
    rows(c, "substitute two at once", pre, specs, False, N)
    specs = []
    for (e1, t1) in pool:
        for (e2, t2) in pool[:9]:
            specs.append(("substitute3 c:=%s b:=%s" % (e1, e2),
                          "bs (substitute [(\"c\",%s),(\"b\",%s),(\"a\",f)] g)" % (e1, e2), [t for _, t in pool[2:9]],
                          lambda f, t1=t1, t2=t2: [D[subst3(g, f, t2, t1)] for g in range(N)], "tabl"))
    rows(c, "substitute three at once", pre, specs, False, N)
    # structured objects, support, sizes, counts
    sd = lambda vs: "".join(names[v] for v in vs) + ";"
    cat = "(itlist (\\x.\\r. x^r) (%s) \";\")"
    i3 = '(itlist (\\x.\\r. (int2str x)^r) (%s) ";")'
    specs = [
        ("depends", cat % "depends g", [0], lambda f: [sd(L.support(3, g)) for g in range(N)], "tabl"),
        ("depends of structure", cat % "depends ([f],(g,\"a\",3))", allr[::5],
         lambda f: [sd(sorted(set(L.support(3, g)) | set(L.support(3, f)))) for g in range(N)], "tabl"),
        ("substitute in structure", "let r = substitute [(\"a\",b XOR c)] ([f],(g,1)) then (bs (hd (fst r)))^(bs (fst (snd r)))",
         allr[::5], lambda f: [D[L.subst(3, f, {0: B_ ^ C})] + D[L.subst(3, g, {0: B_ ^ C})] for g in range(N)], "tabl"),
        ("size", "int2str (bdd_size [f AND g,T])", allr[::2], lambda f: [str(nn(f & g)) for g in range(N)], "tabl"),
        ("profile", "itlist (\\(v,k).\\r. v^(int2str k)^r) (profile (F,[f XOR g])) \";\"", allr[::3],
         lambda f: [prof(f ^ g) for g in range(N)], "tabl"),
        ("int count", "int2str (int_model_count [\"c\",\"a\",\"b\"] g)", [0], lambda f: [str(L.count(g)) for g in range(N)], "tabl"),
        ("int count, more variables", "int2str (int_model_count [\"x\",\"c\",\"y\",\"a\",\"b\",\"z\"] g)", [0],
         lambda f: [str(8 * L.count(g)) for g in range(N)], "tabl"),
        ("conditional count", i3.replace("int2str x", "float2str x") % "fp_model_count [\"b\",\"a\",\"c\"] [g,f] f", allr[::2],
         lambda f: ["%d.0%d.0;" % (L.count(g & f), L.count(f)) for g in range(N)], "tabl"),
        ("conditional count, more variables", i3.replace("int2str x", "float2str x") % "fp_model_count [\"b\",\"x\",\"a\",\"y\",\"c\"] [g] f",
         allr[::3], lambda f: ["%d.0;" % (4 * L.count(g & f)) for g in range(N)], "tabl"),
        ("truth_cover_n", i3 % "truth_cover_n [\"b\",\"a\",\"x\",\"c\"] [g,f,NOT g,f AND g]", allr[::3],
         lambda f: ["%d%d%d%d;" % tuple(2 * L.count(x) for x in (g, f, 255 ^ g, f & g)) for g in range(N)], "tabl"),
        ("fp_truth_cover_n", i3.replace("int2str x", "float2str x") % "fp_truth_cover_n [\"b\",\"a\",\"x\",\"c\"] [g,f,NOT g,f AND g]", allr[::3],
         lambda f: ["%d.0%d.0%d.0%d.0;" % tuple(2 * L.count(x) for x in (g, f, 255 ^ g, f & g)) for g in range(N)], "tabl"),
        ("count missing variable", "((int2str (int_model_count [\"a\",\"c\"] g)) catch \"E\")", [0],
         lambda f: ["E" if 1 in L.support(3, g) else str(L.count(g) // 2) for g in range(N)], "tabl"),
        ("fp count missing variable", "((float2str (hd (fp_model_count [\"a\",\"c\"] [g]))) catch \"E\")", [0],
         lambda f: ["E" if 1 in L.support(3, g) else "%d.0" % (L.count(g) // 2) for g in range(N)], "tabl"),
    ]
    for k in range(0, 6):
        specs.append(("limitedAND %d" % k, "((bs (limitedAND f g %d)) catch \"E\")" % k, allr[::6],
                      lambda f, k=k: ["E" if nn(f & g) >= k else D[f & g] for g in range(N)], "tabl"))
        specs.append(("limitedOR %d" % k, "((bs (limitedOR f g %d)) catch \"E\")" % k, allr[::6],
                      lambda f, k=k: ["E" if nn(f | g) >= k else D[f | g] for g in range(N)], "tabl"))
    rows(c, "support, size, counting, limits", pre, specs, True, N)
    # Booleans to numbers
    cases = []
    for k in range(0, 7):
        for v in range(1 << k):
            bits = [(v >> (k - 1 - i)) & 1 for i in range(k)]
            if k:
                cases.append(("bv2num %d/%d" % (v, k), "int2str (bv2num [%s])" % ",".join("FT"[b] for b in bits), str(v)))
    for k in (31, 32, 33, 63, 64, 65):
        cases.append(("bv2num top %d" % k, "int2str (bv2num (T:(replicate %d F)))" % (k - 1), str(1 << (k - 1))))
        cases.append(("bv2num ones %d" % k, "int2str (bv2num (replicate %d T))" % k, str((1 << k) - 1)))
        cases.append(("count 2^%d" % k, 'int2str (int_model_count (md_expand_vector "w[%d:0]") T)' % (k - 1), str(1 << k)))
        cases.append(("count var 2^%d" % k, 'int2str (int_model_count (md_expand_vector "w[%d:0]") (variable "w[0]"))' % (k - 1), str(1 << (k - 1))))
        cases.append(("count and 2^%d" % k, 'int2str (int_model_count (md_expand_vector "w[%d:0]") ((variable "w[0]") OR (variable "w[%d]")))' % (k - 1, k - 1), str(3 << (k - 2))))
    cases.append(("bv2num symbolic", "int2str (bv2num [T,a])", "EXN"))
    c.run_cases("numbers", pre, cases, chunk=400)
    # four variables: one-step quantification, cofactor and counting for all 65536 functions
    four(c)


def subst2(g, u, s, v, t):
    n = 3
    w = lambda x, y: L.cof(n, L.cof(n, g, u, x), v, y)
    return L.ite(n, s, L.ite(n, t, w(1, 1), w(1, 0)), L.ite(n, t, w(0, 1), w(0, 0)))


def subst3(g, ta, tb, tc):
    res = 0
    for r in range(8):
        row = (((ta >> r) & 1) << 2) | (((tb >> r) & 1) << 1) | ((tc >> r) & 1)
        res |= ((g >> row) & 1) << r
    return res


@lru_cache(None)
def nn(f):
    return len(L.nodes(3, f))


@lru_cache(None)
def prof(f):
    names = NAMES
    nd = L.nodes(3, f)
    cnt = {}
    for x in nd:
        v = L.support(3, x)[0]
        cnt[v] = cnt.get(v, 0) + 1
    return "".join("%s%d" % (names[v], cnt[v]) for v in sorted(cnt)) + ";"


def four(c):
    n = 4
    names = ("a", "b", "c", "d")
    full = 65535
    pre = 'VARS "a b c d";\nlet order = var_order ["a","b","c","d"] fseq ();\norder;\n' + L.PRE + \
        "let mt = [%s];\n" % ", ".join(L.fl_minterms(n, names)) + \
        "let hi = mk (butfirstn 8 mt);\nlet lo = mk (firstn 8 mt);\n"
    ops = [
        ("E ac", "bs (Quant_thereis [\"a\",\"c\"] (h OR l))", lambda f: L.exists(n, f, (0, 2))),
        ("A bd", "bs (Quant_forall [\"d\",\"b\"] (h OR l))", lambda f: L.forall(n, f, (1, 3))),
        ("S bd", "bs (substitute [(\"b\",d),(\"d\",NOT b)] (h OR l))",
         lambda f: swap_bd(f)),
        ("RP", "bs (relprod_thereis (b AND c) (h OR l) (a XOR b OR d))",
         lambda f: L.exists(n, f & ((L.var(4, 0) ^ L.var(4, 1)) | L.var(4, 3)), (1, 2))),
    ]
    hs = [r for r in range(256) if not c.quick or r % 4 == 1]
    items = []
    for tag, e, m in ops:
        per = (len(hs) + 3) // 4
        for lo in range(0, len(hs), per):
            rs = hs[lo:lo + per]
            exp = ["".join(L.dump(n, m((h << 8) | l), names) + " " for l in range(256)) for h in rs]
            scr = lambda rs, e=e: pre + "prr (\\h.\\l. %s) (map (\\i. el (i+1) hi) [%s]) lo;\nquit;\n" % (e, ",".join(map(str, rs)))
            items.append(("%s %d" % (tag, lo), scr(rs), exp,
                          lambda i, rs=rs, scr=scr, tag=tag: ("n4 %s hi=%d" % (tag, rs[i]), scr([rs[i]]))))
    c.run_streams("n=4 quantify/substitute/product", items, transitions_per_line=256)


_sb = {}


def swap_bd(f):
    r = 0
    for row in range(16):
        b, d = (row >> 2) & 1, row & 1
        nr = (row & ~5) | (d << 2) | (1 - b)
        if (f >> nr) & 1:
            r |= 1 << row
    return r
