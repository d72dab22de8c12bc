"""B01: Boolean functions form a Boolean algebra with canonical (identity) equality."""
from vk import bddlib as L

BIN = {  # fl operator on (f,g) -> truth-table operator
    "AND": ("f AND g", lambda n, f, g: f & g),
    "OR": ("f OR g", lambda n, f, g: f | g),
    "XOR": ("f XOR g", lambda n, f, g: f ^ g),
    "XNOR": ("f XNOR g", lambda n, f, g: L.full(n) & ~(f ^ g)),
    "eq": ("f = g", lambda n, f, g: L.full(n) & ~(f ^ g)),
    "neq": ("f != g", lambda n, f, g: f ^ g),
    "same": ("f == g", lambda n, f, g: L.full(n) if f == g else 0),
    "nsame": ("f !== g", lambda n, f, g: 0 if f == g else L.full(n)),
    "imp": ("f ==> g", lambda n, f, g: (L.full(n) & ~f) | g),
}


def binop_groups(c, n, names, rows, ops, perms):
    N = 1 << (1 << n)
    for order in perms:
        pre = L.preamble(n, names, order)
        oi = tuple(names.index(x) for x in order)
        D = [L.dump(n, f, names, oi) for f in range(N)]
        items = []
        for op in ops:
            e, m = BIN[op]
            for lo in range(0, N, rows):
                fs = range(lo, min(N, lo + rows))
                exp = ["".join(D[m(n, f, g)] + " " for g in range(N)) for f in fs]
                scr = pre + "prr (\\f.\\g. bs (%s)) (firstn %d (butfirstn %d tabl)) tabl;\nquit;\n" % (e, len(fs), lo)

                def single(i, lo=lo, e=e, op=op, pre=pre, order=order):
                    return ("%s %s row %d" % (op, "".join(order), lo + i), pre +
                            "prr (\\f.\\g. bs (%s)) [el %d tabl] tabl;\nquit;\n" % (e, lo + i + 1))
                items.append(("%s %s %d" % (op, "".join(order), lo), scr, exp, single))
        c.run_streams("binary n=%d order %s" % (n, "".join(order)), items, transitions_per_line=N)


def ternary(c, n, names, conds, fs, tag):
    """c => f | g for every listed triple."""
    pre = L.preamble(n, names)
    D = {}

    def dump(f):
        if f not in D:
            D[f] = L.dump(n, f, names)
        return D[f]
    items = []
    sel = "let sel = map (\\i. el (i+1) tabl) [%s];\n" % ",".join(map(str, fs))
    e = "flat_pr c"
    body = 'letrec fp c [] = () /\\ fp c (f:fs) = (pr (\\g. bs (c => f | g)) sel) fseq (fp c fs);\n' \
           'letrec go [] = () /\\ go (c:cs) = (print "@") fseq (fp c sel) fseq (print "\\n") fseq (go cs);\n'
    k = (len(conds) + 7) // 8
    for lo in range(0, len(conds), k):
        cs = conds[lo:lo + k]
        exp = ["".join(dump(L.ite(n, x, f, g)) + " " for f in fs for g in fs) for x in cs]
        scr = pre + sel + body + "go (map (\\i. el (i+1) tabl) [%s]);\nquit;\n" % ",".join(map(str, cs))

        def single(i, cs=cs):
            return ("ite %s cond %d" % (tag, cs[i]), pre + sel + body + "go [el %d tabl];\nquit;\n" % (cs[i] + 1))
        items.append(("ite %s %d" % (tag, lo), scr, exp, single))
    c.run_streams("if-then-else " + tag, items, transitions_per_line=len(fs) ** 2)


def run(c):
    import itertools
    c.assumptions = ["functions are read back through top_cofactor and identity with T/F; "
                     "the constants and the text printing are trusted"]
    names = ("a", "b", "c")
    n = 3
    N = 256
    # 1. every function of three variables is built in several ways: all must be the canonical one
    pre = L.preamble(n, names)
    D = [L.dump(n, f, names) for f in range(N)]
    ways = {
        "minterms": "bs f",
        "double negation": "bs (NOT (NOT f))",
        "negation": "bs (NOT f)",
        "maxterms": "bs (AND_list (map (\\(r,m). (f AND m) == F => NOT m | T) (zip (1 upto 8) mt)))",
        "xor of minterms": "bs (itlist (\\m.\\r. ((f AND m) == F => F | m) XOR r) mt F)",
        "shannon a": "bs (let H = substitute [(\"a\",T)] f then let L = substitute [(\"a\",F)] f then (a => H | L))",
        "shannon c": "bs (let H = substitute [(\"c\",T)] f then let L = substitute [(\"c\",F)] f then (c => H | L))",
        "or list": "bs (OR_list (map (\\m. f AND m) (rev mt)))",
        "identity with itself": "bs (f == (OR_list (map (\\m. f AND m) mt)))",
    }
    items = []
    for w, e in ways.items():
        if w == "negation":
            exp = ["".join(D[255 - f] + " " for f in range(N))]
        elif w.startswith("identity"):
            exp = ["1 " * N]
        else:
            exp = ["".join(D[f] + " " for f in range(N))]
        items.append((w, pre + "prr (\\x.\\f. %s) [T] tabl;\nquit;\n" % e, exp, None))
    c.run_streams("256 functions, 9 constructions", items, transitions_per_line=N)

    # 2. all pairs of functions under every binary operator and every variable order
    perms = list(itertools.permutations(names))
    if c.quick:
        binop_groups(c, n, names, 64, list(BIN), perms[:1])
        binop_groups(c, n, names, 128, ["AND", "XOR", "same"], perms[-1:])
    else:
        for p in perms:
            binop_groups(c, n, names, 64, list(BIN), [p])
    # 3. if-then-else
    ternary(c, 2, ("a", "b"), list(range(16)), list(range(16)), "n=2, all triples")
    sel = sorted(set([0, 255, L.var(3, 0), L.var(3, 1), L.var(3, 2), 255 ^ L.var(3, 0), 255 ^ L.var(3, 2),
                      L.var(3, 0) & L.var(3, 1), L.var(3, 1) & L.var(3, 2), L.var(3, 0) | L.var(3, 2),
                      L.var(3, 0) ^ L.var(3, 1), L.var(3, 1) ^ L.var(3, 2), 0x96, 0x69, 0xE8, 0x17, 0xCA, 0x35, 0x01, 0x7F]))
    ternary(c, 3, names, list(range(256)), sel if c.quick else list(range(0, 256, 2))[:128], "n=3, all conditions")
    # 4. four variables: all 65536 functions, combined with a fixed set of functions
    four(c)
    # 5. lists and tuples of Booleans
    structs(c)
    names_and_scoping(c)


def four(c):
    n = 4
    names = ("a", "b", "c", "d")
    N = 65536
    fixed = {"a": L.var(4, 0), "d": L.var(4, 3), "NOT b": 65535 ^ L.var(4, 1),
             "(a XOR d)": L.var(4, 0) ^ L.var(4, 3), "(b AND c)": L.var(4, 1) & L.var(4, 2)}
    if not c.quick:
        fixed.update({"(a XOR b XOR c XOR d)": 0x6996, "(a AND b OR c AND d)":
                      (L.var(4, 0) & L.var(4, 1)) | (L.var(4, 2) & L.var(4, 3)),
                      "NOT (a OR d)": 65535 ^ (L.var(4, 0) | L.var(4, 3))})
    pre = 'VARS "a b c d";\nlet order = var_order ["a","b","c","d"] fseq ();\norder;\n' + L.PRE + \
        "let mt = [%s];\n" % ", ".join(L.fl_minterms(n, names)) + \
        "let hi = mk (butfirstn 8 mt);\nlet lo = mk (firstn 8 mt);\n"
    items = []
    dump = lambda f: L.dump(n, f, names)
    per = 32
    for op in ("AND", "XOR", "OR"):
        for fx, ft in fixed.items():
            m = BIN[op][1]
            for part in range(2):
                rows = range(part * 128, part * 128 + 128)
                # line i: h = hi[i], all 256 lo: f = h OR l
                rows = [r for r in rows if r % (8 if c.quick else 1) in ((0, 3, 7) if c.quick else (0,))] if c.quick else list(rows)
                exp = ["".join(dump(m(n, (h << 8) | l, ft)) + " " for l in range(256)) for h in rows]
                mkscr = lambda rs, op=op, fx=fx: pre + "prr (\\h.\\l. bs ((h OR l) %s %s)) (map (\\i. el (i+1) hi) [%s]) lo;\nquit;\n" % (op, fx, ",".join(map(str, rs)))
                items.append(("%s %s %d" % (op, fx, part), mkscr(rows), exp,
                              lambda i, rows=rows, mkscr=mkscr, op=op, fx=fx: ("n4 %s %s hi=%d" % (op, fx, rows[i]), mkscr([rows[i]]))))
    c.run_streams("n=4 functions against fixed ones", items, transitions_per_line=256)


def structs(c):
    """Equality and conditionals over structures act component-wise."""
    names = ("a", "b")
    n = 2
    pre = 'VARS "a b";\nlet order = var_order ["a","b"] fseq ();\norder;\n' + L.PRE + \
        "let mt = [%s];\nlet tabl = mk mt;\n" % ", ".join(L.fl_minterms(n, names))
    D = [L.dump(n, f, names) for f in range(16)]
    eq = lambda x, y: 15 & ~(x ^ y)
    items = []
    # (f,[g]) = (h,[k]) ; all 16^4/.. restricted to h in fixed
    hs = [0, 15, 3, 5, 6]
    for e, m, tag in (
            ("(f,[g,T]) = (h,[k,T])", lambda f, g, h, k: eq(f, h) & eq(g, k), "tuple eq"),
            ("[f,g] != [h,k]", lambda f, g, h, k: 15 & ~(eq(f, h) & eq(g, k)), "list neq"),
            ("[f,g] = [h]", lambda f, g, h, k: 0, "length"),
            ("fst (h => (f,[g]) | (k,[f]))", lambda f, g, h, k: L.ite(2, h, f, k), "ite pair fst"),
            ("hd (snd (h => (f,[g]) | (k,[f])))", lambda f, g, h, k: L.ite(2, h, g, f), "ite pair snd"),
            ("el 2 (h => [f,g,k] | [k,f,g])", lambda f, g, h, k: L.ite(2, h, g, f), "ite list"),
    ):
        exp = []
        for h in hs:
            for k in hs:
                exp += ["".join(D[m(f, g, h, k)] + " " for f in range(16) for g in range(16))]
        scr = pre + 'letrec two x [] = () /\\ two x (f:fs) = (pr (\\g. bs (x f g)) tabl) fseq (two x fs);\n' \
            'let row h k = (print "@") fseq (two (\\f.\\g. %s) tabl) fseq (print "\\n");\n' % e
        calls = ["row (el %d tabl) (el %d tabl);\n" % (h + 1, k + 1) for h in hs for k in hs]
        items.append((tag, scr + "".join(calls) + "quit;\n", exp,
                      lambda i, scr=scr, calls=calls, tag=tag: ("struct %s %d" % (tag, i), scr + calls[i] + "quit;\n")))
    c.run_streams("structures of Booleans", items, transitions_per_line=256)


def names_and_scoping(c):
    cases = [
        ("same name twice", 'bs ((variable "a") XOR (variable "a"))', "0"),
        ("two names", 'bs ((variable "a") == (variable "b"))', "0"),
        ("vector names", 'bs ((variable "v[1]") == (variable "v[10]"))', "0"),
        ("next state distinct", 'bs ((variable "a") == (variable "a_n"))', "0"),
        ("forall binder", "bs (!x. ?y. x XOR y)", "1"),
        ("exists forall", "bs (?y. !x. x XOR y)", "0"),
        ("binder shadows", "bs (!a. (?a. a) = T)", "1"),
    ]
    # !x / ?x binders over every function of (a, b): the bound name is the variable
    for q, fn in (("!", L.forall), ("?", L.exists)):
        for v in range(2):
            for f in range(16):
                mts = [m for i, m in enumerate(L.fl_minterms(2, ("a", "b"))) if (f >> i) & 1]
                e = " OR ".join(mts) if mts else "F"
                # variables are bound by name: give the free one a global value
                cases.append(("binder %s%s f=%d" % (q, "ab"[v], f), "bs (%s%s. %s)" % (q, "ab"[v], e),
                              L.dump(2, fn(2, f, [v]), ("a", "b"))))
    for q1, f1 in (("!", L.forall), ("?", L.exists)):
        for q2, f2 in (("!", L.forall), ("?", L.exists)):
            for f in range(16):
                mts = [m for i, m in enumerate(L.fl_minterms(2, ("x", "y"))) if (f >> i) & 1]
                e = " OR ".join(mts) if mts else "F"
                r = f1(2, f2(2, f, [1]), [0])
                cases.append(("nested %sx.%sy f=%d" % (q1, q2, f), "bs (%sx. %sy. %s)" % (q1, q2, e), "1" if r else "0"))
    c.run_cases("names and binders", 'VARS "a b";\nlet order = var_order ["a","b"] fseq ();\norder;\n' + L.PRE, cases, chunk=60)
