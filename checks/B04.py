"""B04: saved BDD and Boolean-expression files load back exactly, under any order; damaged files are refused."""
import itertools, os
from vk import bddlib as L, core
from vk.core import fl_str

NAMES = ("a", "b", "c")
N = 3
FULL = L.full(N)

EV = '''
let ev asg f =
    letrec go f = f == T => "1" | f == F => "0" |
        val (v,H,L) = top_cofactor f in (assoc v asg) => go H | go L
    in go f;
letrec rowsof [] = [[]] /\\ rowsof (v:vs) = let r = rowsof vs in (map (\\l. (v,F):l) r)@(map (\\l. (v,T):l) r);
let tt asgs f = itlist (\\g.\\r. (ev g f)^r) asgs "";
letrec assoc k l = empty l => error ("no "^k) | k = fst (hd l) => snd (hd l) | assoc k (tl l);
'''
EV = EV[EV.index("letrec assoc"):] + EV[:EV.index("letrec assoc")]


def ttstr(f):
    return "".join("1" if (f >> r) & 1 else "0" for r in range(1 << N))


def mk(order):
    return ('VARS "%s";\n' % " ".join(order) + EV + 'let asgs = rowsof ["a","b","c"];\n' + L.PRE +
            "let tabl = mk [%s];\n" % ", ".join(L.fl_minterms(N, NAMES)) +
            '''letrec toe f = f == T => bT | f == F => bF | val (v,H,L) = top_cofactor f in
   (((bvariable v) bAND (toe H)) bOR ((bNOT (bvariable v)) bAND (toe L)));
let etabl = map toe tabl;
let eb x = prim_bexpr2bdd x;
''')


def run(c):
    c.assumptions = ["functions are read back through top_cofactor (BDD) and prim_bexpr2bdd (expressions)",
                     "torn files are byte prefixes of a complete file"]
    d = os.path.join(core.scratch(), "files")
    os.makedirs(d)
    orders = list(itertools.permutations(NAMES))
    # ---- one writer process per order, one reader process per order and file
    fam = [0, FULL, L.var(N, 0), FULL & ~L.var(N, 1), 0x6, 0x69, 0x96, 0xe8, 0x1b, 0xd4]
    lists = {"all": list(range(256)), "rev": list(range(255, -1, -1)), "empty": [], "dup": [0x69, 0x69, 0x96, 0, FULL, 0x69]}
    for i, (x, y) in enumerate(itertools.product(fam, repeat=2)):
        lists["p%d" % i] = [x, y]
    singles = range(256)

    def writer(o):
        tag = "".join(o)
        s = mk(o)
        for k, l in lists.items():
            for kind, tb in (("bdd", "tabl"), ("bexpr", "etabl")):
                s += '%s_save "%s/%s-%s.%s" [%s];\n' % (kind, d, tag, k, kind, ",".join("el %d %s" % (x + 1, tb) for x in l))
        s += '''
letrec sv i [] [] = () /\\ sv i (b:bs) (e:es) =
   (bdd_save (sprintf "%s/%s-s%%d.bdd" i) [b]) seq (bexpr_save (sprintf "%s/%s-s%%d.bexpr" i) [e]) fseq (sv (i+1) bs es);
sv 0 tabl etabl;
quit;
''' % (d, tag, d, tag)
        r = core.run_fl(s, args=("--mini",), timeout=120)
        if r.rc != 0:
            c.violation("writer %s" % tag, "all files written", repr(r), s, "alone", ("--mini",))
        return r
    core.pmap(writer, orders)
    if c.violations:
        return
    # mk builds the functions in an order of its own: index i of tabl is the function with truth table
    idx = tab_index()
    inv = [idx[i] for i in range(256)]
    items = []
    readers = orders if not c.quick else orders[:6]
    for wo in orders:
        for ro in readers:
            if c.quick and (orders.index(ro) - orders.index(wo)) % 6 not in (0, 1, 5, 3):
                continue
            s = 'VARS "%s";\n' % " ".join(ro) + EV + 'let asgs = rowsof ["a","b","c"];\nlet sh k l = print (let s = itlist (\\f.\\r. (tt asgs f)^" "^r) l "" in s seq ("\\n@"^k^s^"\\n"));\n'
            exp = []
            for k, l in lists.items():
                for kind in ("bdd", "bexpr"):
                    f = "(map prim_bexpr2bdd (bexpr_load \"%s\"))" if kind == "bexpr" else "(bdd_load \"%s\")"
                    s += 'sh "%s " %s;\n' % (k, f % ("%s/%s-%s.%s" % (d, "".join(wo), k, kind)))
                    exp.append("%s %s" % (k, "".join(ttstr(inv[x]) + " " for x in l)))
            if ro == wo or not c.quick:
                s += '''
letrec ld i = i > 255 => () | (sh "" ((bdd_load (sprintf "%s/%s-s%%d.bdd" i))@(map prim_bexpr2bdd (bexpr_load (sprintf "%s/%s-s%%d.bexpr" i))))) fseq (ld (i+1));
ld 0;
''' % (d, "".join(wo), d, "".join(wo))
                exp += [(ttstr(inv[i]) + " ") * 2 for i in singles]
            items.append(("written under %s, read under %s" % ("".join(wo), "".join(ro)), s + "quit;\n", exp, None))
    c.run_streams("round trips", items, transitions_per_line=2, args=("--mini",))
    c.note("all 256 functions of three variables, all lists of two from %d functions, every writing order, %s" % (
        len(fam), "every reading order" if not c.quick else "four reading orders each"))

    # ---- identity: what is loaded into the saving session is the saved value itself; order changes in between
    cases = []
    for i, p in enumerate(itertools.permutations(NAMES)):
        q = "/".join(p)
        cases.append(("same session after order %s" % q,
                      '((bdd_save "%s/x%d" tabl) seq (length (var_order [%s]))) seq (all_true (map2 (\\x.\\y. x == y) tabl (bdd_load "%s/x%d")) => "same" | "different")'
                      % (d, i, ",".join('"%s"' % v for v in p), d, i), "same"))
        cases.append(("bexpr same session %d" % i,
                      '((bexpr_save "%s/y%d" etabl) seq (all_true (map2 (\\x.\\y. (prim_bexpr2bdd x) == (prim_bexpr2bdd y)) etabl (bexpr_load "%s/y%d")) => "same" | "different"))'
                      % (d, i, d, i), "same"))
    pre = mk(NAMES) + "letrec all_true [] = T /\\ all_true (x:xs) = x => all_true xs | F;\n"
    c.run_cases("same session", pre, cases, args=("--mini",), jobs=2)

    # ---- variable names of every shape
    names = ["a", "a b", "x[3]", "x[3:0]", "a'", "a/b/c", "1", "-", "%s", "%", "n 0 +0 +0", "r +0", "v a", "\\", "ü", "a,b", "a;b",
             "T", "#", "'", "x" * 200, "x" * 1000, "a_n", "A", "{a}", "$a", "a.b"]
    cases = []
    pairs = [(n, m) for n in names for m in (names if not c.quick else names[:8]) if n != m]
    for n, m in pairs:
        x, y = fl_str(n), fl_str(m)
        want = "ok"
        cases.append(("bdd names %r %r" % (n[:20] + str(len(n)), m[:20] + str(len(m))),
                      'let f = (variable %s) AND (NOT (variable %s)) in ((bdd_save "%s/n%d" [f, NOT f]) seq (let l = bdd_load "%s/n%d" in (length l = 2) => ((hd l) == f => ((hd (tl l)) == (NOT f) => "ok" | "second") | "first") | "length"))'
                      % (x, y, d, len(cases), d, len(cases)), want))
        cases.append(("bexpr names %r %r" % (n[:20] + str(len(n)), m[:20] + str(len(m))),
                      'let f = (bvariable %s) bAND (bNOT (bvariable %s)) in ((bexpr_save "%s/n%d" [f, bNOT f]) fseq (let l = bexpr_load "%s/n%d" in (length l = 2) => ((bEqual f (hd l)) => "ok" | "first") | "length"))'
                      % (x, y, d, len(cases), d, len(cases)), want))
    c.run_cases("variable names", "let bEqual a b = (prim_bexpr2bdd a) == (prim_bexpr2bdd b);\n", cases, args=("--mini",))

    # ---- damaged files: every proper prefix and every single-line deletion must be refused
    src = 'VARS "a b c";\nbdd_save "%s/t.bdd" [a AND b, NOT c, T, (a XOR b XOR c)];\nbexpr_save "%s/t.bexpr" [(bvariable "a") bAND (bvariable "b"), bNOT (bvariable "c"), bT, (bvariable "a") bOR (bvariable "c")];\nquit;\n' % (d, d)
    core.run_fl(src, args=("--mini",), timeout=60)
    cases = []
    for kind in ("bdd", "bexpr"):
        with open(d + "/t." + kind, "rb") as fh:
            full = fh.read()
        n = 4
        for k in range(len(full) + 1):
            f = "%s/torn%d.%s" % (d, k, kind)
            with open(f, "wb") as fh:
                fh.write(full[:k])
            cases.append(("%s cut after %d of %d bytes" % (kind, k, len(full)),
                          'sprintf "%%d" (length (%s_load "%s"))' % (kind, f), "EXN" if k < len(full) else "%d" % n))
        lines = full.split(b"\n")
        for k in range(len(lines) - 1):
            if lines[k].startswith(b"r") or k == 0:
                f = "%s/del%d.%s" % (d, k, kind)
                with open(f, "wb") as fh:
                    fh.write(b"\n".join(lines[:k] + lines[k + 1:]))
                cases.append(("%s without line %d" % (kind, k), 'sprintf "%%d" (length (%s_load "%s"))' % (kind, f), "EXN"))
        for tag, body in (("empty", b""), ("text", b"hello\nworld\n"), ("zeros", b"\0" * 100), ("other kind", None)):
            f = "%s/bad-%s.%s" % (d, tag.replace(" ", ""), kind)
            if body is None:
                with open(d + "/t." + ("bexpr" if kind == "bdd" else "bdd"), "rb") as fh:
                    body = fh.read()
            with open(f, "wb") as fh:
                fh.write(body)
            cases.append(("%s load of %s" % (kind, tag), 'sprintf "%%d" (length (%s_load "%s"))' % (kind, f), "EXN"))
        cases.append((kind + " load of a missing file", 'sprintf "%%d" (length (%s_load "%s/none"))' % (kind, d), "EXN"))
        cases.append((kind + " save to a missing directory",
                      '(%s_save "%s/none/x" [%s]) seq "saved"' % (kind, d, "variable \"a\"" if kind == "bdd" else "bvariable \"a\""), "EXN"))
        cases.append((kind + " save over a directory",
                      '(%s_save "%s" [%s]) seq "saved"' % (kind, d, "variable \"a\"" if kind == "bdd" else "bvariable \"a\""), "EXN"))
    c.run_cases("damaged files", "", cases, args=("--mini",))
    c.note("damaged files: every byte prefix of a saved file, every deletion of a header or root line")


def tab_index():
    """Truth table of element i of the list built by bddlib.PRE's mk."""
    ms = []
    for r in range(1 << N):
        t = FULL
        for i in range(N):
            v = L.var(N, i)
            t &= v if (r >> (N - 1 - i)) & 1 else FULL & ~v
        ms.append(t)

    def mk(l):
        if not l:
            return [0]
        out = []
        for f in mk(l[1:]):
            out += [f, f | l[0]]
        return out
    return mk(ms)
