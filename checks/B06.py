"""Parametric representations: for every condition, the image of the parametric functions is exactly the set of
satisfying assignments; for all variable orders, solve-for sets, and sequences with reorderings in between."""
import itertools

PRE = r"""
let land x y = x AND y;
let sI {n::int} = sprintf "%d" n;
// the function with truth table t (an int) over the variables vs; the top variable selects the high half
letrec mk vs sz t =
   (sz = 1) => ((t = 1) => T | F) |
   let h = sz / 2 in
   let p = 2 ** h in
   let hi = mk (tl vs) h (t / p) in
   let lo = mk (tl vs) h (t % p) in
   let v = variable (hd vs) in
   ((v AND hi) OR ((NOT v) AND lo));
let y n = variable ("y_"^n);
let toy vs f = substitute (map (\n. (n, y n)) vs) f;
// image of a list of (name, function): the set of value vectors, over the variables y_name
let image ps qs s = Quant_thereis qs (sitlist (\p.\r. ((y (fst p)) = (snd p)) AND r) s T);
let okp vs f =
   (f == F) => ((param f) seq F) catch T |
   let s = param f in
   let d = depends f in
   ((map fst s) set_eq2 d) AND (((depends (map snd s)) subtract d) = []) AND ((image d d s) == (toy d f));
let okf vs cs f =
   (f == F) => T |
   let s = fparam vs f in
   let nx = map (\n. n^"_n") vs in
   let ex = Quant_thereis vs f in
   let im = image vs nx s in
   ((map fst s) = vs) AND (((depends (map snd s)) subtract (nx@cs)) = []) AND ((ex AND im) == (toy vs f));
letrec bad ok vs sz {i::int} {n::int} = (i = n) => "" | (let r = ok (mk vs sz i) in (r == T) => "" | (sI i)^" ")^(bad ok vs sz (i+1) n);
let badr ok vs sz {i::int} {n::int} = bad ok vs sz i n;
""".replace("((map fst s) set_eq2 d)", "(set_eq (map fst s) d)")


def run(c):
    q = c.quick
    ns = ["a", "b", "c", "d"]
    # all orders of three variables, all functions; every subset to solve for
    for n in (3, 4):
        orders = list(itertools.permutations(ns[:n])) if n == 3 or not q else [tuple(ns), ("d", "b", "a", "c")]
        tot = 1 << (1 << n)
        blk = 64
        for oi, order in enumerate(orders):
            vs = "[%s]" % ",".join('"%s"' % x for x in ns[:n])
            P = PRE + 'VARS "%s";\nVARS "%s";\nVARS "%s";\n' % (" ".join(order), " ".join(x + "_n" for x in order), " ".join("y_" + x for x in order))
            cs = []
            step = 1
            if n == 4 and (not q and oi % 6):
                continue
            for i in range(0, tot, blk):
                if n == 3 or not q or oi == 0:
                    cs.append(("param, order %s, functions %d-%d" % ("".join(order), i, i + blk - 1),
                               "badr (okp %s) %s %d %d %d" % (vs, vs, 1 << n, i, i + blk), ""))
            for k in range(1, n + 1):
                for sub in itertools.permutations(ns[:n], k) if n == 3 else itertools.combinations(order, k):
                    rest = [x for x in ns[:n] if x not in sub]
                    if n == 4 and (q or k == 4 or oi):
                        continue
                    for i in range(0, tot, blk):
                        cs.append(("fparam, order %s, solving for %s, functions %d-%d" % ("".join(order), "".join(sub), i, i + blk - 1),
                                   "badr (okf [%s] [%s]) %s %d %d %d" % (",".join('"%s"' % x for x in sub), ",".join('"%s"' % x for x in rest),
                                                                    vs, 1 << n, i, i + blk), ""))
            if cs:
              c.run_cases("%d variables, order %s" % (n, "".join(order)), P, cs, chunk=max(6, len(cs) // 8 + 1), timeout=240, transitions_per_case=blk)
    # one process: the same conditions before and after changing the order (the functions are memoised)
    cs = []
    P = PRE + 'VARS "a b c";\nVARS "a_n b_n c_n";\nVARS "y_a y_b y_c";\n'
    for i, o in enumerate(itertools.permutations(ns[:3])):
        e = "(var_order [%s]) fseq ((badr (okp V) V 8 0 256)^(badr (okf [\"b\"] [\"a\",\"c\"]) V 8 0 256)^(badr (okf [\"c\",\"a\"] [\"b\"]) V 8 0 256))" % (
            ",".join('"%s"' % (x + s) for x in o for s in ("", "_n")) + "," + ",".join('"y_%s"' % x for x in o))
        cs.append(("order %s after others" % "".join(o), e, ""))
        cs.append(("again %d" % i, "badr (okp V) V 8 0 256", ""))
    for k in range(len(cs)):
        cs.append(("%s, second time" % cs[k][0],) + cs[k][1:])
    c.run_cases("sequences of orders", P + 'let V = ["a","b","c"];\n', cs, chunk=len(cs), timeout=240, transitions_per_case=768)
    c.note("all functions of 3 variables (all 6 orders, all ordered subsets of variables to solve for) and of 4 variables")
