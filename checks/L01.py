"""L01: evaluation is call by need with the values and exceptions of the reference semantics."""
import itertools

from vk import fllang as L

PRE = '''
letrec pl_ [] = "" /\\ pl_ [x] = sprintf "%d" x /\\ pl_ (x:xs) = (sprintf "%d," x)^(pl_ xs);
let pI x = (sprintf "%d" x) gen_catch (\\m. "E");
let pL x = ("["^(pl_ x)^"]") gen_catch (\\m. "E");
let pB x = (x => "T" | "F") gen_catch (\\m. "E");
'''


def terms(ty, n, skipped):
    out = []
    seen = set()
    for e in L.gen(ty, n):
        r = L.run(e)
        if r is None:
            skipped[0] += 1
            continue
        s = L.show(e)
        if s in seen:
            continue
        seen.add(s)
        out.append((s, "p%s %s" % (ty, s), r))
    return out


I1, I2, EI, EL = ("lit", 1), ("lit", 2), ("err", "I"), ("err", "L")
NIL = ("nil",)


def cons(a, b):
    return ("cons", a, b)


def structures():
    """Lists of at most two elements with errors in every place, and as a tail shared under another cons."""
    els = (I1, EI)
    tails = [NIL, EL] + [cons(e, t) for e in els for t in (NIL, EL)]
    out = []
    for t in tails:
        for e in els:
            out.append((t, cons(e, ("v", "t"))))
            out.append((t, ("if", ("=", ("v", "n"), I1), cons(e, ("v", "t")), NIL)))
        out.append((t, ("v", "t")))
        out.append((t, ("tl", cons(I2, ("v", "t")))))
    return out


L_, T_ = ("v", "l"), ("v", "t")
OBS = [("hd", L_), ("hd", ("tl", L_)), ("hd", ("catch", L_, cons(("lit", 7), NIL))),
       ("hd", ("catch", ("tl", L_), cons(("lit", 8), NIL))), ("hd", T_),
       ("hd", ("catch", T_, cons(("lit", 6), NIL))), ("fseq", L_, ("lit", 3)), ("seq", L_, ("lit", 4)),
       ("catch", ("fseq", T_, ("lit", 5)), ("lit", 0)),
       ("if", ("empty", ("tl", L_)), ("lit", 5), ("lit", 6))]


def histories(depth):
    """Observations of a shared structure one after the other: each has the value it has alone."""
    for t, l in structures():
        def wrap(b):
            return ("let", "n", I1, ("let", "t", t, ("let", "l", l, b)))
        alone = [L.run(wrap(o)) for o in OBS]
        for seq in itertools.product(range(len(OBS)), repeat=depth):
            yield ("(let n = 1 in let t = %s in let l = %s in %s)" % (
                L.show(t), L.show(l), "^".join("(pI %s)" % L.show(OBS[i]) for i in seq)),
                "".join(alone[i] for i in seq))


# expressions that use the argument l (an int i, or a list of one int) once
USES_I = ["sitlist (\\x.\\y. x+y) [] l", "loop (\\x. x) (\\x. T) l", "loop (\\x. x+1) (\\x. x > 7) l", "find (\\x. T) [l]", "id l",
          "itlist (\\x.\\y. y) [] l", "T seq l", "(T => l | 3)", "(F => 3 | l)", "(l catch 3)", "(l gen_catch (\\m. 3))",
          '((error "a") gen_catch (\\m. l))', '((error "a") catch l)', "() fseq l", "l fseq 3", "l seq 3", "hd [l]", "hd (tl [1,l])",
          "fst (l,1)", "snd (1,l)", "el 1 [l]", "el 2 [3,l]", "(let q=[l,2] in (el 2 q) fseq (el 1 q))", "hd (firstn 1 [l])",
          "last [l]", "assoc 1 [(1,l)]", "rev_assoc 1 [(l,1)]", "tbl_get (list2tbl [(1,l)]) 1", "(let f [x] = x /\\ f _ = 0 in f [l])",
          "(let f (x,y) = x in f (l,1))", "deref (ref l)", "(let z = 1 then l)", "(let k x = \\y. x in k l 3)",
          "(let d f x = f (f x) in d (\\x. x) l)", "hd (gather [l] [1])", "length (lastn 1 [l])", "hd (lastn 1 [l])",
          "hd (fst (separate [l] [1]))", "hd (map (\\x. x) [l])", "fst (hd (zip [l] [1]))", "hd (filter (\\x. T) [l])",
          "hd (fst (split (\\x. T) [l]))", "hd (hd (partition (\\x. 1) [l]))", "hd (qsort (\\x. \\y. 0) [l])", "(let z = l then z)",
          "(letrec f n = (n=0) => l | f (n-1) in f 3)", "hd (butlast [l,3])", "hd (butlastn 1 [l,3])", "hd (interleave [[l],[3]])",
          "hd (hd (cluster 1 [l]))", "accumulate (\\x.\\y. x+y) [l]", "rev_itlist (\\x.\\y. x+y) [] l", "find_first (\\x. T) [l]",
          "hd (rev [l])", "hd (flat [[l]])", "hd ([l]@[])", "hd ([]@[l])", "hd (setify [l])", "l+l", "(l > 3) => l | 0-l",
          "(let f x y = x+y+x in f l l)", "(mem l [l,l]) => 1 | 2"]
USES_L = ["length ([]@l)", "length (l@[])", "length (l@l)", "length ([] union l)", "length (l union [])", "length (l subtract [])",
          "length (([]) intersect l)", "length (butfirstn 0 l)", "length (firstn 1 l)", "length (flat [l])", "hd l", "length (rev l)",
          "(mem 3 l) => 1 | 2", "length (map (\\x. x) l)", "(l = []) => 1 | 2", "sitlist (\\x.\\y. x+y) l 1",
          "itlist (\\x.\\y. x+y) l 1", "(let f [] = 0 /\\ f (x:xs) = x in f l)", "el 1 l", "last l", "length (filter (\\x. T) l)",
          "length (append [] l)", "length (append l [3])", "fst (hd (zip l l))", "length (hd [l,[]])", "length (l catch [])"]


def sharing(c):
    pre = PRE + """
let c = {(ref 0)::int ref};
let I i = (c := (deref c)+1) fseq i;
let L i = (c := (deref c)+1) fseq [i];
let ev f = (let b = deref c then ((f 5) fseq (sprintf "%d" ((deref c)-b))));
"""
    for kind, us in (("I", USES_I), ("L", USES_L)):
        for k in (1, 2) if c.quick else (1, 2, 3):
            if k == 3:
                us = us[::3]
            cs = []
            for t in itertools.product(us, repeat=k):
                e = "ev (\\n. let l = %s n in %s)" % (kind, "".join("((%s) fseq " % u for u in t) + "l" + ")" * k)
                cs.append(("%s: %s" % (kind, "; ".join(t)), e, "1"))
            c.run_cases("evaluations of a shared argument, %s %d" % (kind, k), pre, cs, chunk=400)


def run(c):
    q0 = c.quick
    sharing(c)
    for d in (1, 2, 3) if q0 else (1, 2, 3, 4):
        cs = [(e, e, r) for e, r in histories(d)]
        c.run_cases("%d observations of a shared structure" % d, PRE, cs, chunk=400)
    q = c.quick
    skipped = [0]
    for ty, n in (("I", 7 if q else 8), ("B", 6 if q else 7), ("L", 6 if q else 7)):
        c.note("all closed terms of type %s of up to %d constructors" % (ty, n))
        cs = []
        for k in range(1, n + 1):
            cs += terms(ty, k, skipped)
        c.run_cases("terms of type %s" % ty, PRE, cs, chunk=300)
    c.extra["diverging_terms_excluded"] = skipped[0]
