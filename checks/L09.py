"""String functions against plain string semantics: all short strings over a small alphabet, all arguments; patterns and
regular expressions up to a bound over all short subject strings, with more patterns than the cache of compiled ones."""
import functools
import itertools
import re

from vk.core import fl_str

COUNTS = [-2, -1, 0, 1, 2, 3, 4, 5]


class Fail(Exception):
    pass


def need(b):
    if not b:
        raise Fail()


def strings(alpha, n):
    return ["".join(t) for k in range(n + 1) for t in itertools.product(alpha, repeat=k)]


def I(n):
    return "%d" % n if n >= 0 else "(0-%d)" % -n


def sl(l):
    return "".join("<%s>" % x for x in l)


def B(b):
    return "T" if b else "F"


def sub(s, p, n):
    need(p >= 1)
    if p > len(s):
        return ""
    if n < 0:
        return s[p - 1:]
    need(p - 1 + n <= len(s))
    return s[p - 1:p - 1 + n]


def split(s, d):
    if d == "":
        return list(s)
    if s == "":
        return []
    return s.split(d)


def gtrim(a, b, s):
    need(a in s)
    s = s[s.index(a) + len(a):]
    need(b in s)
    return s[:s.rindex(b)]


def cluster(s, n):
    need(n > 0 and len(s) % n == 0)
    return [s[i:i + n] for i in range(0, len(s), n)]


def sgn(a, b):
    return (a > b) - (a < b)


def glob(p, s):
    """p: tuple of tokens."""
    if not p:
        return not s
    t = p[0]
    if t == "*":
        return any(glob(p[1:], s[i:]) for i in range(len(s) + 1))
    if not s:
        return False
    ch = s[0]
    ok = {"?": True, "[ab]": ch in "ab", "[!a]": ch != "a", "[a-b]": ch in "ab", "\\*": ch == "*"}.get(t, ch == t)
    return ok and glob(p[1:], s[1:])


def nodecmp(a, b):
    def toks(s):
        return [(0, int(x), "") if x.isdigit() else (1, 0, x) for x in re.findall(r"[0-9]+|[^0-9]", s)]
    ta, tb = toks(a), toks(b)
    for x, y in zip(ta, tb):
        if x == y:
            continue
        if x[0] == 0 and y[0] == 0:
            return sgn(x[1], y[1])
        cx = str(x[1])[0] if x[0] == 0 else x[2]
        cy = str(y[1])[0] if y[0] == 0 else y[2]
        return sgn(cx, cy)
    return sgn(len(ta), len(tb))


PRE = r'''
let sI {n::int} = sprintf "%d" n;
let sB {b::bool} = sprintf "%B" b;
let sgn {n::int} = (n < 0) => "-" | (n > 0) => "+" | "0";
letrec sL [] = "" /\ sL (x:xs) = "<"^x^">"^(sL xs);
letrec sNL [] = "" /\ sNL (x:xs) = (sI x)^","^(sNL xs);
let E s = s catch "!";
let cts = [-2, -1, 0, 1, 2, 3, 4, 5];
let cat l = sitlist (\a.\b. a^"|"^b) l "";
'''.replace("[-2, -1,", "[0-2, 0-1,")


def dd(cs):
    return list({k: (k, e, r) for k, e, r in cs}.values())


def attempt(f):
    try:
        return f()
    except Fail:
        return "!"


def run(c):
    q = c.quick
    # one string
    cs = []
    al = ["a", "b", " ", "\n", "\\", '"', "%", "\t"]
    for s in strings(al[:3], 4 if q else 6) + strings(al, 3 if q else 4):
        e = "let s = %s in cat [sI (strlen s), sL (explode s), implode (explode s), trim s, sNL (map ord (explode s)), implode (map chr (map ord (explode s))), sprintf \"%%s\" s, sI (length (explode (s^s))), sB ((s^s) = s), list2str F \"(\" \",\" \")\" (\\x. x^x) (explode s)]" % fl_str(s)
        r = [str(len(s)), sl(s), s, s.strip(" \n\t"), "".join("%d," % ord(x) for x in s), s, s, str(2 * len(s)), B(s == ""),
             "(" + ",".join(x + x for x in s) + ")" if s else ""]
        cs.append(("one %r" % s, e, norm("".join(x + "|" for x in r))))
    # texts with white space are compared in a printable form
    c.run_cases("one string", PRE + NORM, [(k, "nrm (%s)" % e, r) for k, e, r in dd(cs)], chunk=200, transitions_per_case=10)
    # a string and a count, two counts
    cs = []
    for s in strings("ab", 4 if q else 6):
        for fn, f in (("string_lastn s k", lambda s, k: s[max(0, len(s) - max(0, k)):]),
                      ("string_butlastn s k", lambda s, k: s[:max(0, len(s) - max(0, k))]),
                      ("string_butfirstn s k", lambda s, k: (need(k <= len(s)), s[max(0, k):])[1]),
                      ("sL (str_cluster s k)", lambda s, k: sl(cluster(s, k)))):
            cs.append(("%s, s=%r" % (fn, s), "let s = %s in cat (map (\\k. E (%s)) cts)" % (fl_str(s), fn),
                       "".join(attempt(lambda: f(s, k)) + "|" for k in COUNTS)))
        for p in COUNTS:
            cs.append(("substr s %d, s=%r" % (p, s), "let s = %s in cat (map (\\k. E (substr s %s k)) cts)" % (fl_str(s), I(p)),
                       "".join(attempt(lambda: sub(s, p, k)) + "|" for k in COUNTS)))
    for h in ("2147483647", "2147483648", "4294967295", "4294967297", "18446744073709551617"):
        for sg in ("%s", "(0-%s)"):
            k = sg % h
            neg = sg != "%s"
            r = ["abc" if not neg else "", "" if not neg else "abc", "!" if not neg else "abc", "!", "" if not neg else "!", "!" if not neg else "bc"]
            cs.append(("counts of %s" % k, 'let s = "abc" in let k = %s in cat [E (string_lastn s k), E (string_butlastn s k), E (string_butfirstn s k), '
                       'E (sL (str_cluster s k)), E (substr s k 1), E (substr s 2 k)]' % k, "".join(x + "|" for x in r)))
    c.run_cases("a string and counts", PRE, dd(cs), chunk=200, transitions_per_case=8)
    # two strings
    cs = []
    S = strings("ab", 3 if q else 4)
    for s in S + strings("aB1", 2):
        ts = strings("ab", 3) if set(s) <= set("ab") else strings("aAb1", 2)
        tl = "[" + ",".join(fl_str(t) for t in ts) + "]"
        e = ("let s = %s in cat (map (\\t. cat [s^t, sgn (strcmp s t), sgn (strcasecmp s t), sB (str_is_prefix t s), sB (str_is_suffix t s), "
             "sB (str_is_substr t s), sI (strstr s t), sL (str_split s t), sB (s = t), sB (s == t), sB (s != t), sgn (node_name_cmp s t)]) %s)") % (fl_str(s), tl)
        r = ""
        for t in ts:
            r += "|".join([s + t, {1: "+", 0: "0", -1: "-"}[sgn(s, t)], {1: "+", 0: "0", -1: "-"}[sgn(s.lower(), t.lower())],
                           B(s.startswith(t)), B(s.endswith(t)), B(t in s), str(s.find(t) + 1), sl(split(s, t)), B(s == t), B(s == t), B(s != t),
                           {1: "+", 0: "0", -1: "-"}[nodecmp(s, t)]]) + "||"
        cs.append(("two: %r" % s, e, r))
    # separators inside longer strings
    for s in strings("ab,", 5 if q else 6):
        cs.append(("split %r" % s, 'let s = %s in (sL (str_split s ","))^(sL (str_split s ",,"))^(sL (str_split s "a,"))' % fl_str(s),
                   sl(split(s, ",")) + sl(split(s, ",,")) + sl(split(s, "a,"))))
    for s in strings("ab", 5 if q else 6):
        ps = ["", "a", "b", "ab", "aa"]
        cs.append(("gen_trim %r" % s, "let s = %s in cat (map (\\p. cat (map (\\q. E (gen_trim p q s)) %s)) %s)" % (
            fl_str(s), "[%s]" % ",".join(map(fl_str, ps)), "[%s]" % ",".join(map(fl_str, ps))),
            "".join("".join(attempt(lambda: gtrim(a, b, s)) + "|" for b in ps) + "|" for a in ps)))
    # node names: an order, with indices as numbers
    nn = ["a", "b", "ab", "a[1]", "a[2]", "a[10]", "a[1][2]", "a[1][10]", "a[02]", "a1", "a2", "a10", "a10b", "a9b", "", "1", "10", "9", "a[1]b", "[1]", "a[",
          "a]", "a[2147483647]"]
    for s in nn:
        cs.append(("node names %r" % s, "cat (map (\\t. sgn (node_name_cmp %s t)) %s)" % (fl_str(s), "[%s]" % ",".join(map(fl_str, nn))),
                   "".join({1: "+", 0: "0", -1: "-"}[nodecmp(s, t)] + "|" for t in nn)))
    c.run_cases("two strings", PRE, dd(cs), chunk=30, transitions_per_case=40)
    # three strings and list2str
    cs = []
    for l in [l for k in range(4) for l in itertools.product(["", "a", "bc"], repeat=k)]:
        fl = "[%s]" % ",".join(map(fl_str, l))
        for sep in ("", ",", "--"):
            for pr in ("T", "F"):
                r = "(" + sep.join(l) + ")" if l or pr == "T" else ""
                cs.append(("list2str %r %r %s" % (l, sep, pr), 'list2str %s "(" %s ")" id %s' % (pr, fl_str(sep), fl), r))
        cs.append(("implode %r" % (l,), "implode %s" % fl, "".join(l)))
        if all(l):
            for br in itertools.product((0, 1), repeat=len(l)):
                tcl = " ".join("{%s}" % x if b else x for x, b in zip(l, br))
                cs.append(("tcl list %r" % tcl, "sL (tcl2list %s)" % fl_str(tcl), sl(l)))
        nest = " ".join("{%s {%s}}" % (x, x) for x in l)
        cs.append(("tcl nested %r" % nest, "sL (tcl2list %s)" % fl_str(nest), sl("%s {%s}" % (x, x) for x in l)))
        cs.append(("tcl escaped %r" % (l,), "(sL (tcl2list %s))^(sL (tcl2list %s))" % (fl_str(" ".join(x + "\\ " + x for x in l)), fl_str("x\\")),
                   sl(x + "\\ " + x for x in l) + "<x\\>"))
    for i in range(1, 256):
        cs.append(("chr/ord %d" % i, "sI (ord (chr %d))" % i, str(i)))
        cs.append(("strlen chr %d" % i, "sI (strlen ((chr %d)^(chr %d)))" % (i, 256 - i), "2"))
    for i in (-1, 256, 257, 2**31, 2**32 + 65, 2**64 + 65):
        cs.append(("chr %d" % i, "E (chr %s)" % I(i), "!"))
    for s in ("", "ab"):
        cs.append(("ord %r" % s, "E (sI (ord %s))" % fl_str(s), "!"))
    c.run_cases("lists of strings, characters", PRE, dd(cs), chunk=200)
    # shell patterns
    toks = ["a", "b", "*", "?", "[ab]", "[!a]", "\\*"]
    subj = strings("ab*", 3 if q else 4)
    ss = "[%s]" % ",".join(map(fl_str, subj))
    cs = []
    for k in range(0, 4 if q else 5):
        for p in itertools.product(toks, repeat=k):
            cs.append(("pattern %s" % "".join(p), "fm %s" % fl_str("".join(p)), "".join(B(glob(p, s)) for s in subj)))
    c.run_cases("shell patterns", PRE + "let subj = %s;\nlet fm p = implode (map (\\s. sB (str_match p s)) subj);\n" % ss, cs, chunk=150,
                transitions_per_case=len(subj))
    # regular expressions, more than fit into the cache, in rotating order
    base = ["a", "b", ".", "[ab]", "[^a]", "(a)", "(ab)", "(a|b)", "(b*)"]
    post = ["", "*", "+", "?", "{2}", "{1,2}"]
    atoms = [x + y for x in base for y in post]
    pats = [""] + atoms + [x + y for x in atoms for y in (base if q else atoms)] + [x + "|" + y for x in base for y in base]
    pats = [p for p in pats if p and "(b*)*" not in p and "(b*)+" not in p and "(b*){" not in p]
    pats = pats + ["^" + p for p in pats[::2]] + [p + "$" for p in pats[1::2]] + ["^(%s)$" % p for p in pats[::3]]
    pats = list(dict.fromkeys(pats))
    subj = strings("abc", 3)
    ss = "[%s]" % ",".join(map(fl_str, subj))
    cs = []

    def whole(rx, s):
        m = re.compile(rx)
        for i in range(len(s) + 1):
            ends = [j for j in range(len(s), i - 1, -1) if exact(m, s, i, j)]
            if ends:
                return s[i:ends[0]]
        return "!"

    @functools.lru_cache(None)
    def comp(rx):
        return re.compile(rx)

    def exact(m, s, i, j):
        rx = m.pattern
        # anchors refer to the whole subject
        pre = rx.startswith("^")
        if pre and i != 0:
            return False
        if rx.endswith("$") and j != len(s):
            return False
        body = rx[1 if pre else 0:len(rx) - 1 if rx.endswith("$") else len(rx)]
        if pre or rx.endswith("$"):
            if "|" in re.sub(r"\([^()]*\)|\((?:[^()]|\([^()]*\))*\)", "", body):
                raise KeyError
        return comp("(?:%s)" % body).fullmatch(s, i, j) is not None
    for p in pats:
        rr = comp(p)
        ans = "".join(B(rr.search(s) is not None) for s in subj)
        cs.append(("regexp %s" % p, "rm %s" % fl_str(p), ans))
        try:
            cs.append(("match of %s" % p, "rx %s" % fl_str(p), "".join("<%s>" % whole(p, s) for s in subj)))
        except KeyError:
            pass
    c.run_cases("regular expressions", PRE + "let subj = %s;\nlet rm p = implode (map (\\s. sB (str_reg_match p s)) subj);\n"
                "let rx p = sL (map (\\s. E (hd (str_reg_extract p s))) subj);\n" % ss, cs, chunk=150, transitions_per_case=len(subj))
    # interleaved patterns: every pattern after every other, with more patterns than cache entries; illegal patterns between
    ps = ["^a%d(b*)c%s$" % (i, "|d" if i % 3 == 0 else "") for i in range(14)]
    cs = []
    for i in range(14):
        for j in range(14):
            for bad in ("", "(", "[a"):
                e = 'let p = %s in let q = %s in ' % (fl_str(ps[i]), fl_str(ps[j]))
                e += '(sL (str_reg_extract p "a%dbbc"))^(E (sB (str_reg_match %s "(")))^(sL (str_reg_extract q "a%dbc"))^(sB (str_reg_match p "a%dbc"))' % (
                    i, fl_str(bad or "x("), j, j)
                r = "<a%dbbc><bb>!<a%dbc><b>%s" % (i, j, B(i == j))
                cs.append(("patterns %d %d %s" % (i, j, bad), e, r))
    for grp in ("(a*)(b*)", "(a+)(b+)", "(a)(b)(c)", "((a)b)c", "(a(b)?c)", "^(a*)(c*)b$", "(.)(.)", "(..)(.)", "a(b|c)a", "([ab]+)c([ab]+)"):
        for s in strings("abc", 4):
            m = re.search(grp, s)
            if m and None in m.groups():
                continue
            cs.append(("groups %s in %s" % (grp, s), "E (sL (str_reg_extract %s %s))" % (fl_str(grp), fl_str(s)),
                       sl((m.group(0),) + m.groups()) if m else "!"))
    c.run_cases("sequences of regular expressions", PRE, dd(cs), chunk=100)
    # long strings around the sizes of internal buffers
    cs = []
    for n in (1000, 1023, 1024, 1025, 4095, 4096, 4097, 10000, 129998, 129999) if not q else (1023, 1024, 1025, 4095, 4096, 4097, 65537, 129999):
        e = ("let s = rep \"a\" %d in let t = (s^\"b\") in cat [sI (strlen t), sB (t = (s^\"c\")), sB (t = (s^\"b\")), sgn (strcmp t (s^\"c\")), "
             "sI (strstr t \"b\"), substr t %d 2, sI (strlen (string_butlastn t 1)), string_lastn t 2, sI (length (str_split t \"b\")), "
             "sI (strlen (trim t)), sI (strlen (gen_trim \"a\" \"b\" t)), sB (str_is_suffix \"ab\" t), string_butfirstn t %d, sI (strlen (sprintf \"%%s\" t))]" % (
                 n, n, n - 1))
        r = [str(n + 1), "F", "T", "-", str(n + 1), "ab", str(n), "ab", "2", str(n + 1), str(n - 1), "T", "ab", str(n + 1)]
        cs.append(("strings of %d characters" % n, e, "".join(x + "|" for x in r)))
    c.run_cases("long strings", PRE + 'letrec rep s n = (n = 0) => "" | ((n % 2) = 0) => (let h = rep s (n/2) in h^h) | s^(rep s (n-1));\n', cs, chunk=1,
                transitions_per_case=14)
    c.note("all strings up to 3-4 characters over 8 characters, all counts -2..5 and beyond the machine word, all pairs of strings up to "
           "3 characters, %d regular expressions and all shell patterns of up to %d tokens over all subjects of up to 3 characters" % (len(pats), 3 if q else 4))


NORM = r'''
let nrm s = implode (map (\ch. (ch = "\n") => "#n" | (ch = "\t") => "#t" | ch) (explode s));
'''


def norm(s):
    return s.replace("\n", "#n").replace("\t", "#t")
