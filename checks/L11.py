"""Formatted output and input: every conversion with every flag and width over all values of an alphabet, all short inputs
for the scanning patterns; texts of every critical length through every output function."""
import itertools
import os
import re
import tempfile

from vk import core
from vk.core import fl_str

PRE = r'''
let E s = s catch "!";
let cat l = itlist (\a.\b. a^"|"^b) l "";
let sI {n::int} = sprintf "%d" n;
'''
MINI = ("--mini",)


class Fail(Exception):
    pass


def I(n):
    return "%d" % n if n >= 0 else "(0-%d)" % -n


def base(n, b):
    d = "0123456789abcdef"
    s = ""
    while n:
        s = d[n % b] + s
        n //= b
    return s or "0"


def pad(s, neg, w, left, zero):
    sg = "-" if neg else ""
    if w == 0:
        return sg + s
    n = len(s) + len(sg)
    if n > w:
        raise Fail()
    if left:
        return sg + s + " " * (w - n)
    return sg + "0" * (w - n) + s if zero else " " * (w - n) + sg + s


def conv(ch, v, w, left, zero):
    if ch in "odx":
        return pad(base(abs(v), {"o": 8, "d": 10, "x": 16}[ch]), v < 0, w, left, zero)
    if ch == "s":
        return pad(v, False, w, left, zero)
    if ch == "B":
        return pad(v, False, w, left, zero)
    if ch == "S":
        return "[" + ", ".join(pad(x, False, w, left, zero) for x in v) + "]"
    assert ch == "b"
    if w:
        if v >= 0:
            return pad(base(v, 2), False, w, False, True)
        if v < -(1 << (w - 1)):
            raise Fail()
        return base(v + (1 << w), 2)
    if v >= 0:
        return base(v, 2) if zero or v == 0 else "0" + base(v, 2)
    n = len(base(-v, 2)) + 1
    return base(v + (1 << n), 2)


def att(f):
    try:
        return f()
    except Fail:
        return "!"


def formats(q):
    for fl, left, zero in (("", 0, 0), ("0", 0, 1), ("-", 1, 0), ("-0", 1, 0), ("0-", 1, 0)):
        for w in ("", 1, 2, 3, 4, 7, 12, 70, "*"):
            yield fl + str(w), left, zero, w


def expect_printf(ch, fm, v, k):
    f, left, zero, w = fm
    if w == "*":
        return att(lambda: conv(ch, v, abs(k), left or k < 0, zero))
    return att(lambda: conv(ch, v, w or 0, left, zero))


BOOLS = [("T", "T"), ("F", "F"), ("variable \"a\"", "a"), ("(variable \"a\" AND variable \"b\")", "a&b")]


def values(ch, q):
    if ch in "bodx":
        m = 40 if q else 400
        vs = set(range(-m, m + 1))
        for k in (4, 6, 7, 8, 9, 12, 31, 32, 33, 63, 64, 65) if q else range(4, 130):
            vs |= {s * (1 << k) + d for s in (1, -1) for d in (-1, 0, 1)}
        vs |= {s * 10 ** k + d for s in (1, -1) for k in (2, 3, 6, 11, 12, 19, 20) for d in (-1, 0)}
        return [(I(v), v) for v in sorted(vs)]
    if ch == "s":
        return [(fl_str(s), s) for s in ["", "a", "ab", "abc", "abcd", "a b", "%d", "%", "%%s", "-1", "x" * 12, "y" * 13, "\\", '"q"', "z" * 70, "z" * 71]]
    if ch == "B":
        return BOOLS
    return [("[]", []), ('["a"]', ["a"]), ('["a","bc"]', ["a", "bc"]), ('["","%s","d d"]', ["", "%s", "d d"]), ('["abcdefg","h"]', ["abcdefg", "h"])]


STARS = [-70, -12, -4, -3, -2, -1, 0, 1, 2, 3, 4, 7, 12, 70]


def printf_cases(q):
    for ch in "bodxsBS":
        vs = values(ch, q)
        for fm in formats(q):
            f = "%" + fm[0] + ch
            if ch == "b" and "0" in fm[0] and "-" in fm[0]:
                continue
            if ch == "b" and fm[2] and fm[3] in ("", "*"):
                use = [x for x in vs if x[1] >= 0]
            elif fm[0] in ("0-", "-0") and fm[3] not in ("", 3, "*"):
                continue
            else:
                use = vs
            for k in STARS if fm[3] == "*" else [None]:
                if ch == "b" and fm[3] == "*" and k <= 0:
                    continue
                a = "" if k is None else " " + I(k)
                if ch == "S" and k == 0:
                    continue
                for part in [use[i:i + 60] for i in range(0, len(use), 60)]:
                    yield ("sprintf \"%s\"%s of %s..%s" % (f, a, part[0][0][:20], part[-1][0][:20]),
                           "cat (map (\\v. E (sprintf \"%s\"%s v)) [%s])" % (f, a, ",".join(x[0] for x in part)),
                           "".join(expect_printf(ch, fm, x[1], k) + "|" for x in part))


PARTS = [("a", [], []), ("%%", [], []), ("%d", [("(0-5)", -5), ("123", 123)], "d"), ("%s", [('"s%d"', "s%d"), ('""', "")], "s"),
         ("%3x", [("10", 10), ("4096", 4096)], "x"), ("%-4o", [("8", 8)], "o"), ("%*d", [("4 7", (4, 7)), ("(0-3) 5", (-3, 5)), ("1 55", (1, 55))], "*"),
         ("%B", [("T", "T")], "B"), ("%S", [('["x","y"]', ["x", "y"])], "S"), (" ", [], [])]


def one_part(p, v):
    f = p[0]
    if f == "%%":
        return "%"
    if not p[1]:
        return f
    if p[2] == "*":
        return conv("d", v[1], abs(v[0]), v[0] < 0, 0)
    w = {"x": 3, "o": 4}.get(p[2], 0)
    return conv(p[2], v, w, p[2] == "o", 0)


def mixed_cases(q):
    n = 3
    for k in range(2, n + 1):
        for ps in itertools.product(PARTS, repeat=k):
            if k == 3 and q and (ps[0][0] == ps[1][0] or ps[1][0] == ps[2][0] or not ps[1][1]):
                continue
            fmt = "".join(p[0] for p in ps)
            es, rs = [], []
            for vs in itertools.product(*[p[1] or [("", None)] for p in ps]):
                es.append("E (sprintf %s %s)" % (fl_str(fmt), " ".join(v[0] for v in vs)))
                rs.append(att(lambda: "".join(one_part(p, v[1]) for p, v in zip(ps, vs))))
            yield "mixed %s" % fmt, "cat [%s]" % ",".join(es), "".join(r + "|" for r in rs)


# ---- scanning
DIG = {"b": "01", "o": "01234567", "d": "0123456789", "x": "0123456789abcdefABCDEF"}


def scan(toks, s):
    """toks: list of ('lit',c) / (conv,width or None). None = not judged."""
    p = 0
    res = []
    for t, w in toks:
        if t == "lit":
            if p >= len(s) or s[p] != w:
                raise Fail()
            p += 1
            continue
        n = w or len(s) - p
        if t == "s":
            e = p
            while e < len(s) and n > 0 and not s[e].isspace():
                e += 1
                n -= 1
            res.append(s[p:e])
            p = e
            continue
        neg = p < len(s) and s[p] == "-"
        if neg:
            if w:
                return None
            p += 1
        e = p
        while e < len(s) and n > 0 and s[e] in DIG[t]:
            e += 1
            n -= 1
        if e == p:
            return None
        v = int(s[p:e], {"b": 2, "o": 8, "d": 10, "x": 16}[t])
        res.append(-v if neg else v)
        p = e
    return res


PATS = [("%d", "019-a "), ("%x", "19afgAFG:"), ("%o", "0178-"), ("%b", "012-"), ("%s", "a1 -\t"), ("%2d", "019a"), ("%1x", "1fg:"), ("%3b", "012"),
        ("%2o", "178"), ("%2s", "ab \n"), ("%d-%d", "12-"), ("%2d%d", "12a"), ("%s %s", "ab "), ("%d%s", "1a-"), ("%x:%o", "f1:8"), ("a%db", "1ab"),
        ("%%%d", "%1a"), ("%b%s", "012"), ("a%%", "a%b"), ("%1d%1d%1d", "123"), ("%d %d %d", "12 "), ("%*d%s", "12a"), ("%*s%*s", "ab "),
        ("%d,%s", "1,a"), ("%s,%d", "1,a"), ("%x %b", "1f "), ("abc", "abc")]


def toks_of(pat, stars):
    out = []
    i = 0
    st = list(stars)
    while i < len(pat):
        if pat[i] != "%":
            out.append(("lit", pat[i]))
            i += 1
            continue
        m = re.match(r"%(\d*|\*)([dxobs%])", pat[i:])
        if m.group(2) == "%":
            out.append(("lit", "%"))
        else:
            w = st.pop(0) if m.group(1) == "*" else int(m.group(1)) if m.group(1) else None
            out.append((m.group(2), w))
        i += len(m.group(0))
    return out


def scan_cases(q):
    for pat, al in PATS:
        ns = pat.count("*")
        depth = (4 if len(al) <= 4 else 3) + (1 if q else 3)
        strs = ["".join(t) for k in range(depth + 1) for t in itertools.product(al, repeat=k)]
        for stars in itertools.product((1, 2, 3), repeat=ns):
            toks = toks_of(pat, stars)
            kinds = [t for t, _ in toks if t != "lit"]
            names = ["v%d" % i for i in range(len(kinds))]
            sh = "^\";\"^".join("(sI %s)" % n if k != "s" else n for n, k in zip(names, kinds)) or '""'
            if not kinds:
                body = "E ((sscanf %s s) seq \"ok\")" % fl_str(pat)
            elif len(kinds) == 1:
                body = "E (let v0 = sscanf %s s %s in %s)" % (fl_str(pat), " ".join(map(str, stars)), sh)
            else:
                body = "E (val (%s) = sscanf %s s %s in %s)" % (",".join(names), fl_str(pat), " ".join(map(str, stars)), sh)
            judged = []
            for s in strs:
                r = att(lambda: scan(toks, s))
                if r is None:
                    continue
                judged.append((s, r if r == "!" else ";".join(map(str, r)) if kinds else "ok"))
            for j in range(0, len(judged), 60):
                part = judged[j:j + 60]
                yield ("sscanf %r %s on %r..%r" % (pat, stars, part[0][0], part[-1][0]),
                       "cat (map (\\s. %s) [%s])" % (body, ",".join(fl_str(s) for s, _ in part)),
                       "".join(r + "|" for _, r in part))


def roundtrip(q):
    for ch in "bodx":
        vs = [v for _, v in values(ch, False) if v >= 0 or ch != "b"]
        for j in range(0, len(vs), 40):
            part = vs[j:j + 40]
            yield ("write and scan %%%s %d.." % (ch, part[0]),
                   "cat (map (\\v. E (sI (sscanf \"%%%s\" (sprintf \"%%%s\" v)))) [%s])" % (ch, ch, ",".join(I(v) for v in part)),
                   "".join("%d|" % v for v in part))


PARTIAL = [
    ("partial application shared by two calls", r'let f = sprintf "%d-%s-%d" 3 in cat [f "a" 4, f "b" 5, f "a" 4]', "3-a-4|3-b-5|3-a-4|"),
    ("partial applications of one another", r'let f = sprintf "%*d/%s" in let g = f 4 in let h = g 7 in cat [h "x", g 8 "y", f 2 9 "z", h "w"]', "   7/x|   8/y| 9/z|   7/w|"),
    ("format mapped over lists", r'cat (map2 (sprintf "<%s:%03d>") ["a","b","c"] [1,22,333])', "<a:001>|<b:022>|<c:333>|"),
    ("failing argument", r'let f = sprintf "%d %d" 1 in cat [E (f (hd [])), f 2, E (f (error "x")), f 3]', "!|1 2|!|1 3|"),
    ("argument is formatted itself", r'sprintf "%s-%s" (sprintf "%d%s" 1 (sprintf "%x" 255)) (sprintf "%S" [sprintf "%d" 2, sprintf "%B" T])', "1ff-[2, T]"),
    ("width fails then works", r'cat [E (sprintf "%2d" 100), sprintf "%2d" 10, E (sprintf "ab%1s" "xx"), sprintf "%3d" 100]', "!|10|!|100|"),
    ("scan shared", r'let f = sscanf "%d,%d" in val (a,b) = f "1,2" in val (c,d) = f "3,4" in sprintf "%d%d%d%d" a b c d', "1234"),
    ("scan failing then working", r'let f {s::string} = E (val (a,b) = sscanf "%d,%d" s in sprintf "%d;%d" a b) in cat (map f ["1,2","1.2","","3,4","1,2"])', "1;2|!|!|3;4|1;2|"),
    ("eprintf message", r'(eprintf "m%d%s" 3 "x") gen_catch (\m. (str_is_substr "m3x" m) => "yes" | m)', "yes"),
]
LENS = sorted(set(list(range(0, 4)) + [2 ** k + d for k in range(4, 17) for d in (-2, -1, 0, 1)] + [16382, 16383, 16384, 32766, 49152, 99999, 120000]))


def text(n):
    s, i = [], 0
    tot = 0
    while tot < n:
        t = "%d," % i
        s.append(t)
        tot += len(t)
        i += 1
    return "".join(s)[:n]


OUT = r'''
let cat l = itlist (\a.\b. a^b) l "";
let full = cat (map (\i. cat (map (\j. sprintf "%d," (i*100+j)) (0 upto 99))) (0 upto 239));
let txt n = substr full 1 n;
'''


def output(c, q):
    """every text length through every output function"""
    d = tempfile.mkdtemp(dir=core.scratch())
    lens = LENS
    ways = {
        "print": "print (txt %(n)d)",
        "printf": "printf \"%%s\" (txt %(n)d)",
        "printf in the middle": "printf \"a%%sb%%d\" (txt %(n)d) 5",
        "fprintf to stdout": "fprintf stdout \"%%s\" (txt %(n)d)",
        "fprintf to a file": None,
        "fprintf twice to a file, appended": None,
        "string read back": None,
    }

    def want(w, n):
        t = text(n)
        return "a%sb5" % t if w == "printf in the middle" else t + t if w == "fprintf twice to a file, appended" else t

    def one(w):
        s = OUT
        for n in lens:
            f = "%s/%s-%d" % (d, w.replace(" ", "_"), n)
            if ways[w]:
                s += "print \"\\n@\";\n%s;\nprint \"@\\n\";\n" % (ways[w] % {"n": n})
            elif w == "fprintf to a file":
                s += "let fp = fopen \"%s\" \"w\";\n(fprintf fp \"%%s\" (txt %d)) fseq (fclose fp);\n" % (f, n)
            elif w == "fprintf twice to a file, appended":
                s += "let fp = fopen \"%s\" \"w\";\n(fprintf fp \"%%s\" (txt %d)) fseq (fclose fp);\nlet fp = fopen \"%s\" \"a\";\n(fprintf fp \"%%s\" (txt %d)) fseq (fclose fp);\n" % (f, n, f, n)
            else:
                open(f, "w").write(text(n))
                s += "let fp = fopen \"%s\" \"r\";\nlet r = (n = 0) => \"\" | fget fp;\n".replace("n = 0", "%d = 0" % n) % f
                s += "print \"\\n@\";\nprint ((r = (txt %d)) => (sprintf \"%%d\" (strlen r)) | \"differs\");\nprint \"@\\n\";\n" % n
        r = core.run_fl(s + "quit;\n", args=MINI, timeout=120)
        got = []
        if w in ("fprintf to a file", "fprintf twice to a file, appended"):
            for n in lens:
                f = "%s/%s-%d" % (d, w.replace(" ", "_"), n)
                got.append(open(f).read() if os.path.exists(f) else "no file")
        else:
            got = re.findall(r"\n@(.*?)@\n", r.out, re.S)
        return w, r, got, s
    for w, r, got, s in core.pmap(one, [x for x in ways if x != "string read back"]):
        c.states += len(lens)
        c.transitions += len(lens)
        c.validated += len(got)
        c.outcomes |= set(len(g) for g in got)
        c.per_group["texts of critical lengths: " + w] = {"cases": len(lens)}
        for i, n in enumerate(lens):
            g = got[i] if i < len(got) else "NO ANSWER %r" % r
            if g != want(w, n):
                c.violation("%s, %d characters" % (w, n), "%d characters" % len(want(w, n)), "%d characters: ...%s" % (len(g), g[-80:]), s)
                break
    return len(lens) * (len(ways) - 1)


def run(c):
    q = c.quick
    c.run_cases("formats, flags and widths", PRE, list(printf_cases(q)), chunk=120, args=MINI, transitions_per_case=40)
    c.run_cases("formats of several parts", PRE, list(mixed_cases(q)), chunk=150, args=MINI, transitions_per_case=2)
    c.run_cases("scanning", PRE, list(scan_cases(q)), chunk=60, args=MINI, transitions_per_case=60)
    c.run_cases("written numbers scan back", PRE, list(roundtrip(q)), chunk=10, args=MINI, transitions_per_case=80)
    c.run_cases("partial application and failure", PRE, PARTIAL, args=MINI, transitions_per_case=4)
    nm = 'let nm c n = itlist (\\i.\\s. c^s) (1 upto n) "";\n'
    cs = []
    for n in (1, 50, 500, 1000, 2000):
        for k in (1, 2, 3, 5):
            cs.append(("%%B of %d variables of %d characters" % (k, n),
                       "let vs = map (\\c. nm c %d) %s in let s = sprintf \"%%B\" (itlist (\\v.\\b. (variable v) AND b) vs T) in (s = (itlist (\\a.\\b. (b = \"\") => a | a^\"&\"^b) vs \"\")) => \"same\" | sprintf \"%%d of %%d\" (strlen s) %d"
                       % (n, "[" + ",".join('"%s"' % x for x in "abcde"[:k]) + "]", k * n + k - 1), "same"))
    c.run_cases("long formulas", PRE + nm, cs, chunk=4, args=MINI)
    output(c, q)
    c.note("all flags x widths x conversions over all values of the alphabet; all formats of up to three parts; all inputs of length up to %d for %d scan patterns; %d text lengths" % (4 if q else 6, len(PATS), len(LENS)))
    c.sample("every flag/width/conversion over all values of the alphabet; every scan pattern on all inputs up to length 3-6")
