"""S01: symbolic trajectory evaluation computes the defining trajectory and decides the assertion exactly."""
import itertools, multiprocessing
from vk import stelib as S

CHUNK = 400


def events(ck, intervals, ants, conss, weaks, trace=True):
    out = []
    for n in ck.nodes:
        for (f, t) in intervals:
            out += [("a", w, n, v, f, t) for w, v in ants]
            out += [("c", w, n, v, f, t) for w, v in conss]
            out += [("w", w, n, f, t) for w in weaks]
            if trace:
                out.append(("t", n, f, t))
    return out


def base(ck, hi=4):
    return [("a", "T", n, S.VARS[i], 0, hi) for i, n in enumerate(ck.inputs)]


def vstr(v):
    return "%02x%02x" % v


def canon_run(ck, evs, opt="-e"):
    """what the reference model says of a run"""
    r = ck.run(evs)
    if r is None:
        return "empty"
    t0, t1, vals, traj, check = r
    if "-e" in opt:
        tr = " ".join(".".join(vstr(vals[t][n]) for t in range(t0, t1 + 1)) for n in ck.nodes)
    else:
        cols = []
        for n in ck.nodes:
            iv = [(e[-2], e[-1]) for e in evs if e[0] == "t" and e[1] == n and e[-2] < e[-1]]
            if not iv:
                cols.append("none")
            else:
                cols.append(".".join(vstr(vals[t][n] if any(a <= t < b for a, b in iv) else S.X)
                                     for t in range(t0, t1 + 1)))
        tr = " ".join(cols)
    return "%02x %02x %d %s" % (traj, check, t1, tr)


_nm = {}


def canon_line(ck, evs, line):
    key = (line, min([e[-2] for e in evs if e[-2] < e[-1]], default=None))
    r = _nm.get(key)
    if r is None:
        try:
            tj, chk, mt, trs = S.parse(line)
        except Exception:
            return "unreadable: " + line
        t0 = key[1]
        if t0 is None:
            return "empty" if (tj, chk, mt) == (255, 255, 0) else "not empty: " + line
        r = "%02x %02x %d %s" % (tj, chk, mt, " ".join(
            "none" if tr is None else ".".join(vstr(S.at(tr, t)) for t in range(t0, mt + 1)) for tr in trs))
        if len(_nm) < 200000:
            _nm[key] = r
    return r


def script(ck, runs, opt, b=False):
    ns = "[%s]" % ",".join('"%s"' % n for n in ck.nodes)
    return S.PRE + (BPRE if b else "") + ck.fl() + "\n" + "\n".join(
        '%sgo %s (%sSTE "%s" %s %s "") fseq ();' % ("b" if b else "", ns, "b" if b else "", opt, ck.name,
                                            S.evs_fl([bex(e) for e in r] if b else r)) for r in runs) + "\nquit;\n"


BPRE = '''
let b1 = bvariable "a1"; let b2 = bvariable "a2"; let b3 = bvariable "a3";
let cv e = prim_bexpr2bdd e;
let bshtr ste n = ((itlist (\\(t,(H,L)).\\r. (sprintf "%d:%B;%B," t (cv H) (cv L))^r) (bget_trace ste n) "") gen_catch (\\m. "none"));
let bres ste ns = sprintf "%B|%B|%d|%s" (cv (bget_ste_result ste "trajOK")) (cv (bget_ste_result ste "checkOK")) (get_ste_maxtime ste)
                 (itlist (\\n.\\r. (bshtr ste n)^"/"^r) ns "");
let bgo ns ste = let s = bres ste ns in s seq (print ("\\n@"^s^"\\n"));
'''
BV = {"T": "bT", "F": "bF", "a1": "b1", "a2": "b2", "a3": "b3"}


def bex(e):
    if e[0] == "t":
        return e
    e = list(e)
    e[1] = BV[e[1]]
    if e[0] in "ac":
        e[3] = BV[e[3]]
    return tuple(e)


def job(a):
    ci, tag, runs, opt, b = a
    ck = S.CKTS[ci]
    return ("%s %s" % (ck.name, tag), script(ck, runs, opt, b), [canon_run(ck, r, opt) for r in runs])


def stream(c, name, jobs, pool):
    """jobs: (circuit index, tag, runs, options, bexpr?)"""
    parts = []
    for (ci, tag, runs, opt, b) in jobs:
        for i in range(0, len(runs), CHUNK):
            parts.append((ci, "%s#%d" % (tag, i // CHUNK), runs[i:i + CHUNK], opt, b))
    items, norm = [], {}
    for p, (key, scr, exp) in zip(parts, pool.map(job, parts, chunksize=4)):
        def single(i, p=p):
            ci, tag, runs, opt, b = p
            return ("%s %s" % (S.CKTS[ci].name, S.evs_fl(runs[i])), script(S.CKTS[ci], [runs[i]], opt, b))
        norm[key] = lambda i, l, p=p: canon_line(S.CKTS[p[0]], p[2][i], l) if i < len(p[2]) else l
        items.append((key, scr, exp, single))
    c.run_streams(name, items, transitions_per_line=4, norm=norm)


ANT = [("T", "T"), ("T", "F"), ("T", "a1"), ("a2", "a3")]
CON = [("T", "T"), ("T", "a1"), ("a2", "F")]
IV = [(f, t) for f in range(4) for t in range(f + 1, 4)] + [(1, 1)]


def run(c):
    quick = c.quick
    c.assumptions = ["values are read from the traces and results of each run and compared as truth tables of three "
                     "variables; printing of BDDs is trusted (B01 checks it)"]
    with multiprocessing.Pool(8) as pool:
        # 1. every single event, with and without driven inputs
        jobs = []
        for ci, ck in enumerate(S.CKTS):
            iv = [(f, t) for f in range(4) for t in range(4)] + ([] if quick else [(0, 5), (3, 5), (4, 5)])
            es = events(ck, iv, [(w, v) for w in ("T", "F", "a2") for v in ("T", "F", "a1", "a3")],
                        [(w, v) for w in ("T", "F", "a2") for v in ("T", "F", "a1", "a3")], ["T", "F", "a1"])
            for tag, bs in (("free", []), ("driven", base(ck))):
                jobs.append((ci, "single " + tag, [bs + [e] for e in es], "-e", False))
                jobs.append((ci, "single traced " + tag, [bs + [e] + [("t", n, 0, 4) for n in ck.nodes] for e in es], "", False))
        stream(c, "one constraint", jobs, pool)
        # 2. every pair of events
        jobs = []
        for ci, ck in enumerate(S.CKTS):
            es = events(ck, IV, ANT, CON, ["T", "a2"], trace=False)
            prs = []
            for i, j in itertools.combinations(range(len(es)), 2):
                e, f = es[i], es[j]
                if quick:
                    # checks of two nodes do not interact; neither do repeated values
                    if e[0] == "c" and f[0] == "c" and e[2] != f[2]:
                        continue
                    if e[2] != f[2] and (i * 7 + j) % 3:
                        continue
                bs = base(ck) if (i + j) % 2 else []
                prs.append(bs + ([e, f] if (i + j) % 4 < 2 else [f, e]))
                if not quick:
                    prs.append((base(ck) if not bs else []) + [e, f])
            jobs.append((ci, "pairs", prs, "-e", False))
        stream(c, "two constraints", jobs, pool)
        # 3. traces without -e: every pair of trace intervals, next to every antecedent
        jobs = []
        for ci, ck in enumerate(S.CKTS):
            es = events(ck, IV, ANT[2:], CON[1:2], ["a2"], trace=False)
            prs = []
            for n in ck.nodes:
                for x, y in itertools.combinations_with_replacement(IV, 2):
                    prs.append(base(ck) + [("t", n, *x), ("t", n, *y)])
                for e in es:
                    for k, x in enumerate(IV):
                        if not quick or e[2] == n or (k + len(prs)) % 3 == 0:
                            prs.append(base(ck) + [e, ("t", n, *x)])
            jobs.append((ci, "traced", prs, "", False))
        stream(c, "traced intervals", jobs, pool)
        # 4. triples on one node
        jobs = []
        ivs = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)]
        for ci, ck in enumerate(S.CKTS):
            if quick and ci not in (0, 3):
                continue
            prs = []
            for n in ck.nodes:
                es = [(k,) + r for k, r in itertools.product(
                    "acw", itertools.product(("T", "a2"), ("x",), ivs))]
                es = []
                for (f, t) in ivs:
                    es += [("a", "T", n, "a1", f, t), ("a", "a2", n, "T", f, t), ("c", "T", n, "a1", f, t), ("w", "a3", n, f, t)]
                k = 0
                for tri in itertools.combinations(es, 3):
                    k += 1
                    prs.append((base(ck) if k % 2 else []) + list(tri))
            jobs.append((ci, "triples", prs, "-e", False))
        stream(c, "three constraints on one node", jobs, pool)
        # 5. the SAT based simulator gives the same answers
        jobs = []
        for ci, ck in enumerate(S.CKTS):
            es = events(ck, [(0, 1), (0, 3), (1, 2), (2, 2)], ANT[1:], CON, ["T", "a2"], trace=False)
            prs = [base(ck) + [e] for e in es] + [[e] for e in es]
            sel = [e for e in es if e[-1] > e[-2]]
            k = 0
            for e, f in itertools.combinations(sel, 2):
                if e[2] == f[2]:
                    k += 1
                    if not quick or k % 2:
                        prs.append((base(ck) if k % 4 < 2 else []) + [e, f])
            jobs.append((ci, "bSTE", prs, "-e", True))
        stream(c, "bexpr based runs", jobs, pool)
        # 6. runs that end early: -m, -a and stop nodes
        options(c, quick)
        # 7. results of both kinds
        mixed(c)


def first_failure(ck, evs):
    """the first time at which an antecedent or a check fails in the reference model"""
    act = [e for e in evs if e[-2] < e[-1]]
    t0 = min(e[-2] for e in act)
    t1 = max(e[-1] for e in act) + 1
    for t in range(t0, t1 + 1):
        # constraints up to and including time t
        cut = [e[:-2] + (e[-2], min(e[-1], t + 1)) for e in act if e[-2] <= t]
        r = ck.run(cut)
        if r[3] != S.FULL or r[4] != S.FULL:
            return t
    return None


def options(c, quick):
    pre = S.PRE.replace('FAILURES" "NO"', 'FAILURES" "YES"')
    items, norm = [], {}
    for ci, ck in enumerate(S.CKTS):
        es = events(ck, [(0, 2), (1, 3)], [("T", "T"), ("a2", "a3")], [("T", "T"), ("T", "a1")], [], trace=False)
        runs = []
        for k, (e, f) in enumerate(itertools.combinations(es, 2)):
            evs = (base(ck, 3) if k % 3 else []) + [e, f]
            if quick and k % 4:
                continue
            runs.append((evs, "-e -m %d" % (k // 4 % 4), ""))
            runs.append((evs, "-e -a", ""))
            st = [o for o, _ in ck.comb]
            runs.append((evs, "-e", st[k % len(st)]))
        ns = "[%s]" % ",".join('"%s"' % n for n in ck.nodes)
        for i in range(0, len(runs), 60):
            part = runs[i:i + 60]

            def scr(rs, ck=ck, ns=ns):
                return pre + ck.fl() + "\n" + "\n".join('go %s (STE "%s" %s %s "%s") fseq ();' % (
                    ns, o, ck.name, S.evs_fl(r), sn) for r, o, sn in rs) + "\nquit;\n"
            exp = [canon_opt(ck, r, o, sn) for r, o, sn in part]
            key = "%s options#%d" % (ck.name, i)

            def single(j, part=part, scr=scr, ck=ck):
                return ("%s %s stop=%s %s" % (ck.name, part[j][1], part[j][2], S.evs_fl(part[j][0])), scr([part[j]]))
            norm[key] = lambda j, l, part=part, ck=ck: canon_optline(ck, part[j], l) if j < len(part) else l
            items.append((key, scr(part), exp, single))
    c.run_streams("runs that end early", items, transitions_per_line=4, norm=norm)


def cols(ck, get, t0, t1):
    return " ".join(".".join(vstr(get(n, t)) for t in range(t0, t1 + 1)) for n in ck.nodes)


def canon_opt(ck, evs, opt, stop):
    t0, t1, vals, traj, check = ck.run(evs)
    end = None
    if "-m" in opt:
        m = int(opt.split("-m")[1])
        if m < t1:
            end = max(m + 1, t0)
    elif "-a" in opt:
        end = first_failure(ck, evs)
    elif stop:
        for t in range(t0, t1 + 1):
            v = ini(ck, stop) if t == t0 else vals[t - 1][stop]
            if v == (S.FULL, 0):
                end = t
                break
        if end is not None:
            return "stop %d %s" % (end, cols(ck, lambda n, t: vals[t][n], t0, end - 1))
    if end is None:
        return "%02x %02x %d %s" % (traj, check, t1, cols(ck, lambda n, t: vals[t][n], t0, t1))
    if "-a" in opt:
        res = "fails"
    else:
        r = ck.run([e[:-2] + (e[-2], min(e[-1], end)) for e in evs if e[-2] < end]) if end > t0 else None
        res = "%02x %02x" % (r[3], r[4]) if r else "ff ff"
    # everything is X from the end on
    return "%s %d %s" % (res, end, cols(ck, lambda n, t: vals[t][n] if t < end else S.X, t0, end))


def ini(ck, n):
    v = dict(ck.init)
    for i in ck.inputs:
        v[i] = S.X
    for o, e in ck.comb:
        v[o] = ck.ev(e, v)
    return v[n]


def canon_optline(ck, run, line):
    evs, opt, stop = run
    exp = canon_opt(ck, evs, opt, stop)
    try:
        tj, chk, mt, trs = S.parse(line)
    except Exception:
        return "unreadable: " + line
    act = [e for e in evs if e[-2] < e[-1]]
    t0 = min(e[-2] for e in act)
    d = dict(zip(ck.nodes, trs))
    if exp.startswith("stop"):
        return "stop %d %s" % (mt, cols(ck, lambda n, t: S.at(d[n], t), t0, mt - 1))
    if exp.startswith("fails"):
        res = "fails" if tj & chk != S.FULL else "passes"
        return "%s %d %s" % (res, mt, cols(ck, lambda n, t: S.at(d[n], t), t0, mt))
    return "%02x %02x %d %s" % (tj, chk, mt, cols(ck, lambda n, t: S.at(d[n], t), t0, mt))


def mixed(c):
    """results of BDD and bexpr based runs asked for in every order of runs and questions"""
    ck = S.CKTS[0]
    evs = [base(ck) + [("c", "T", "q", "a1", 0, 2)], base(ck) + [("a", "a2", "r", "a3", 1, 3)]]
    cases = []
    want = []
    for e in evs:
        t0, t1, vals, traj, check = ck.run(e)
        want.append({"trajOK": traj, "checkOK": check, "strong": traj & check, "": traj & check,
                     "implies": (255 & ~traj) | check, "antOK": 255, "consOK": 255})
    q = ["trajOK", "checkOK", "strong", "", "implies", "antOK", "consOK"]
    items, norm = [], {}
    for order in itertools.product("sb", repeat=3):
        for asks in itertools.permutations(range(3)):
            scr = [S.PRE, BPRE, ck.fl()]
            for i, k in enumerate(order):
                r = evs[i % 2]
                scr.append('let s%d = %sSTE "-e" %s %s "";\ns%d;' % (
                    i, "b" if k == "b" else "", ck.name, S.evs_fl([bex(e) for e in r] if k == "b" else r), i))
            exp = []
            for i in asks:
                for ty in q:
                    e = '%sget_ste_result s%d "%s"' % ("b" if order[i] == "b" else "", i, ty)
                    scr.append('print ("\\n@"^(sprintf "%%B" (%s))^"\\n");' % ("cv (%s)" % e if order[i] == "b" else e))
                    exp.append("%02x" % want[i % 2][ty])
            key = "".join(order) + str(asks)
            norm[key] = lambda j, l: "%02x" % S.tt_of(l)
            items.append((key, "\n".join(scr) + "\nquit;\n", exp, None))
    c.run_streams("results of both kinds of runs", items, norm=norm)
