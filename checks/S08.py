"""Queries about the structure of a circuit agree with its netlist and with each other, for all small module trees, all
starting points and all sets of stop nodes."""
import itertools
import re
from vk import hier as H
from vk.hier import Fn, Mod, Flat, vec, var, xvar, slc, cat, expand
from checks import S03

PRE = r"""
let sB b = (b == T) => "T" | (b == F) => "F" | "?";
let ssep l = list2str T "" "," "" id l;
let tryS f = f gen_catch (\m. "!");
// everything about one circuit; ns: names on all levels
let query ckt ns =
   let per f = list2str T "" " " "" (\n. tryS (f ckt n)) ns in
   list2str T "" ";" "" id [
      ssep (nodes ckt), ssep (inputs ckt), ssep (outputs ckt), ssep (vectors ckt),
      list2str T "" "," "" (\p. (fst p)^">"^(snd p)) (edges ckt),
      per (\c.\n. ssep (fanin c n)), per (\c.\n. ssep (fanout c n)),
      per basename, per node2vector,
      per (\c.\n. sB (is_input c n)), per (\c.\n. sB (is_phase_delay c n)), per (\c.\n. sB (is_node c n)),
      per (\c.\n. sprintf "%d" (rank_order c n))];
// searches from the start nodes with each set of stop nodes
let dfs ckt f starts stops = list2str T "" ";" "" (\s. list2str T "" " " "" (\st. tryS (ssep (f ckt (\n. mem n st) s))) stops) starts;
let dfsq ckt f starts stops =
   list2str T "" ";" "" (\s. list2str T "" " " "" (\st.
     tryS (ssep (f ckt (\n. ((length (f ckt (\n. T) [n])) > 0) AND (is_node ckt n) AND (mem n st)) s))) stops) starts;
"""


def circuits(q):
    out = []
    kinds = ["mix", "swap", "reg", "not"]
    A2 = [["t[1:0]"], ["t[2]", "x[1]"], ["t[0]", "t[2]"], ["t[0,2]"], ["x[0]", "t[1]"], ["t[1]", "t[1]"]]
    O2 = [["y[1:0]"], ["y[0]", "y[1]"], ["y[0:1]"]]
    for i, (a1, o1, a2, o2) in enumerate(itertools.product(S03.A1, S03.O1, A2, O2)):
        for j in range(2 if q else 4):
            k1, k2 = kinds[(i + j) % 4], kinds[(i // 4 + 2 * j + 1) % 4]
            body = S03.inner(k1, a1, o1, k2, a2, o2, (i + j) % 2)
            m = Mod("top", [("x[1:0]", ["x[1:0]"])], [("y[1:0]", ["y[1:0]"])], ["t[2:0]"], body)
            out.append(("%s %s>%s %s %s>%s %d" % (k1, a1, o1, k2, a2, o2, (i + j) % 2), m))
            if i % 9 == 0:
                sub = Mod("sub", [("x[1:0]", ["x[0]", "u"])], [("y[1:0]", ["y[1:0]"])], ["t[2:0]"], body)
                out.append(("inside: %s %s>%s %s %s>%s %d" % (k1, a1, o1, k2, a2, o2, (i + j) % 2),
                            Mod("top", [("u", ["u"]), ("x[0:1]", ["x[0:1]"])], [("y[1:0]", ["y[1:0]"])], [], [sub])))
    return out


def semantic(flat):
    """bit -> bits its function really uses (wires only)."""
    return {o: set(d[1]) - {0, 1, 2} for o, d in flat.drv.items()}


def reach(adj, a):
    seen, todo = set(), [a]
    while todo:
        x = todo.pop()
        for y in adj.get(x, ()):
            if y not in seen:
                seen.add(y)
                todo.append(y)
    return seen


def structural(flat):
    r = {}
    for ins, outs in flat.edges:
        for o in outs:
            r.setdefault(o, set()).update(ins)
    return r


def mixed(m, flat, parent, path, mix):
    for f, acts in m.inps:
        if parent is not None and len(acts) > 1:
            bs = {flat.names[path + b] for b in expand(f)}
            for b in bs:
                mix.setdefault(b, set()).update(bs)
    if not m.leaf:
        for i, x in enumerate(m.body):
            mixed(x, flat, m, path + "i%d/" % (i + 1), mix)


def check_queries(m, flat, ns):
    own = {}                               # bit -> the name it is declared with
    for n, b in sorted(flat.names.items(), key=lambda p: (p[0].count("/"), p[0])):
        if b > 2:
            own.setdefault(b, n)
    tin = [b for f, _ in m.inps for b in expand(f)]
    sem, stru = semantic(flat), structural(flat)
    mix = {}                               # the parts of an argument made of several parts are one operand
    mixed(m, flat, None, "", mix)

    def check(got):
        p = got.split(";")
        if len(p) != 13:
            return "13 parts expected: " + got[:300]
        L = lambda s: s.split(",") if s else []
        nodes, inputs, outputs, vectors = L(p[0]), re.findall(r"\w+(?:\[[^\]]*\])?", p[1]), re.findall(r"\w+(?:\[[^\]]*\])?", p[2]), p[3]
        edges = set(tuple(e.split(">")) for e in L(p[4]))
        cols = [x.split(" ") for x in p[5:]]
        if any(len(c) != len(ns) for c in cols):
            return "answers missing"
        at = {n: i for i, n in enumerate(ns)}
        anon = lambda n: n.split("/")[-1].startswith("_")
        user = [n for n in nodes if not anon(n)]
        if sorted(user) != sorted(own.values()):
            return "nodes: %s instead of %s" % (sorted(user), sorted(own.values()))
        if len(set(nodes)) != len(nodes):
            return "nodes: a node twice"
        if inputs != [f for f, _ in m.inps] or outputs != [f for f, _ in m.outs]:
            return "inputs/outputs: %s %s" % (inputs, outputs)
        vs = [v for v in re.findall(r"[^,\[]+(?:\[[^\]]*\])?", vectors)]
        if sorted(b for v in vs for b in expand(v)) != sorted(nodes):
            return "vectors: %s do not make up the nodes" % vs
        fi, fo, bn, nv, isin, isph, isnd, rank = cols
        full = {n: i for i, n in enumerate(ns)}
        for n in ns:
            i = at[n]
            b = flat.names[n]
            if bn[i] != own.get(b) and not (anon(bn[i]) and bn[i] in nodes):
                return "basename %s is %s instead of %s" % (n, bn[i], own[b])
            if bn[i] not in expand(nv[i]):
                return "node2vector %s is %s" % (n, nv[i])
            if isnd[i] != "T":
                return "is_node %s is %s" % (n, isnd[i])
            if isin[i] != ("T" if bn[i] in tin else "F"):
                return "is_input %s is %s" % (n, isin[i])
        # fanin, fanout and edges describe one relation
        E = set()
        for n in ns:
            i = at[n]
            E |= {(x, bn[i]) for x in L(fi[i])}
        Eo = set()
        for n in ns:
            i = at[n]
            Eo |= {(bn[i], x) for x in L(fo[i])}
        known = set(bn)
        if {e for e in edges if e[1] in known} != E:
            return "edges and fanin differ: %s" % sorted(E ^ {e for e in edges if e[1] in known})[:3]
        if {e for e in edges if e[0] in known} != Eo:
            return "edges and fanout differ: %s" % sorted(Eo ^ {e for e in edges if e[0] in known})[:3]
        # through the nodes of merged arguments: at least what the functions use, at most what the instances connect
        pred = {}
        for a, b in edges:
            pred.setdefault(b, set()).add(a)

        def deps(n, seen):
            r = set()
            for x in pred.get(n, ()):
                if anon(x):
                    if x not in seen:
                        r |= deps(x, seen | {x})
                else:
                    r.add(x)
            return r
        for b, n in own.items():
            d = deps(n, set())
            lo = {own[x] for x in sem.get(b, ())}
            hi = {own[y] for x in stru.get(b, ()) for y in ({x} | reach(mix, x)) - {0, 1, 2}}
            if not lo <= d <= hi:
                return "%s depends on %s, expected at least %s and at most %s" % (n, sorted(d), sorted(lo), sorted(hi))
            i = at[n]
            dr = flat.drv.get(b)
            if isph[i] != ("T" if dr is not None and dr[2] else "F"):
                return "is_phase_delay %s is %s" % (n, isph[i])
            if (rank[i] == "-1") != (dr is None):
                return "rank_order %s is %s" % (n, rank[i])
        # ranks follow combinational dependencies
        rk = {bn[at[n]]: int(rank[at[n]]) for n in ns}
        ph = {bn[at[n]] for n in ns if isph[at[n]] == "T"}
        for a, b in edges:
            if a in rk and b in rk and b not in ph and a not in ph and rk[a] >= 0 and rk[a] <= rk[b]:
                return "rank of %s (%d) is not above the one of %s (%d) it drives" % (a, rk[a], b, rk[b])
        return None
    return check


def check_dfs(flat, starts, stops, fwd):
    def check(got):
        edges, rest = got.split("|")
        adj = {}
        for e in edges.split(","):
            if e:
                a, b = e.split(">")
                if not fwd:
                    a, b = b, a
                adj.setdefault(a, []).append(b)
        rows = rest.split(";")
        if len(rows) != len(starts):
            return "answers missing: " + got[:200]
        for s, row in zip(starts, rows):
            for st, g in zip(stops, row.split(" ")):
                seen, todo = set(), list(s)
                while todo:
                    x = todo.pop()
                    if x in seen:
                        continue
                    seen.add(x)
                    if x in st and x not in s:
                        continue
                    todo += adj.get(x, [])
                r = g.split(",")
                if len(set(r)) != len(r):
                    return "from %s stopping at %s: a node twice in %s" % (s, st, g)
                if set(r) != seen:
                    return "from %s stopping at %s: %s instead of %s" % (s, st, sorted(r), sorted(seen))
        return None
    return check


def flst(l):
    return "[%s]" % ",".join('"%s"' % x for x in l)


def run(c):
    q = c.quick
    cs, ds, js = [], [], []
    for k, (key, m) in enumerate(circuits(q)):
        flat = Flat()
        m.flatten(flat)
        ns = sorted(flat.names)
        cs.append((key, "query (pexlif2fsm %s) %s" % (m.fl(), flst(ns)), check_queries(m, flat, ns)))
        if k % (3 if q else 1) == 0:
            own = {}
            for n, b in sorted(flat.names.items(), key=lambda p: (p[0].count("/"), p[0])):
                if b > 2:
                    own.setdefault(b, n)
            us = [own[b] for b in sorted(own)]
            mids = us[:6]
            stops = [[x for x, s in zip(mids, sel) if s] for sel in itertools.product((0, 1), repeat=len(mids))]
            stops = [s for i, s in enumerate(stops) if i % (3 if q else 2) == 0] + [us]
            starts = [[u] for u in us] + [[a, b] for a in us[:4] for b in us[-4:] if a != b] + [us[:3], us[-3:], us]
            for fwd in (0, 1):
                f = "fanout_dfs" if fwd else "fanin_dfs"
                ds.append(("%s in %s" % (f, key), 'let ckt = pexlif2fsm %s in (list2str T "" "," "" (\\p. (fst p)^">"^(snd p)) (edges ckt))^"|"^(dfs ckt %s %s [%s])' % (
                    m.fl(), f, flst(starts).replace('"[', "[").replace(']"', "]") if False else "[%s]" % ",".join(flst(s) for s in starts),
                    ",".join(flst(s) for s in stops)), check_dfs(flat, starts, stops, fwd)))
                if k % 20 == 0:
                    st2, so2 = starts[::3], stops[::4]
                    js.append(("%s in %s, asking inside" % (f, key),
                               'let ckt = pexlif2fsm %s in (list2str T "" "," "" (\\p. (fst p)^">"^(snd p)) (edges ckt))^"|"^(dfsq ckt %s %s [%s])' % (
                                   m.fl(), f, "[%s]" % ",".join(flst(s) for s in st2), ",".join(flst(s) for s in so2)),
                               check_dfs(flat, st2, so2, fwd)))
    c.run_cases("all queries", PRE, cs, transitions_per_case=150)
    c.run_cases("searches", PRE, ds, transitions_per_case=400, timeout=120)
    c.run_cases("searches that ask about the circuit", PRE, js, transitions_per_case=100, timeout=120)
