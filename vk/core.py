"""Framework of the checks: runs fl scripts, compares with reference models,
replays before reporting, writes evidence and replays."""
import concurrent.futures as cf
import hashlib, json, os, shutil, subprocess, sys, tempfile, threading, time

from . import build as B

VERIF = B.VERIF
KNOWN = os.path.join(VERIF, "known_findings.json")
OUT = os.environ.get("VK_BUILD") or VERIF
JOBS = int(os.environ.get("VK_JOBS", "8"))


class Res:
    def __init__(self, rc, out, err, wall):
        self.rc, self.out, self.err, self.wall = rc, out, err, wall

    def __repr__(self):
        return "rc=%s out=%r err=%r" % (self.rc, self.out[-400:], self.err[-400:])


_scratch = None
_lock = threading.Lock()


def scratch():
    """A private scratch directory, removed at exit."""
    global _scratch
    if _scratch is None:
        import atexit
        _scratch = tempfile.mkdtemp(prefix="vk-")
        pid = os.getpid()

        def rm():
            if os.getpid() == pid:
                shutil.rmtree(_scratch, ignore_errors=True)
        atexit.register(rm)
    return _scratch


_mini = None


def mini_fl():
    """A copy of the interpreter that starts with vk/mini.fl instead of the full preamble: its heap
    is ten times smaller, which makes collecting garbage at every allocation affordable."""
    global _mini
    with _lock:
        if _mini is None:
            d = os.path.join(scratch(), "mini")
            shutil.copytree(B.TREE + "/bin", d, symlinks=False)
            shutil.copy(os.path.join(VERIF, "vk", "mini.fl"), os.path.join(d, "preamble.fl"))
            _mini = os.path.join(d, "fl")
    return _mini


def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def run_fl(script, args=(), timeout=120, env=None, stdin_mode=False, cwd=None, seed_vars=()):
    """Runs one fl process on a script text."""
    d = tempfile.mkdtemp(prefix="fl-", dir=scratch())
    f = os.path.join(d, "t.fl")
    with open(f, "w") as fh:
        fh.write(script)
    exe = B.TREE + "/bin/fl"
    if "--mini" in args:
        exe = mini_fl()
    base = [exe, "-noX", "-q", "-T", d] + [a for a in args if a != "--mini"]
    t0 = time.time()
    if stdin_mode:
        inp = open(f, "rb")
    else:
        base += ["-F", f]
        inp = subprocess.DEVNULL
    out = open(os.path.join(d, "out"), "wb")
    err = open(os.path.join(d, "err"), "wb")
    try:
        p = subprocess.Popen(base, stdin=inp, stdout=out, stderr=err, env=B.env(env),
                             cwd=cwd or d, preexec_fn=limits, start_new_session=True)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            rc = "timeout"
        try:
            os.killpg(p.pid, 9)
        except (ProcessLookupError, PermissionError):
            pass
        p.wait()
    finally:
        out.close()
        err.close()
        if stdin_mode:
            inp.close()
    with open(os.path.join(d, "out"), "rb") as fh:
        o = fh.read().decode("utf-8", "surrogateescape")
    with open(os.path.join(d, "err"), "rb") as fh:
        e = fh.read().decode("utf-8", "surrogateescape")
    if cwd is None:
        shutil.rmtree(d, ignore_errors=True)
    return Res(rc, o, e, time.time() - t0)


def pmap(fn, items, jobs=JOBS):
    with cf.ThreadPoolExecutor(jobs) as ex:
        return list(ex.map(fn, items))


def ask(f, got):
    """the oracle f on an answer; an answer it cannot read is a wrong one."""
    try:
        return f(got)
    except Exception as e:
        return "unreadable answer (%s: %s)" % (type(e).__name__, e)


class Check:
    """One property check.

    A check registers *groups*.  A group is a set of cases sharing a preamble; a
    case is (key, fl expression of type string, expected string | predicate)."""

    def __init__(self, pid, args):
        self.pid = pid
        self.tier = args.tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.quick = self.tier == "quick"
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.validated = 0
        self.outcomes = set()
        self.samples = []
        self.bounds = []
        self.assumptions = []
        self.exhaustive = True
        self.violations = []
        self.known_hits = []
        self.hangs = 0
        self.budget = 400 if args.tier == "quick" else 3000
        self.extra = {}
        self.replay_dir = os.path.join(OUT, "replays", pid)
        self.max_viol = 8
        self.per_group = {}
        shutil.rmtree(self.replay_dir, ignore_errors=True)
        r = run_fl('print (sprintf "%d\\n" (1+2));\nquit;\n')
        if r.out != "3\n":
            raise RuntimeError("fl does not start here: %r" % r)
        try:
            with open(KNOWN) as fh:
                self.known = [k for k in json.load(fh)["findings"] if k["property"] == pid]
        except (OSError, ValueError):
            self.known = []

    # ---------------------------------------------------------------- reports
    def note(self, text):
        self.bounds.append(text)

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s if isinstance(s, (str, dict, list)) else str(s))

    def is_known(self, key):
        for k in self.known:
            if k["case"] == key:
                return k
        return None

    def violation(self, key, expected, got, script=None, how="", args=(), stdin_mode=False):
        k = self.is_known(key)
        if k:
            if key not in self.known_hits:
                self.known_hits.append(key)
                print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]), flush=True)
            return
        os.makedirs(self.replay_dir, exist_ok=True)
        n = len(self.violations)
        path = os.path.join(self.replay_dir, "v%03d" % n)
        with open(path + ".txt", "w", errors="surrogateescape") as fh:
            fh.write("property: %s\ncase: %s\nhow: %s\nexpected: %s\ngot: %s\n" %
                     (self.pid, key, how, expected, got))
            if script is not None:
                fh.write("script: %s.fl\nreplay: %s -noX -q %s\n" % (
                    path, B.TREE + "/bin/fl", " ".join(args) + (
                        " < %s.fl" % path if stdin_mode else " -F %s.fl" % path)))
        if script is not None:
            with open(path + ".fl", "w", errors="surrogateescape") as fh:
                fh.write(script)
        self.violations.append(key)
        e, g = str(expected), str(got)
        d = next((i for i in range(min(len(e), len(g))) if e[i] != g[i]), min(len(e), len(g)))
        lo = max(0, d - 30)
        print("  case %s (first difference at %d)\n    expected %s\n    got      %s" % (
            key, d, e[lo:lo + 100], g[lo:lo + 200]))
        print("VIOLATION property=%s replay=%s" % (self.pid, path + ".txt"), flush=True)

    def full(self):
        return len(self.violations) >= self.max_viol

    # ------------------------------------------------------------------ cases
    def run_cases(self, name, preamble, cases, chunk=None, args=(), timeout=60, env=None,
                  transitions_per_case=1, catch=True, jobs=JOBS, postamble=""):
        """Runs every case on the implementation and compares with the model.

        cases: list of (key, fl string expression, expected) where expected is a
        string, or a function str -> None | reason."""
        cases = list(cases)
        if not cases:
            raise RuntimeError("group %s is empty" % name)
        if len(set(c[0] for c in cases)) != len(cases):
            raise RuntimeError("group %s has duplicate keys" % name)
        if chunk is None:
            chunk = max(1, min(2000, (len(cases) + jobs - 1) // jobs))
        chunks = [cases[i:i + chunk] for i in range(0, len(cases), chunk)]

        def script_of(cs):
            out = [preamble, "\n"]
            for i, c in enumerate(cs):
                e = c[1]
                if catch:
                    out.append('print (sprintf "\\n@@%d %%s\\n@.\\n" ((%s) gen_catch (\\m. "EXN")));\n'
                               % (i, e))
                else:
                    out.append('print (sprintf "\\n@@%d %%s\\n@.\\n" (%s));\n' % (i, e))
            out.append(postamble)
            out.append('print "\\n@@END\\n";\nquit;\n')
            return "".join(out)

        def parse(res):
            got = {}
            for part in res.out.split("\n@@")[1:]:
                sp = part.split(" ", 1)
                if len(sp) < 2 or not sp[0].isdigit():
                    continue
                j = sp[1].find("\n@.\n")
                if j >= 0:
                    got[int(sp[0])] = sp[1][:j]
            return got

        def run(cs, tmo=timeout):
            s = script_of(cs)
            r = run_fl(s, args=args, timeout=tmo, env=env)
            return s, r, parse(r)

        nbad = [0]

        def judge(exp, g):
            if callable(exp):
                return ask(exp, g)
            return None if g == exp else "mismatch"

        def diag(r):
            m = [l for l in (r.out.split("\n@@")[-1] + "\n" + r.err).split("\n") if l.strip()]
            return "NO ANSWER (rc=%s) %s" % (r.rc, " | ".join(m[-6:])[-300:])

        def do(cs):
            bad = []
            if self.full() or self.hangs >= 2 or nbad[0] >= 2 * self.max_viol:
                return 0, bad, set()
            s, r, got = run(cs)
            missing = [i for i in range(len(cs)) if i not in got]
            outs = set()
            n = 0
            if missing and len(cs) > 1:
                first = missing[0]
                for i in range(first):
                    n += 1
                    outs.add(got[i])
                    if judge(cs[i][2], got[i]) is not None:
                        bad.append((cs[i], got[i], s))
                s1, r1, g1 = run([cs[first]], timeout)
                if 0 in g1:
                    outs.add(g1[0])
                    n += 1
                    if judge(cs[first][2], g1[0]) is not None:
                        bad.append((cs[first], g1[0], s1))
                    elif r.rc != "timeout":
                        # alone it answers; the chunk did not get there: replay the chunk
                        s2, r2, g2 = run(cs[:first + 1], timeout * 2)
                        if first not in g2:
                            bad.append((cs[first], diag(r2), s2))
                else:
                    n += 1
                    nbad[0] += 1
                    bad.append((cs[first], diag(r1), s1))
                    if r1.rc == "timeout":
                        self.hangs += 1
                rest = cs[first + 1:]
                if rest and len(bad) < self.max_viol:
                    n2, b2, o2 = do(rest)
                    n += n2
                    bad += b2
                    outs |= o2
                return n, bad, outs
            for i, c in enumerate(cs):
                n += 1
                if i not in got:
                    s3, r3, g3 = run([c], timeout * 2)
                    if 0 not in g3:
                        bad.append((c, diag(r3), s3))
                        continue
                    got[i] = g3[0]
                outs.add(got[i])
                if judge(c[2], got[i]) is not None:
                    bad.append((c, got[i], s))
            return n, bad, outs

        t0 = time.time()
        total = 0
        outs = set()
        bad = []
        for n, b, o in pmap(do, chunks, jobs):
            total += n
            outs |= set(hashlib.md5(x.encode("utf-8", "replace")).hexdigest() for x in o)
            bad += b
        for c, g, s in bad:
            if self.full():
                break
            # replay before report: alone first, then with its history
            how = ""
            s1, r1, g1 = run([c], timeout * 2)
            if 0 not in g1:
                how, got, scr = "alone", diag(r1), s1
            elif judge(c[2], g1[0]) is not None:
                how, got, scr = "alone", g1[0], s1
            else:
                for _ in range(3):
                    r2 = run_fl(s, args=args, timeout=timeout * 2, env=env)
                    keyi = self._index_in(s, c[1])
                    g2 = parse(r2).get(keyi)
                    if g2 is None or judge(c[2], g2) is not None:
                        how, got, scr = "with the history before it", g2 or diag(r2), s
                        break
            if not how:
                print("  note: case %s answered %r once and could not be reproduced" % (c[0], g))
                continue
            exp = c[2] if not callable(c[2]) else ask(c[2], got if isinstance(got, str) else "")
            self.violation(c[0], exp, got, scr, how, args)
        self.states += total
        self.transitions += total * transitions_per_case
        self.validated += total
        self.outcomes |= outs
        if not self.full() and total != len(cases):
            self.exhaustive = False
        self.per_group[name] = {"cases": total, "distinct_outcomes": len(outs),
                                "wall_s": round(time.time() - t0, 1)}
        if cases:
            c = cases[len(cases) // 2]
            self.sample({"group": name, "case": c[0], "expr": c[1][:300],
                         "expected": c[2] if isinstance(c[2], str) else "predicate"})
        print("  %-34s cases=%d outcomes=%d  %.1f s" % (name, total, len(outs), time.time() - t0), flush=True)
        return total

    @staticmethod
    def _index_in(script, expr):
        for l in script.split("\nprint (sprintf ")[1:]:
            if expr in l:
                return int(l.split("@@")[1].split(" ")[0])
        return -1

    # ----------------------------------------------------------- line streams
    def run_streams(self, name, items, transitions_per_line=1, timeout=None, args=(), env=None,
                    jobs=JOBS, norm=None):
        """items: list of (key, script, expected_lines, single) -- each script runs in its own
        process and prints one result line per model state, prefixed '@'.
        single(i) -> (key, script printing only line i) for the replay."""
        t0 = time.time()
        tot = 0
        outs = set()
        if timeout is None:
            timeout = 90 if self.quick else 600

        def lines_of(r, key=None, base=0):
            ls = [l[1:] for l in r.out.split("\n") if l.startswith("@")]
            if norm and key in norm:
                ls = [norm[key](base + i, l) for i, l in enumerate(ls)]
            return ls

        def do(it):
            key, script, exp, single = it
            if self.full() or self.hangs >= 2 or time.time() - self.t0 > self.budget:
                self.exhaustive = False
                return 0, [], set()
            r = run_fl(script, args=args, timeout=timeout, env=env)
            if r.rc == "timeout":
                self.hangs += 1
            got = lines_of(r, key)
            bad = []
            if got != exp:
                for i in range(max(len(exp), len(got))):
                    g = got[i] if i < len(got) else "NO ANSWER (rc=%s) %s" % (r.rc, (r.out[-200:] + r.err[-200:]).replace("\n", " | "))
                    e = exp[i] if i < len(exp) else "<end>"
                    if g != e:
                        bad.append((i, e, g))
                        if len(bad) >= 3 or i >= len(got):
                            break
            return len(got), [(it, b) for b in bad], set(got)
        res = pmap(do, items, jobs)
        for n, bad, o in res:
            tot += n
            outs |= o
            for it, (i, e, g) in bad:
                if self.full():
                    break
                key, script, exp, single = it
                k, s = single(i) if single and i < len(exp) else (key + "#%d" % i, script)
                r = run_fl(s, args=args, timeout=timeout, env=env)
                got = lines_of(r, key, i if single and i < len(exp) else 0)
                want = [e] if single and i < len(exp) else exp
                if got == want:
                    # not alone: replay with its history
                    r = run_fl(script, args=args, timeout=timeout + 30, env=env)
                    got = lines_of(r, key)
                    if got == exp:
                        print("  note: %s could not be reproduced" % k)
                        continue
                    self.violation(k, e, got[i] if i < len(got) else repr(r), script,
                                   "with the history before it", args)
                else:
                    if single and i < len(exp):
                        self.violation(k, e, got[0] if got else repr(r), s, "alone", args)
                    else:
                        self.violation(k, e, got[i] if i < len(got) else repr(r), s, "whole stream", args)
        self.states += tot
        self.validated += tot
        self.transitions += tot * transitions_per_line
        self.outcomes |= set(hashlib.md5(x.encode("utf-8", "replace")).hexdigest() for x in outs)
        self.per_group[name] = {"cases": tot, "distinct_outcomes": len(outs), "processes": len(items),
                                "wall_s": round(time.time() - t0, 1)}
        if items:
            k, s, e, _ = items[len(items) // 2]
            self.sample({"group": name, "case": k, "expected_tail": e[-1][:200] if e else ""})
        print("  %-34s lines=%d outcomes=%d  %.1f s" % (name, tot, len(outs), time.time() - t0), flush=True)

    # -------------------------------------------------------------------- end
    def finish(self):
        for k in self.known:
            if k["case"] not in self.known_hits:
                print("  note: listed finding %s did not show in this run" % k["case"])
        os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": dict({
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.validated,
                "distinct_outcomes": len(self.outcomes),
                "groups": self.per_group, "bounds": self.bounds,
                "exhaustive": bool(self.exhaustive and not self.violations),
                "samples": self.samples or ["none"],
            }, **self.extra),
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        p = os.path.join(OUT, "evidence", self.pid + ".json")
        with open(p + ".tmp", "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
        os.replace(p + ".tmp", p)
        print("%s %s: states=%d transitions=%d validated=%d outcomes=%d violations=%d  %.1f s" % (
            self.pid, self.tier, self.states, self.transitions, self.validated, len(self.outcomes),
            len(self.violations), time.time() - self.t0), flush=True)
        return 1 if self.violations else 0


def fl_str(s):
    """An fl string literal."""
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t") + '"'
