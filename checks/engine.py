"""Conformance engine: TLC graph -> implementation, implementation traces -> TLC.

Exit discipline: a check ends with 0 (held), 1 (VIOLATION printed) or 2 (the check itself failed).
"""
import fcntl, hashlib, heapq, json, multiprocessing, os, queue, random, re, shutil, subprocess, sys, tempfile, time
from collections import deque

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(ROOT, "out")
HARNESS = os.path.join(ROOT, "harness")
SPEC = os.path.join(ROOT, "spec")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
JAR = "/opt/veriftools/tla/tla2tools.jar"


class ToolError(Exception):
    pass


class Violation(Exception):
    def __init__(self, doc):
        super().__init__(doc.get("why", ""))
        self.doc = doc


def key(x):
    return json.dumps(x, sort_keys=True, separators=(",", ":"))


# ------------------------------------------------------------------ building

def build():
    """Builds the harness from /repo's current tree; only one build at a time."""
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, ".build.lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        env = {k: v for k, v in os.environ.items() if k not in ("RUSTFLAGS", "CARGO_TARGET_DIR")}
        p = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=HARNESS, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=850)
        if p.returncode != 0:
            raise ToolError("harness build failed:\n" + p.stdout[-4000:])
    return os.path.join(HARNESS, "target", "debug", "nargun-conf")


# ------------------------------------------------------------------ system under test

class Sut:
    """One harness process."""

    def __init__(self, component, env=None, timeout=120):
        self.component = component
        self.scratch = tempfile.mkdtemp(prefix="nargun-conf-")
        e = dict(os.environ)
        e["HOME"] = self.scratch
        e["CONF_SCRATCH"] = self.scratch
        e.update(env or {})
        self.err = open(os.path.join(self.scratch, "stderr"), "w+b")
        self.p = subprocess.Popen([os.path.join(HARNESS, "target", "debug", "nargun-conf"), component],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err,
                                  cwd=self.scratch, env=e)
        self.steps = 0
        self.timeout = timeout

    def call(self, doc):
        import select
        try:
            self.p.stdin.write((json.dumps(doc) + "\n").encode())
            self.p.stdin.flush()
        except BrokenPipeError:
            return self.dead(doc)
        r, _, _ = select.select([self.p.stdout], [], [], self.timeout)
        if not r:
            # a call that never comes back: data about the code, not about the tool
            self.p.kill()
            return {"hang": "no answer within %d s" % self.timeout}
        line = self.p.stdout.readline()
        if not line:
            return self.dead(doc)
        self.steps += 1
        return json.loads(line)["o"]

    def dead(self, doc):
        rc = self.p.wait()
        self.err.seek(0)
        msg = self.err.read().decode(errors="replace")[-2000:]
        if rc == 2:
            raise ToolError("harness %s refused %s: %s" % (self.component, key(doc), msg))
        return {"died": "exit status %s: %s" % (rc, msg[-300:])}

    def alive(self):
        return self.p.poll() is None

    def reset(self, cfg):
        return self.call({"c": "reset", "cfg": cfg})

    def step(self, i):
        return self.call({"c": "step", "i": i})

    def close(self):
        try:
            self.p.stdin.close()
        except Exception:
            pass
        try:
            self.p.wait(timeout=5)
        except Exception:
            self.p.kill()
            self.p.wait()
        self.err.close()
        self.p.stdout.close()
        subprocess.run(["chmod", "-R", "u+rwX", self.scratch], stderr=subprocess.DEVNULL)
        shutil.rmtree(self.scratch, ignore_errors=True)


def broken(o):
    """The observation says the code crashed or hung, whatever the spec expected."""
    return isinstance(o, dict) and any(k in o for k in ("panic", "hang", "died"))


# ------------------------------------------------------------------ TLC

def run_tlc(module, cfg, workdir, workers=1, heap="4g", timeout=800, extra=(), env=None):
    cp = JAR
    for j in ("CommunityModules-deps.jar",):
        q = os.path.join(os.path.dirname(JAR), j)
        if os.path.exists(q):
            cp += ":" + q
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + workdir, "-cp", cp, "tlc2.TLC", "-workers", str(workers),
           "-config", cfg, "-metadir", os.path.join(workdir, "states"), "-noGenerateSpecTE", *extra, module]
    out = os.path.join(workdir, "tlc.out")
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    with open(out, "wb") as f:
        try:
            rc = subprocess.run(cmd, cwd=workdir, stdout=f, stderr=subprocess.STDOUT, env=e, timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            raise ToolError("TLC timed out on %s/%s" % (module, cfg))
    return rc, out


def const_line(name, value):
    """A constant of a .cfg: a literal, or "<- Operator" for what a .cfg cannot write."""
    return "  %s %s" % (name, value if str(value).startswith("<-") else "= %s" % value)


def tail(path, n=40):
    with open(path, errors="replace") as f:
        return "".join([l for l in f if not l.startswith('"EDGE')][-n:])


def errors(path):
    """The lines of TLC's output that say what went wrong."""
    with open(path, errors="replace") as f:
        return "".join([l[:1000] for l in f if l.startswith("Error:")][:5])


def spec_dir():
    d = tempfile.mkdtemp(prefix="nargun-tlc-")
    for f in os.listdir(SPEC):
        if f.endswith((".tla", ".cfg")):
            shutil.copy(os.path.join(SPEC, f), d)
    return d


class Graph:
    """The complete labelled transition graph of a bounded specification."""

    def __init__(self, module, cfg, timeout=800, heap="6g"):
        d = spec_dir()
        try:
            t0 = time.time()
            rc, out = run_tlc(module + ".tla", cfg, d, timeout=timeout, heap=heap)
            text = tail(out, 60)
            if rc != 0:
                raise ToolError("TLC rejects the specification %s/%s (rc %d):\n%s" % (module, cfg, rc, text))
            m = re.search(r"(\d+) states generated, (\d+) distinct states found", text)
            if not m:
                raise ToolError("TLC gave no statistics for %s/%s:\n%s" % (module, cfg, text))
            self.generated, self.distinct = int(m.group(1)), int(m.group(2))
            self.ids, self.ins, self.outs = {}, [], []
            inkey, outkey = {}, {}
            self.adj = []
            self.edges = 0
            init = None
            with open(out, errors="replace") as f:
                for line in f:
                    if not line.startswith('"EDGE'):
                        continue
                    e = json.loads(json.loads(line)[5:])
                    s, t = self.node(e["s"]), self.node(e["t"])
                    if init is None:
                        init = s
                    ik = key(e["i"])
                    if ik not in inkey:
                        inkey[ik] = len(self.ins)
                        self.ins.append(e["i"])
                    ok = key(e["o"])
                    if ok not in outkey:
                        outkey[ok] = len(self.outs)
                        self.outs.append(e["o"])
                    lst = self.adj[s].setdefault(inkey[ik], [])
                    if (outkey[ok], t) not in lst:
                        lst.append((outkey[ok], t))
                        self.edges += 1
            if len(self.ids) != self.distinct:
                raise ToolError("%s/%s: %d states printed, %d found: the view has no canonical form" % (
                    module, cfg, len(self.ids), self.distinct))
            if init is None:
                raise ToolError("no transitions in %s/%s" % (module, cfg))
            self.init = init
            self.outkey = outkey
            self.tlc_s = time.time() - t0
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def node(self, s):
        s = key(s)
        if s not in self.ids:
            self.ids[s] = len(self.ids)
            self.adj.append({})
        return self.ids[s]


class Proj:
    """Which part of an observation a property is about (None: all of it)."""

    def __init__(self, fields=None, ops=None):
        self.fields, self.ops = fields, ops

    def same(self, got, want, op):
        if self.fields is None:
            return True if self.ops is not None and op not in self.ops else got == want
        return all(got.get(f) == want.get(f) for f in self.fields)

    def crash_counts(self, op):
        return self.ops is None or op in self.ops


class Stats(dict):
    def add(self, k, n=1):
        self[k] = self.get(k, 0) + n


def fuzzy_default(got, want):
    return got == want


def explore(graph, component, cfg, rng, budget_s, proj=Proj(), workers=8, stats=None, samples=None, **kw):
    """Executes every (state, input) of the graph against the real code, by several processes."""
    stats = stats if stats is not None else Stats()
    pairs = sum(len(a) for a in graph.adj)
    workers = max(1, min(workers, os.cpu_count() or 1, pairs // 400))
    if workers == 1:
        return explore1(graph, component, cfg, rng, budget_s, proj, stats=stats, samples=samples, **kw)
    ctx = multiprocessing.get_context("fork")
    q = ctx.Queue()

    base = tempfile.mkdtemp(prefix="nargun-conf-")
    os.chmod(base, 0o711)  # some components run as an unprivileged user

    def work(k):
        os.setpgrp()
        tempfile.tempdir = base
        st, sm, doc, err, full = Stats(), [], None, None, False
        try:
            full = explore1(graph, component, cfg, random.Random(rng0 + k), budget_s, proj, stats=st, samples=sm,
                            shard=(k, workers), **kw)
        except Violation as v:
            doc = v.doc
        except BaseException as e:
            err = "%s: %s" % (type(e).__name__, e)
        q.put((dict(st), sm, doc, err, full))

    rng0 = rng.randrange(1 << 30)
    ps = [ctx.Process(target=work, args=(k,)) for k in range(workers)]
    for p in ps:
        p.start()
    doc, err, full, reached = None, None, True, set()
    try:
        for _ in ps:
            try:
                st, sm, d, e, f = q.get(timeout=budget_s + 400)
            except queue.Empty:
                raise ToolError("an exploring process gave no answer")
            full &= f
            reached |= set(st.pop("reached", ()))
            for k, v in st.items():
                stats[k] = max(stats.get(k, 0), v) if k == "longest_path" else stats.get(k, 0) + v
            if samples is not None and len(samples) < 2:
                samples += sm[:1]
            err = err or e
            if d is not None:
                doc = d
                break
    finally:
        for p in ps:
            if p.is_alive() and doc is not None:
                try:
                    os.killpg(p.pid, 9)
                except OSError:
                    pass
            p.join(10)
        shutil.rmtree(base, ignore_errors=True)
    stats["states_visited_in_code"] = stats.get("states_visited_in_code", 0) + len(reached)
    if doc is not None:
        raise Violation(doc)
    if err:
        raise ToolError(err)
    return full


def explore1(graph, component, cfg, rng, budget_s, proj=Proj(), max_path=400, reset_cost=3, stats=None,
             confirm=0, slow_env=None, env=None, spec_name="", reps=1, samples=None, shard=None):
    """One process: executes its share of the (state, input) pairs."""
    stats = stats if stats is not None else Stats()
    sut = Sut(component, env)
    # covered counts per (node, input)
    relevant = [proj.ops is None or x.get("op") in proj.ops for x in graph.ins]
    few = shard and len(graph.adj) < 16 * shard[1]
    mine = lambda n, i: shard is None or (i if few else n // 8) % shard[1] == shard[0]
    todo = [dict((i, reps) for i in a if relevant[i] and mine(n, i)) for n, a in enumerate(graph.adj)]
    loops = [set(i for i, lst in a.items() if all(t == n for (_, t) in lst)) for n, a in enumerate(graph.adj)]
    left = sum(len(a) for a in todo)
    total = left
    t0 = time.time()
    reached = set()
    outs_seen = set()

    tries, taken = {}, {}
    TRIES = 4  # an allowed outcome the code did not choose that often is not planned on any more

    moves = []
    for n, adj in enumerate(graph.adj):
        sure, hope = {}, []
        for i, lst in adj.items():
            if len(lst) == 1:
                if lst[0][1] != n:
                    sure.setdefault(lst[0][1], i)
            else:
                hope += [(i, t) for t in {t for (_, t) in lst} if t != n]
        moves.append(([(i, t) for t, i in sure.items()], hope))

    def cost(n, i, t):
        """Planning cost of hoping that input i in state n leads to t; None: do not hope."""
        k = tries.get((n, i), 0)
        c = taken.get((n, i), {}).get(t, 0)
        if c:
            return 1 + 3.0 * k / c
        return 3 if k < TRIES else None

    def dist_plan(src):
        """Cheapest input sequence from src to a state with something left to do."""
        if todo[src]:
            return []
        prev = {src: None}
        best = {src: 0}
        q = [(0, src)]
        while q:
            d, n = heapq.heappop(q)
            if d > best[n]:
                continue
            if todo[n]:
                plan = []
                while prev[n] is not None:
                    n, i = prev[n]
                    plan.append(i)
                return plan[::-1]
            sure, hope = moves[n]
            for i, t in sure:
                if d + 1 < best.get(t, 1e18):
                    best[t] = d + 1
                    prev[t] = (n, i)
                    heapq.heappush(q, (d + 1, t))
            for i, t in hope:
                c = cost(n, i, t)
                if c is not None and d + c < best.get(t, 1e18):
                    best[t] = d + c
                    prev[t] = (n, i)
                    heapq.heappush(q, (d + c, t))
        return None

    try:
        while left > 0 and time.time() - t0 < budget_s:
            if not sut.alive():
                sut.close()
                sut = Sut(component, env)
            o = sut.reset(cfg)
            stats.add("paths")
            if broken(o):
                raise Violation(dict(component=component, cfg=cfg, inputs=[], got=o, want="a fresh instance",
                                     why="the code under test failed to start: %s" % key(o)))
            hist, path = [], []
            S = {graph.init}
            plan = None
            if not todo[graph.init] and dist_plan(graph.init) is None:
                break
            while left > 0 and time.time() - t0 < budget_s and len(path) < max_path:
                if len(S) == 1:
                    (n,) = S
                    reached.add(n)
                    if todo[n]:
                        cand = list(todo[n])
                        # first whatever leaves the state alone
                        still = [i for i in cand if i in loops[n]]
                        cand = still or cand
                        i = cand[rng.randrange(len(cand))]
                        if not still:
                            # go where most is left to do
                            pick = [i] + [cand[rng.randrange(len(cand))] for _ in range(6)]
                            i = max(pick, key=lambda j: min(len(todo[t]) for (_, t) in graph.adj[n][j]))
                        plan = None
                    else:
                        if not plan:
                            plan = dist_plan(n)
                            if plan is None:
                                break
                            if path and len(plan) > reset_cost + 1:
                                p0 = dist_plan(graph.init)
                                if p0 is not None and len(p0) + reset_cost < len(plan):
                                    break
                        i = plan.pop(0)
                        if i not in graph.adj[n]:
                            plan = None
                            continue
                else:
                    plan = None
                    common = None
                    for n in S:
                        ks = set(graph.adj[n])
                        common = ks if common is None else common & ks
                    if not common:
                        break
                    common = sorted(common)
                    i = common[rng.randrange(len(common))]
                inp = graph.ins[i]
                got = sut.step(inp)
                stats.add("steps")
                path.append(inp)
                allowed = [(graph.outs[o], t) for n in S for (o, t) in graph.adj[n].get(i, [])]
                if len(S) == 1:
                    (n,) = S
                    if i in todo[n]:
                        todo[n][i] -= 1
                        if todo[n][i] <= 0:
                            del todo[n][i]
                            left -= 1
                nxt = {t for (o, t) in allowed if o == got}
                if len(S) == 1 and len(allowed) > 1:
                    (n,) = S
                    tries[(n, i)] = tries.get((n, i), 0) + 1
                    for t in nxt:
                        d = taken.setdefault((n, i), {})
                        d[t] = d.get(t, 0) + 1
                outs_seen.add(key(got) if len(outs_seen) < 100000 else "")
                hist.append((inp, got))
                if nxt:
                    if samples is not None and len(path) == 12 and len(samples) < 2:
                        samples.append([dict(i=a, o=b) for a, b in hist])
                    S = nxt
                    continue
                op = inp.get("op")
                foreign = False
                if broken(got):
                    foreign = not proj.crash_counts(op)
                else:
                    foreign = any(proj.same(got, o, op) for (o, t) in allowed)
                if foreign:
                    stats.add("foreign_mismatch")
                    break
                doc = dict(component=component, cfg=cfg, inputs=list(path), got=got, spec=spec_name,
                           want=[o for (o, t) in allowed][:20],
                           why="step %d %s: observed %s, allowed %s" % (
                               len(path), key(inp), key(got)[:1500], "; ".join(key(o) for (o, t) in allowed[:6])[:3000]))
                if confirm:
                    again = confirm_path(graph, component, cfg, path, proj, confirm, slow_env, env)
                    if not again:
                        stats.add("unconfirmed")
                        if os.environ.get("CONF_DEBUG"):
                            print("unconfirmed:", doc["why"][:1200], key(path)[:600], flush=True)
                        break
                    doc["confirmed"] = again
                raise Violation(doc)
            stats["longest_path"] = max(stats.get("longest_path", 0), len(path))
    finally:
        stats["pairs_total"] = stats.get("pairs_total", 0) + total
        stats["pairs_executed"] = stats.get("pairs_executed", 0) + total - left
        stats["states_not_chosen_by_code"] = stats.get("states_not_chosen_by_code", 0) + sum(
            1 for n, t in enumerate(todo) if t and n not in reached) if time.time() - t0 < budget_s else stats.get("states_not_chosen_by_code", 0)
        finished = left == 0 or time.time() - t0 < budget_s
        if shard is None:
            stats["states_visited_in_code"] = stats.get("states_visited_in_code", 0) + len(reached)
        else:
            stats["reached"] = list(reached)
        stats["distinct_observations"] = stats.get("distinct_observations", 0) + len(outs_seen)
        sut.close()
    return finished


def run_path(graph, sut, cfg, path, proj):
    """Replays a path; returns None when the specification allows everything observed."""
    o = sut.reset(cfg)
    if broken(o):
        return "reset: " + key(o)
    S = {graph.init}
    inkey = {key(x): n for n, x in enumerate(graph.ins)}
    for k, inp in enumerate(path):
        i = inkey.get(key(inp))
        got = sut.step(inp)
        allowed = [(graph.outs[o], t) for n in S for (o, t) in graph.adj[n].get(i, [])]
        nxt = {t for (o, t) in allowed if o == got}
        if not nxt:
            op = inp.get("op")
            if broken(got):
                bad = proj.crash_counts(op)
            else:
                bad = not any(proj.same(got, o, op) for (o, t) in allowed)
            return ("step %d: %s" % (k + 1, key(got)[:600])) if bad else None
        S = nxt
    return None


def confirm_path(graph, component, cfg, path, proj, tries, slow_env, env):
    """Real sockets: a mismatch counts only if it also shows when given much more time."""
    e = dict(env or {})
    e.update(slow_env or {"CONF_SLOW": "1"})
    for _ in range(tries):
        sut = Sut(component, e)
        try:
            r = run_path(graph, sut, cfg, path, proj)
        finally:
            sut.close()
        if r:
            return r
    return None


# ------------------------------------------------------------------ recorded traces -> TLC

TRACE_TLA = """---- MODULE Trace ----
EXTENDS %(module)s
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLE l
TInit == Init /\\ l = 1 /\\ TLCSet(1, 1)
NoInputs == {}
Matches(o) == %(match)s
TNext == /\\ l <= Len(Trace)
         /\\ l' = l + 1
         /\\ IF Trace[l].i.op = "reset" THEN Reset
            ELSE Step(Trace[l].i) /\\ Matches(Trace[l].o)
TView == <<View, l>>
tvars == <<vars, l>>
TSpec == TInit /\\ [][TNext]_tvars
Progress == TLCSet(1, IF TLCGet(1) < l THEN l ELSE TLCGet(1))
%(extra)s
Accepted == IF TLCGet(1) = Len(Trace) + 1 THEN TRUE ELSE PrintT("REJECTED " \\o ToString(TLCGet(1))) /\\ FALSE
====
"""


def validate(module, consts, events, props=(), timeout=600, heap="6g", extra="", overrides=(), match="out' = o"):
    """Returns (accepted lines, distinct states, text); accepted == len(events) when all is well.
    `extra`: definitions added to the trace module, `overrides`: cfg operator substitutions."""
    d = spec_dir()
    try:
        with open(os.path.join(d, "trace.ndjson"), "w") as f:
            for e in events:
                f.write(json.dumps(dict(i=e["i"], o=e["o"])) + "\n")
        with open(os.path.join(d, "Trace.tla"), "w") as f:
            f.write(TRACE_TLA % dict(module=module, match=match, extra=extra))
        with open(os.path.join(d, "Trace.cfg"), "w") as f:
            f.write("CONSTANTS\n" + "\n".join(const_line(*kv) for kv in consts.items()) +
                    "".join("\n  %s <- %s" % kv for kv in [("Inputs", "NoInputs")] + list(overrides)) +
                    "\nSPECIFICATION TSpec\nVIEW TView\nCONSTRAINT Progress\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n")
            if props:
                f.write("PROPERTIES %s\n" % " ".join(props))
        rc, out = run_tlc("Trace.tla", "Trace.cfg", d, timeout=timeout, heap=heap)
        text = tail(out, 1000)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", text)
        if re.search(r"(Action property|Invariant|Temporal properties?) .*violated", errors(out) + text):
            raise ToolError("a specification property fails on a recorded trace of %s:\n%s" % (module, errors(out) + text[-3000:]))
        if "REJECTED" in text:
            l = int(re.search(r"REJECTED (\d+)", text).group(1))
            if l - 1 < len(events) and events[l - 1]["i"]["op"] == "reset":
                # a reset is always possible: TLC itself gave up
                raise ToolError("TLC failed on a recorded trace of %s (rc %d):\n%s" % (module, rc, errors(out) + text[-3000:]))
            return l - 1, int(m.group(2)) if m else 0, text
        if rc != 0 or not m:
            raise ToolError("TLC failed on a recorded trace of %s (rc %d):\n%s" % (module, rc, text))
        return len(events), int(m.group(2)), text
    finally:
        shutil.rmtree(d, ignore_errors=True)


def record(component, cfg, gens, env=None, stats=None, reset_event=True):
    """Drives the code with generated histories and returns the recorded events.
    gens: iterable of generators; each is a coroutine receiving observations."""
    events = []
    sut = Sut(component, env)
    try:
        for g in gens:
            if not sut.alive():
                sut.close()
                sut = Sut(component, env)
            o = sut.reset(cfg)
            events.append(dict(i={"op": "reset"}, o={"op": "reset"} if not broken(o) else o))
            if callable(g):
                # can be driven again, with other answers of the code
                events[-1]["again"], g = g, g()
            if broken(o):
                continue
            try:
                inp = next(g)
                while True:
                    got = sut.step(inp)
                    if stats is not None:
                        stats.add("steps")
                    events.append(dict(i=inp, o=got))
                    if broken(got):
                        break
                    inp = g.send(got)
            except StopIteration:
                pass
    finally:
        sut.close()
    return events


def iter_gen(inputs):
    for i in inputs:
        yield i


def check_traces(module, consts, component, cfg, gens, props=(), env=None, stats=None, proj=Proj(), timeout=600,
                 events=None, extra="", overrides=(), match="out' = o", confirm=0):
    """Records histories of the real code and lets TLC decide whether they are behaviours."""
    stats = stats if stats is not None else Stats()
    if events is None:
        events = record(component, cfg, gens, env, stats)
    hist_start = 0
    for n, e in enumerate(events):
        if e["i"]["op"] == "reset":
            hist_start = n
        if broken(e["o"]):
            if proj.crash_counts(e["i"]["op"]):
                raise Violation(dict(component=component, cfg=cfg, spec=module, consts=consts,
                                     inputs=[x["i"] for x in events[hist_start + 1:n + 1]], got=e["o"],
                                     why="the code under test failed: %s" % key(e["o"])[:1000]))
    # crashed steps that belong to another property: drop them (they end a history)
    events = [e for e in events if not broken(e["o"])]
    while True:
        acc, states, text = validate(module, consts, events, props, timeout, extra=extra, overrides=overrides, match=match)
        stats.add("trace_events_checked", len(events))
        stats.add("trace_states", states)
        if acc == len(events):
            stats.add("traces_validated", sum(1 for e in events if e["i"]["op"] == "reset"))
            return
        bad = events[acc]
        start = max(n for n in range(acc + 1) if events[n]["i"]["op"] == "reset")
        end = next((n for n in range(acc + 1, len(events)) if events[n]["i"]["op"] == "reset"), len(events))
        foreign = proj.ops is not None and bad["i"]["op"] not in proj.ops
        if not foreign and confirm:
            # real sockets: the same inputs again, with much more time for everything
            for _ in range(confirm):
                again = record(component, cfg, [events[start].get("again") or iter_gen([x["i"] for x in events[start + 1:acc + 1]])],
                               dict(env or {}, CONF_SLOW="1"))
                if any(broken(e["o"]) for e in again) or \
                        validate(module, consts, again, (), timeout, extra=extra, overrides=overrides, match=match)[0] < len(again):
                    break
            else:
                stats.add("unconfirmed")
                if os.environ.get("CONF_DEBUG"):
                    print("unconfirmed:", acc - start, key(bad)[:1500], flush=True)
                foreign = True
        if not foreign:
            doc = dict(component=component, cfg=cfg, spec=module, consts=consts,
                       inputs=[x["i"] for x in events[start + 1:acc + 1]],
                       trace=[dict(i=e["i"], o=e["o"]) for e in events[start:acc + 1][-60:]], got=bad["o"],
                       why="TLC rejects the recorded step %s -> %s" % (key(bad["i"])[:1000], key(bad["o"])[:1500]))
            raise Violation(doc)
        stats.add("foreign_mismatch")
        events = events[:start] + events[end:]
        if not events:
            return


# ------------------------------------------------------------------ concurrent histories

LIN_TLA = """---- MODULE Lin ----
EXTENDS %(module)s
NoInputs == {}
Hists == ndJsonDeserialize("hists.ndjson")
VARIABLES h, done
H == Hists[h].ops
LInit == Init /\\ h = 1 /\\ done = {} /\\ TLCSet(1, 1)
Ready(k) == k \\notin done /\\ \\A j \\in (1..Len(H)) \\ done : ~(H[j].e < H[k].s)
Take1 == /\\ h <= Len(Hists)
         /\\ \\E k \\in 1..Len(H) : Ready(k) /\\ Step(H[k].i) /\\ out' = H[k].o /\\ done' = done \\cup {k}
         /\\ h' = h
NextH == /\\ h <= Len(Hists)
         /\\ done = 1..Len(H)
         /\\ h' = h + 1 /\\ done' = {} /\\ Reset
LNext == Take1 \\/ NextH
lvars == <<vars, h, done>>
LView == <<View, h, done>>
LSpec == LInit /\\ [][LNext]_lvars
Progress == TLCSet(1, IF TLCGet(1) < h THEN h ELSE TLCGet(1))
Accepted == IF TLCGet(1) = Len(Hists) + 1 THEN TRUE ELSE PrintT("REJECTED " \\o ToString(TLCGet(1))) /\\ FALSE
====
"""


def linearizable(module, consts, hists, timeout=600, stats=None):
    """Each history: list of {i, o, s, e} with start/end stamps. None, or the index of a bad one."""
    d = spec_dir()
    try:
        with open(os.path.join(d, "hists.ndjson"), "w") as f:
            for h in hists:
                f.write(json.dumps({"ops": h}) + "\n")
        with open(os.path.join(d, "Lin.tla"), "w") as f:
            f.write(LIN_TLA % dict(module=module))
        with open(os.path.join(d, "Lin.cfg"), "w") as f:
            f.write("CONSTANTS\n" + "\n".join(const_line(*kv) for kv in consts.items()) +
                    "\n  Inputs <- NoInputs\nSPECIFICATION LSpec\nVIEW LView\nCONSTRAINT Progress\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n")
        rc, out = run_tlc("Lin.tla", "Lin.cfg", d, timeout=timeout)
        text = tail(out, 1000)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", text)
        if stats is not None and m:
            stats.add("lin_states", int(m.group(2)))
        if "REJECTED" in text:
            return int(re.search(r"REJECTED (\d+)", text).group(1)) - 1
        if rc != 0 or not m:
            raise ToolError("TLC failed on concurrent histories of %s (rc %d):\n%s" % (module, rc, text))
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------ check runner

class Check:
    """Collects the evidence of one property's check."""

    def __init__(self, pid):
        self.pid = pid
        self.rng = random.Random(SEED * 1000003 + int(pid[1:]))
        self.quick = TIER != "thorough"
        self.stats = Stats()
        self.models = []
        self.samples = []
        self.exhaustive = True
        self.notes = []
        self.t0 = time.time()

    def graph(self, module, cfg, component, hcfg, budget_s, proj=Proj(), **kw):
        g = Graph(module, cfg)
        full = explore(g, component, hcfg, self.rng, budget_s, proj, stats=self.stats, spec_name=module,
                       samples=self.samples, **kw)
        self.models.append(dict(spec=module, cfg=cfg, states=g.distinct, transitions=g.edges, tlc_s=round(g.tlc_s, 1),
                                all_inputs_in_all_states_executed=full))
        self.exhaustive &= full
        return g

    def traces(self, module, consts, component, hcfg, gens, **kw):
        check_traces(module, consts, component, hcfg, gens, stats=self.stats, **kw)

    def concurrent(self, module, consts, component, scenarios, reps, env=None, cfg=None, max_hists=4000):
        """Truly concurrent calls; TLC decides whether each history has a legal sequential order."""
        sut = Sut(component, env)
        hists, where = [], []
        try:
            for prefix, threads in scenarios:
                o = sut.reset(cfg or {})
                o = sut.step(dict(op="conc", prefix=prefix, threads=threads, reps=reps, cfg=cfg or {}))
                doc = dict(component=component, cfg=cfg or {}, inputs=[dict(op="conc", prefix=prefix, threads=threads, reps=reps, cfg=cfg or {})])
                if broken(o):
                    raise Violation(dict(doc, got=o, why="concurrent calls failed: " + key(o)))
                self.stats.add("lin_runs", reps)
                for h in o["hists"]:
                    for e in h:
                        if e["o"].get("op") == "panic":
                            raise Violation(dict(doc, got=h, why="a concurrent call panicked: %s" % key(e["i"])))
                    hists.append(h)
                    where.append(doc)
        finally:
            sut.close()
        if len(hists) > max_hists:
            pick = sorted(self.rng.sample(range(len(hists)), max_hists))
            hists, where = [hists[k] for k in pick], [where[k] for k in pick]
        self.stats.add("lin_histories", len(hists))
        bad = linearizable(module, consts, hists, stats=self.stats)
        if bad is not None:
            raise Violation(dict(where[bad], spec=module, consts=consts, got=hists[bad],
                                 why="no sequential order of these concurrent calls is allowed: %s" % key(hists[bad])[:2500]))

    def evidence(self, violations):
        s = self.stats
        cov = dict(
            states=sum(m["states"] for m in self.models),
            transitions=sum(m["transitions"] for m in self.models),
            traces_validated_against_impl=s.get("paths", 0) + s.get("traces_validated", 0) + s.get("lin_histories", 0),
            evaluations=s.get("steps", 0),
            distinct_nontrivial=s.get("pairs_executed", 0) + s.get("lin_histories", 0),
            rule="one evaluation = one input executed by the real code and judged by the specification; "
                 "distinct = different (specification state, input) pairs executed, plus distinct concurrent histories",
            models=self.models, engine=dict(s), samples=self.samples[:3] or ["(no sample)"],
            exhaustive=bool(self.exhaustive and self.models),
        )
        if self.notes:
            cov["notes"] = self.notes
        doc = dict(property=self.pid, tier=TIER, seed=SEED, level="model_checking", coverage=cov,
                   wall_s=round(time.time() - self.t0, 2), violations=violations)
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as f:
            json.dump(doc, f, indent=1)


def known_findings(pid):
    path = os.path.join(ROOT, "known_findings.jsonl")
    res = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("{"):
                e = json.loads(line)
                if e.get("status") == "known" and e["property"] == pid:
                    res.append(e)
    return res


def run_check(pid, fn):
    c = Check(pid)
    try:
        build()
        try:
            fn(c)
        except Violation as v:
            os.makedirs(os.path.join(OUT, "replay"), exist_ok=True)
            path = os.path.join(OUT, "replay", "%s-%s.json" % (pid, hashlib.sha1(key(v.doc).encode()).hexdigest()[:10]))
            v.doc["property"] = pid
            with open(path, "w") as f:
                json.dump(v.doc, f, indent=1)
            c.evidence(1)
            print("%s: %s" % (pid, v.doc.get("why", "")[:3000]))
            print("inputs: %s" % key(v.doc.get("inputs", []))[-2500:])
            print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
            return 1
        if c.stats.get("pairs_total", 0) and not c.stats.get("pairs_executed", 0):
            raise ToolError("nothing was executed")
        c.evidence(0)
        for e in known_findings(pid):
            print("KNOWN-FINDING: property=%s %s" % (pid, e["what"]))
        s = c.stats
        print("%s held: %d spec states, %d transitions; %d/%d (state,input) pairs run, %d steps, %d recorded events validated, %.1fs%s" % (
            pid, sum(m["states"] for m in c.models), sum(m["transitions"] for m in c.models), s.get("pairs_executed", 0),
            s.get("pairs_total", 0), s.get("steps", 0), s.get("trace_events_checked", 0), time.time() - c.t0,
            " foreign=%d unconfirmed=%d" % (s.get("foreign_mismatch", 0), s.get("unconfirmed", 0))))
        return 0
    except ToolError as e:
        print("%s: check error: %s" % (pid, e), file=sys.stderr)
        return 2
    except subprocess.TimeoutExpired as e:
        print("%s: timeout: %s" % (pid, e), file=sys.stderr)
        return 2
