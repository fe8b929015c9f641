"""Shared machinery of the checks: model checking of a specification with TLC, schedules taken from
TLC's state graph, replay of schedules into the real code, validation by TLC of what the real code
did, evidence, verdict.

A subsystem is specified by /verif/specs/<Module>.tla, which defines (see DESIGN.md):
    Configs, Inputs(s), S0(cfg), Apply(s, name, args), Obs(s), Match(s, o), Inv(s), StepOK(s, in, t),
    Bound(s), View(s)
Inputs(s) is a set of macro steps, each a sequence of actions <<name, args>>.
The two wrappers below (MC: exhaustive exploration, TR: trace validation) use the same definitions.
"""
import collections
import concurrent.futures
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time

import build as B

VERIF = B.VERIF
SPECS = os.path.join(VERIF, "specs")
WORK = os.path.join(B.OUT, "work")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
THOROUGH = TIER == "thorough"

MC = r"""---- MODULE MC ----
EXTENDS %(mod)s, TLC, TLCExt, Json
%(vals)s
VARIABLES st, act
RECURSIVE Fold(_, _)
Fold(s, is) == IF is = <<>> THEN s ELSE Fold(Apply(s, is[1][1], is[1][2]), Tail(is))
RECURSIVE FoldOK(_, _)
FoldOK(s, is) == IF is = <<>> THEN TRUE
                 ELSE LET t == Apply(s, is[1][1], is[1][2])
                      IN StepOK(s, is[1], t) /\ FoldOK(t, Tail(is))
MCInit == \E c \in Configs : st = S0(c) /\ act = << <<"Init", c>> >>
MCNext == \E i \in Inputs(st) : st' = Fold(st, i) /\ act' = i
MCSpec == MCInit /\ [][MCNext]_<<st, act>>
MCView == View(st)
MCInv == Inv(st)
MCStep == [][act'[1][1] = "Init" \/ FoldOK(st, act')]_<<st, act>>
MCBound == Bound(st)
MCEmit == IF %(emit)s THEN PrintT(ToJson(<<"E", TLCFP(View(st)), act, TLCFP(View(st')), act'>>)) ELSE TRUE
====
"""
MCCFG = """SPECIFICATION MCSpec
VIEW MCView
INVARIANT MCInv
PROPERTY MCStep
CONSTRAINT MCBound
ACTION_CONSTRAINT MCEmit
CHECK_DEADLOCK FALSE
"""
TR = """---- MODULE TR ----
EXTENDS %(mod)s, TLC, Json, IOUtils, Sequences
%(vals)s
VARIABLES st, l
TRTrace == ndJsonDeserialize(IOEnv.TRACE_FILE)
TRSay(x) == PrintT(ToJson(x))
TRInit == l = 1 /\\ st = S0(TRTrace[1].a)
TRFits(s, e) == IF Match(s, e.o) THEN TRUE ELSE TRSay(<<"MISMATCH", l, Obs(s)>>) /\\ FALSE
TRHolds(s) == IF Inv(s) THEN TRUE ELSE TRSay(<<"INVARIANT", l>>) /\\ FALSE
TRSteps(s, e, t) == IF StepOK(s, <<e.e, e.a>>, t) THEN TRUE ELSE TRSay(<<"STEP", l>>) /\\ FALSE
TRNext == /\\ l <= Len(TRTrace)
          /\\ LET e == TRTrace[l]
                 t == IF e.e = "Init" THEN S0(e.a) ELSE Apply(st, e.e, e.a)
             IN /\\ TRFits(t, e)
                /\\ TRHolds(t)
                /\\ (e.e = "Init" \\/ TRSteps(st, e, t))
                /\\ st' = %(absorb)s
          /\\ l' = l + 1
TRSpec == TRInit /\\ [][TRNext]_<<st, l>>
TRAccepted == LET d == TLCGet("stats").diameter IN
            IF d - 1 = Len(TRTrace) THEN TRSay(<<"ACCEPTED", Len(TRTrace)>>) ELSE TRSay(<<"REJECTED", d>>)
====
"""
TRCFG = """SPECIFICATION TRSpec
POSTCONDITION TRAccepted
CHECK_DEADLOCK FALSE
"""


class CheckError(Exception):
    """The machinery failed: neither a pass nor a violation."""


def tlc(workdir, module, workers=1, heap="3g", timeout=840, env=None, extra=()):
    args = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss64m", "-cp", CP,
            "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(workdir, "meta"),
            "-noGenerateSpecTE", "-config", module + ".cfg"] + list(extra) + [module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    out = os.path.join(workdir, module + ".out")
    with open(out, "w") as f:
        try:
            p = subprocess.run(args, cwd=workdir, stdout=f, stderr=subprocess.STDOUT, timeout=timeout, env=e)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out after %ds in %s" % (timeout, workdir))
    return rc, out


def tail(path, n=40):
    with open(path, errors="replace") as f:
        return "".join(f.readlines()[-n:])


def values(consts):
    return "\n".join("Val_%s == %s" % kv for kv in sorted((consts or {}).items()))


def absorb(module):
    """A specification may take over what was observed, where it is the code's choice: Absorb(s, o)."""
    with open(os.path.join(SPECS, module + ".tla")) as f:
        return "Absorb(t, e.o)" if re.search(r"^Absorb\(", f.read(), re.M) else "t"


def unquote(line):
    """A string printed by PrintT: TLA+ quotes around JSON text."""
    if len(line) > 1 and line[0] == '"' and line[-1] == '"':
        return line[1:-1].replace('\\"', '"').replace("\\\\", "\\")
    return None


class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.dir = os.path.join(WORK, prop)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.states = self.transitions = self.traces = self.events = 0
        self.specs, self.samples, self.notes, self.known = [], [], [], []
        self.actions = collections.Counter()
        self.violation = None
        self.assumptions = []

    # ---- specification ------------------------------------------------------------------------
    def workdir(self, name, module):
        d = os.path.join(self.dir, name)
        os.makedirs(d, exist_ok=True)
        for f in os.listdir(SPECS):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPECS, f), d)
        return d

    def model_check(self, module, consts=None, emit=True, workers=None, heap="6g", timeout=800, name=None):
        """Explores the specification exhaustively; returns the labelled edges of its state graph."""
        d = self.workdir(name or ("mc_" + module), module)
        with open(os.path.join(d, "MC.tla"), "w") as f:
            f.write(MC % {"mod": module, "emit": "TRUE" if emit else "FALSE", "vals": values(consts)})
        with open(os.path.join(d, "MC.cfg"), "w") as f:
            f.write(MCCFG)
            for k, v in (consts or {}).items():
                f.write("CONSTANT %s <- Val_%s\n" % (k, k))
        rc, out = tlc(d, "MC", workers or 4, heap, timeout)
        edges = []
        ok = False
        with open(out, errors="replace") as f:
            for line in f:
                line = line.rstrip("\n")
                if line.startswith('"['):
                    e = json.loads(unquote(line))
                    if e[0] == "E":
                        edges.append((e[1], tuplify(e[2]), e[3], tuplify(e[4])))
                elif line.startswith("Model checking completed. No error"):
                    ok = True
                else:
                    m = re.match(r"(\d+) states generated, (\d+) distinct states found", line)
                    if m:
                        gen, dist = int(m.group(1)), int(m.group(2))
        if not ok:
            raise CheckError("the specification %s does not satisfy its properties, or TLC failed (rc %d):\n%s"
                             % (module, rc, tail(out)))
        self.states += dist
        self.transitions += gen
        self.specs.append({"module": module, "constants": consts or {}, "distinct_states": dist,
                           "states_generated": gen, "edges_emitted": len(edges)})
        shutil.rmtree(d, ignore_errors=True)
        return edges

    def plain_tlc(self, module, cfg=None, workers=4, heap="6g", timeout=800, name=None):
        """Runs a self-contained model (with its own .cfg in /verif/specs), e.g. for liveness."""
        d = self.workdir(name or ("pl_" + module), module)
        shutil.copy(os.path.join(SPECS, (cfg or module) + ".cfg"), os.path.join(d, module + ".cfg"))
        rc, out = tlc(d, module, workers, heap, timeout)
        txt = open(out, errors="replace").read()
        if "Model checking completed. No error" not in txt:
            raise CheckError("model %s failed (rc %d):\n%s" % (module, rc, tail(out)))
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", txt)[-1]
        self.states += int(m[1])
        self.transitions += int(m[0])
        self.specs.append({"module": module, "config": cfg or module, "distinct_states": int(m[1]),
                           "states_generated": int(m[0])})
        shutil.rmtree(d, ignore_errors=True)

    # ---- schedules ----------------------------------------------------------------------------
    def tours(self, edges, max_len=80, limit=None):
        """Paths from initial states that together take every edge of the graph (or `limit` edges,
        chosen with the seed)."""
        inits, succ = {}, collections.defaultdict(list)
        for a, la, b, lb in edges:
            if la[0][0] == "Init":
                inits.setdefault(a, la)
            succ[a].append((b, lb))
        uniq = 0
        todo = collections.defaultdict(list)
        for a in succ:
            s = sorted(set(succ[a]), key=repr)
            succ[a] = s
            todo[a] = list(s)
            uniq += len(s)
        rng = random.Random(SEED)
        for a in todo:
            rng.shuffle(todo[a])
        # shortest path tree from the initial states
        parent, order = {}, collections.deque()
        for a in sorted(inits, key=repr):
            parent[a] = None
            order.append(a)
        bfs = []
        while order:
            a = order.popleft()
            bfs.append(a)
            for b, lb in succ[a]:
                if b not in parent:
                    parent[b] = (a, lb)
                    order.append(b)

        def prefix(a):
            p = []
            while parent[a] is not None:
                q, lb = parent[a]
                p.append(lb)
                a = q
            return [inits[a]] + p[::-1]

        left = uniq if limit is None else min(limit, uniq)
        paths = []
        starts = bfs if limit is None or limit >= uniq else rng.sample(bfs, len(bfs))
        for a in starts:
            while todo.get(a) and left > 0:
                path = prefix(a)
                cur, n = a, 0
                while n < max_len:
                    if todo.get(cur):
                        b, lb = todo[cur].pop()
                        left -= 1
                        path.append(lb)
                        cur = b
                    else:
                        hop = self._nearest(succ, todo, cur, 4)
                        if hop is None:
                            break
                        for b, lb in hop:
                            path.append(lb)
                            cur = b
                    n += 1
                    if left <= 0:
                        break
                paths.append([x for macro in path for x in macro])
            if left <= 0:
                break
        return paths, uniq

    @staticmethod
    def _nearest(succ, todo, a, depth):
        seen, q = {a}, collections.deque([(a, [])])
        while q:
            x, p = q.popleft()
            if p and todo.get(x):
                return p
            if len(p) >= depth:
                continue
            for b, lb in succ.get(x, ()):
                if b not in seen:
                    seen.add(b)
                    q.append((b, p + [(b, lb)]))
            if len(seen) > 400:
                return None
        return None

    # ---- real code ----------------------------------------------------------------------------
    def run_harness(self, exe, script, cwd=None, timeout=120):
        """Feeds the script to the harness; returns its output lines, or raises HarnessDied."""
        text = "\n".join(" ".join([n] + [str(x) for x in flat(a)]) for n, a in script) + "\n"
        try:
            p = subprocess.run([exe], input=text.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               timeout=timeout, cwd=cwd or self.dir)
        except subprocess.TimeoutExpired:
            raise HarnessDied("hangs (no answer within %d s)" % timeout)
        if p.returncode == 3:
            raise CheckError("harness %s refused its script: %s" % (exe, p.stderr.decode()[-800:]))
        if p.returncode != 0:
            raise HarnessDied("dies with status %d: %s" % (p.returncode, p.stderr.decode(errors="replace")[-400:]))
        return p.stdout.decode().splitlines()

    # ---- conformance --------------------------------------------------------------------------
    def validate(self, module, path, consts=None, tag="tr", heap="3g", timeout=600):
        """TLC decides whether the trace in `path` is a behaviour of the specification.
        Returns None, or (1-based line, reason, expected observation)."""
        d = self.workdir(tag + "_" + module, module)
        with open(os.path.join(d, "TR.tla"), "w") as f:
            f.write(TR % {"mod": module, "vals": values(consts), "absorb": absorb(module)})
        with open(os.path.join(d, "TR.cfg"), "w") as f:
            f.write(TRCFG)
            for k, v in (consts or {}).items():
                f.write("CONSTANT %s <- Val_%s\n" % (k, k))
        rc, out = tlc(d, "TR", 1, heap, timeout, env={"TRACE_FILE": os.path.abspath(path)})
        bad, verdict, why = None, None, []
        with open(out, errors="replace") as f:
            for line in f:
                if line.startswith('"['):
                    v = json.loads(unquote(line.rstrip("\n")))
                    if v[0] in ("ACCEPTED", "REJECTED"):
                        verdict = v
                    else:
                        bad = v
                elif line.startswith('<<"WHY"'):
                    why.append(line.strip())
        if bad and why:
            bad = [bad[0] + " " + "; ".join(why)] + bad[1:]
        if verdict and verdict[0] == "ACCEPTED" and rc == 0:
            shutil.rmtree(d, ignore_errors=True)
            return None
        if verdict and verdict[0] == "REJECTED" and bad:
            shutil.rmtree(d, ignore_errors=True)
            return (bad[1], bad[0], bad[2] if len(bad) > 2 else None)
        with open(out, errors="replace") as f:
            txt = f.read()
        if os.environ.get("VF_DEBUG"):
            sys.stderr.write("\n".join(x for x in txt.splitlines() if "Error" in x or "line " in x or "verflow" in x)[:4000] + "\n")
        at = re.findall(r"^/\\ l = (\d+)|^l = (\d+)", txt, re.M)
        if at and ("Error: TLC threw an unexpected exception" in txt or "Error: Evaluating " in txt or "Overflow when computing" in txt) \
                and "OutOfMemory" not in txt and "StackOverflow" not in txt:
            # an observation the specification's arithmetic or types have no place for
            shutil.rmtree(d, ignore_errors=True)
            return (int(at[-1][0] or at[-1][1]), "OUTSIDE THE SPECIFICATION'S DOMAIN", None)
        raise CheckError("TLC could not validate %s (rc %d):\n%s" % (path, rc, tail(out, 60)))

    def conform(self, module, harness_exe, traces, consts=None, chunks=7, what="", timeout=600, heap="3g",
                hargs_timeout=200, keep=True):
        """Replays the schedules into the real code and has TLC validate the recorded behaviour.
        `traces`: list of schedules, each a list of (action, args), the first an Init."""
        if self.violation or not traces:
            return
        n = max(1, min(chunks, sum(len(t) for t in traces) // 400 + 1))
        parts = [[] for _ in range(n)]
        size = [0] * n
        for t in traces:
            i = size.index(min(size))
            parts[i].append(t)
            size[i] += len(t)
        parts = [p for p in parts if p]

        def one(i):
            ts = parts[i]
            script = [s for t in ts for s in t]
            path = os.path.join(self.dir, "%s_%s_%d.ndjson" % (module, what or "t", i))
            try:
                lines = self.run_harness(harness_exe, script, timeout=hargs_timeout)
            except HarnessDied as e:
                return i, ts, None, e
            if len(lines) != len(script):
                raise CheckError("harness answered %d lines to %d actions" % (len(lines), len(script)))
            with open(path, "w") as f:
                f.write("\n".join(lines) + "\n")
            return i, ts, lines, self.validate(module, path, consts, "tr%s%d" % (what, i), heap, timeout)

        with concurrent.futures.ThreadPoolExecutor(len(parts)) as ex:
            results = list(ex.map(one, range(len(parts))))
        for i, ts, lines, res in results:
            if res is None:
                self.traces += len(ts)
                self.events += len(lines)
                for t in ts:
                    for s in t:
                        self.actions[s[0]] += 1
                if len(self.samples) < 4:
                    t = max(ts[:20], key=len)
                    off = sum(len(x) for x in ts[:ts.index(t)])
                    self.samples.append({"module": module, "kind": what,
                                         "trace": [json.loads(x) for x in lines[off:off + 6]],
                                         "events_in_trace": len(t)})
            elif self.violation is None:
                self._reject(module, harness_exe, ts, lines, res, consts, what)

    def known_finding(self, key, module, exe, trace, consts, at):
        """A schedule on which the code is known to break the property at event `at` (listed in KNOWN_FINDINGS.txt under
        `key`). Reported as such while it does; any other rejection of the schedule is a violation."""
        if self.violation:
            return
        text = None
        with open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")) as f:
            for line in f:
                w = line.split(None, 3)
                if w[:3] == ["known:", "property=" + self.prop, key]:
                    text = w[3].strip()
        lines = self.run_harness(exe, trace, timeout=60)
        path = os.path.join(self.dir, "known_%s.ndjson" % key)
        with open(path, "w") as f:
            f.write("\n".join(lines) + "\n")
        res = self.validate(module, path, consts, "known_" + key)
        if res is None:
            self.traces += 1
            self.events += len(lines)
        elif text is not None and res[0] == at:
            self.known.append(text)
        else:
            self._reject(module, exe, [trace], lines, res, consts, "known_" + key)

    def _reject(self, module, exe, ts, lines, res, consts, what):
        """Isolates the schedule, repeats the rejection, writes the replay file."""
        if isinstance(res, HarnessDied):
            bad = None
            for t in ts:
                try:
                    self.run_harness(exe, t, timeout=60)
                except HarnessDied as e:
                    bad = (t, str(e))
                    break
            if bad is None:
                try:
                    self.run_harness(exe, [s for t in ts for s in t])
                    raise CheckError("the harness died once and not again: %s" % res)
                except HarnessDied as e:
                    bad = ([s for t in ts for s in t], str(e))
            self._violate(module, bad[0], None, "the code under test " + bad[1], None, None, what)
            return
        line = res[0]
        k, off = 0, 0
        while off + len(ts[k]) < line:
            off += len(ts[k])
            k += 1
        t = ts[k][:line - off]
        got = self.run_harness(exe, t, timeout=60)
        path = os.path.join(self.dir, "repeat.ndjson")
        with open(path, "w") as f:
            f.write("\n".join(got) + "\n")
        again = self.validate(module, path, consts, "again")
        if again is None:
            # state carried over from earlier schedules of the same run: repeat with them
            t = [s for x in ts[:k + 1] for s in x][:line]
            got = self.run_harness(exe, t)
            with open(path, "w") as f:
                f.write("\n".join(got) + "\n")
            again = self.validate(module, path, consts, "again")
            if again is None:
                raise CheckError("a rejection did not repeat: %s line %d" % (module, line))
        t = t[:again[0]]
        self._violate(module, t, got[:again[0]], again[1], again[2], json.loads(got[again[0] - 1]), what)

    def _violate(self, module, script, lines, reason, expected, got, what):
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s.json" % self.prop)
        with open(path, "w") as f:
            json.dump({"property": self.prop, "spec": module, "kind": what, "reason": reason,
                       "failing_event": got, "specification_expects": expected,
                       "difference": diff(expected, got.get("o")) if got and expected is not None else None,
                       "schedule": [[n, list(flat(a))] for n, a in script],
                       "recorded": lines[-6:] if lines else None}, f, indent=1)
        self.violation = path
        sys.stdout.write("%s: %s\n" % (module, reason))
        if got:
            sys.stdout.write("  event    %s\n" % json.dumps({"e": got["e"], "a": got["a"]}))
            if expected is not None:
                sys.stdout.write("  differs  %s\n" % json.dumps(diff(expected, got.get("o"))))

    # ---- end ----------------------------------------------------------------------------------
    def finish(self):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "events_validated_against_impl": self.events,
               "samples": self.samples, "specifications": self.specs,
               "events_by_action": dict(sorted(self.actions.items()))}
        if self.notes:
            cov["notes"] = self.notes
        ev = {"property": self.prop, "tier": TIER, "seed": SEED, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": 1 if self.violation else 0}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.dir, ignore_errors=True)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        if self.violation:
            print("VIOLATION property=%s replay=%s" % (self.prop, self.violation))
            return 1
        print("%s: held; %d states, %d transitions, %d traces (%d events) of the code validated in %.1f s"
              % (self.prop, self.states, self.transitions, self.traces, self.events, time.time() - self.t0))
        return 0


class HarnessDied(Exception):
    pass


def tuplify(x):
    return tuple(tuplify(y) for y in x) if isinstance(x, list) else x


def flat(a):
    for x in a:
        if isinstance(x, (list, tuple)):
            for y in flat(x):
                yield y
        else:
            yield (1 if x is True else 0 if x is False else x)


def diff(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return {k: {"spec": a.get(k), "code": b.get(k)} for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)}
    return {"spec": a, "code": b}
