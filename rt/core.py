"""Monitoring runtime: guarded calls into the real code, verdicts, evidence.

A *unit* is one workload + online monitor for (part of) one property.  Every call a unit makes into
the code under test goes through Ctx.call/Ctx.take/Ctx.outcome, which

  * records the event (label, arguments) and counts it,
  * checks that mutable arguments are unchanged afterwards (unless the call is declared a mutator),
  * turns an exception on an in-domain input into a violation,
  * bounds progress: after CPU_LIMIT CPU seconds inside one call a step counter (sys.monitoring:
    backward jumps, function starts, generator resumptions) is switched on *in place*; a call that
    then makes STEP_LIMIT further steps without returning is a violation.  The verdict rests on the
    step count; the wall-clock watchdog in the parent only ever produces "inconclusive".
"""
import copy
import hashlib
import json
import mmap
import os
import random
import resource
import signal
import sys
import time
import traceback

REPO = os.environ.get("RT_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

CPU_LIMIT = float(os.environ.get("RT_CPU_LIMIT", "12"))
STEP_LIMIT = int(os.environ.get("RT_STEP_LIMIT", "20000000"))
CALL_DEPTH = int(os.environ.get("RT_CALL_DEPTH", "1000"))      # the interpreter's default recursion limit
IDLE = float(os.environ.get("RT_IDLE", "30"))       # CPU seconds between looks at what runs outside the guarded calls
REPO_PREFIX = (os.path.realpath(REPO) + os.sep, os.path.abspath(REPO) + os.sep)
HARD_CPU = float(os.environ.get("RT_HARD_CPU", "150"))
SHARED = None       # the worker's current call, readable by the parent

UNITS = {}          # property -> list of Unit


class Unit:
    def __init__(self, prop, name, fn, shards):
        self.prop, self.name, self.fn, self.shards = prop, name, fn, shards


def unit(prop, name=None, shards=1):
    def deco(fn):
        UNITS.setdefault(prop, []).append(Unit(prop, name or fn.__name__, fn, shards))
        return fn
    return deco


class Violation(Exception):
    def __init__(self, message, label, witness):
        Exception.__init__(self, message)
        self.message, self.label, self.witness = message, label, witness


class Harness(Exception):
    """The harness could not decide."""


class StepLimit(BaseException):
    pass


# ---------------------------------------------------------------- bounded progress
def on_stack(frame):
    f = sys._getframe(1)
    while f is not None and f is not frame:
        f = f.f_back
    return f is not None


class Progress:
    TOOL = 3

    def __init__(self):
        self.steps = 0
        self.active = False
        self.armed = False
        self.inside, self.samples = None, 0
        signal.signal(signal.SIGPROF, self._fire)
        signal.setitimer(signal.ITIMER_PROF, IDLE)

    def _idle(self, frame):
        """No guarded call is running.  Library code may still run: the methods of an object that a monitor reads.
        It is stuck when one and the same activation of it is met again and again; then count its steps."""
        outermost = None
        while frame is not None:
            if frame.f_code.co_filename.startswith(REPO_PREFIX):
                outermost = frame
            frame = frame.f_back
        same = outermost is not None and outermost is self.inside
        self.inside = outermost
        self.samples = self.samples + 1 if same else 0
        signal.setitimer(signal.ITIMER_PROF, IDLE if outermost is None else CPU_LIMIT)
        return self.samples >= 3

    def _fire(self, signum, frame):
        if self.active:
            return
        if not self.armed:
            if not self._idle(frame):
                return
            self.armed = True
        mon = sys.monitoring
        ev = mon.events
        self.steps = 0
        self.active = True
        mon.use_tool_id(self.TOOL, "rt-steps")

        def step(*_):
            self.steps += 1
            if self.steps > STEP_LIMIT and self.armed:
                if self.inside is not None and not on_stack(self.inside):
                    self.stop()                 # it did return
                    return
                self.armed = False          # raise once
                raise StepLimit()

        for e in (ev.JUMP, ev.PY_START, ev.PY_RESUME, ev.BRANCH):
            mon.register_callback(self.TOOL, e, step)
        mon.set_events(self.TOOL, ev.JUMP | ev.PY_START | ev.PY_RESUME | ev.BRANCH)

    def start(self):
        self.inside = None
        self.armed = True
        signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
        # a single interpreter operation (e.g. a huge integer power) cannot be counted or
        # interrupted: the kernel ends the worker after HARD_CPU user CPU seconds in one call
        signal.setitimer(signal.ITIMER_VIRTUAL, HARD_CPU)

    def stop(self):
        self.armed = False
        self.inside = None
        signal.setitimer(signal.ITIMER_PROF, IDLE)
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        if self.active:
            mon = sys.monitoring
            mon.set_events(self.TOOL, 0)
            mon.free_tool_id(self.TOOL)
            self.active = False


# ---------------------------------------------------------------- snapshots
ATOM = (int, float, str, bytes, bool, complex, type(None), frozenset)


def snap(x, depth=0):
    """A structural value of x that two snapshots can be compared by; cheap for atoms."""
    if isinstance(x, ATOM):
        return x
    if depth > 8:
        return None
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snap(y, depth + 1) for y in x])
    if isinstance(x, dict):
        return (type(x).__name__, [(snap(k, depth + 1), snap(v, depth + 1)) for k, v in x.items()])
    if isinstance(x, set):
        return ("set", frozenset(repr(e) for e in x))
    if callable(x) and not hasattr(x, "__dict__"):
        return None
    if hasattr(x, "__dict__") and type(x).__module__.startswith("rosemary"):
        # only the observable edge/entry data, sorted: lazily cached attributes are not observable
        try:
            return observe_object(x, depth)
        except Exception:
            return None
    return None


def observe_object(x, depth=0):
    name = type(x).__name__
    if hasattr(x, "graph_dict"):
        return ("graph", {u: {v: snap(w, depth + 1) for v, w in nb.items()}
                          for u, nb in x.graph_dict.items()})
    if hasattr(x, "coefficients"):
        c = x.coefficients
        return ("poly", list(c() if callable(c) else c), getattr(x, "variable", None))
    if name == "Matrix":
        try:
            return ("matrix", x.num_rows, x.num_cols,
                    [[x[i, j] for j in range(x.num_cols)] for i in range(x.num_rows)])
        except Exception:
            return ("matrix", repr(x))
    return None


def show(args):
    """Arguments with the library's opaque objects spelled out."""
    return tuple(snap(a) if hasattr(a, "graph_dict") else a for a in args)


def short(x, n=600):
    try:
        s = repr(x)
    except Exception as e:
        s = "<unprintable %s: %s>" % (type(x).__name__, type(e).__name__)
    return s if len(s) <= n else s[:n] + "...<%d chars>" % len(s)


# repetitions of the random workloads in the quick tier, so that cheap properties use their time too
SCALE = {"N01": 16, "N02": 10, "N03": 6, "N04": 4, "N05": 4, "N07": 4, "N08": 1, "N09": 1, "N10": 4, "N11": 6,
         "N13": 8, "N15": 4, "N16": 10, "N17": 8, "A01": 4, "A03": 4, "C01": 16, "C02": 8, "C03": 4, "C04": 4,
         "C06": 4, "D01": 8, "D02": 6, "D03": 8, "G02": 8, "G07": 6, "X02": 8}


# ---------------------------------------------------------------- context
class Ctx:
    def __init__(self, prop, name, seed, tier, shard, shards):
        self.prop, self.name, self.seed, self.tier = prop, name, seed, tier
        self.shard, self.shards = shard, shards
        self.rng = random.Random("%s|%s|%s|%d" % (seed, prop, name, shard))
        self.thorough = tier == "thorough"
        self.evals = 0
        self.takes = 0
        self.checks = 0
        self.distinct = set()
        self.samples = []
        self.counters = {}
        self.known = {}
        self.progress = Progress()
        self.last = None
        self.sub = None

    # scale a workload size by tier
    def n(self, quick, thorough=None):
        if self.thorough:
            return quick * max(16, 8 * SCALE.get(self.prop, 2)) if thorough is None else thorough
        return quick * SCALE.get(self.prop, 2) if thorough is None else quick

    def mine(self, i):
        return i % self.shards == self.shard

    def count(self, key, k=1):
        self.counters[key] = self.counters.get(key, 0) + k

    def _enter(self, label, args, kw):
        self.evals += 1
        self.last = (label, args, kw)
        c = self.counters
        c[label] = c.get(label, 0) + 1
        try:
            key = repr((label, show(args), kw)) if len(args) < 6 else label
            if SHARED is not None:
                b = key[:1800].encode("utf8", "replace")[:2000]
                SHARED[:len(b) + 1] = b + b"\0"
            if len(key) > 2000:
                key = hashlib.md5(key.encode()).hexdigest()
            self.distinct.add(hash(key))
        except Exception:
            pass
        if len(self.samples) < 3 and (c[label] in (1, 7)):
            self.samples.append("%s%s" % (label, short(args, 160)))

    def fail(self, message, label=None, witness=None):
        if label is None and self.last is not None:
            label = self.last[0]
        if witness is None and self.last is not None:
            witness = {"args": short(show(self.last[1]), 4000), "kwargs": short(self.last[2], 1000)}
        raise Violation(message, label or self.name, witness)

    def _guard(self, label, fn, args, kw, mutates, drain=None):
        self._enter(label, args, kw)
        random.seed(self.evals * 1000003 + self.seed) if self.evals % 8 == 1 else None
        before = None
        if not mutates:
            before = [snap(a) for a in args]
            if kw:
                before.append(snap(kw))
        sys.setrecursionlimit(CALL_DEPTH)
        self.progress.start()
        try:
            r = fn(*args, **kw)
            if drain is not None:
                r = drain(r)
        except StepLimit:
            self.progress.stop()
            self.fail("no return within the progress bound (%.0f CPU s, then %d further steps)"
                      % (CPU_LIMIT, STEP_LIMIT), label)
        finally:
            self.progress.stop()
            sys.setrecursionlimit(20000)        # the oracles may recurse deeper
        if not mutates:
            after = [snap(a) for a in args]
            if kw:
                after.append(snap(kw))
            if before != after:
                self.fail("the call changed its argument(s): before %s after %s"
                          % (short(before), short(after)), label)
        return r

    def call(self, label, fn, *args, **kw):
        """Call in-domain: an exception is a violation."""
        mutates = kw.pop("_mutates", False)
        try:
            return self._guard(label, fn, args, kw, mutates)
        except Violation:
            raise
        except Harness:
            raise
        except Exception as e:
            self.fail("unexpected %s: %s\n%s" % (type(e).__name__, e, tail_tb()), label)

    def outcome(self, label, fn, *args, **kw):
        """('ok', value) or ('raise', exception)."""
        mutates = kw.pop("_mutates", False)
        try:
            return ("ok", self._guard(label, fn, args, kw, mutates))
        except (Violation, Harness):
            raise
        except Exception as e:
            return ("raise", e)

    def raises(self, label, exc, fn, *args, **kw):
        o, v = self.outcome(label, fn, *args, **kw)
        self.checks += 1
        if o != "raise" or not isinstance(v, exc):
            self.fail("expected %s, got %s" % (exc, short((o, v))), label)

    def take(self, label, limit, fn, *args, **kw):
        """Drain an iterator (at most limit items) produced by fn."""
        mutates = kw.pop("_mutates", False)

        def drain(it):
            out, kept = [], []
            for x in it:
                if isinstance(x, (list, dict, set)):
                    kept.append((len(out), x))
                    x = copy.copy(x)
                out.append(x)
                if len(out) >= limit:
                    break
            for i, x in kept:
                if x != out[i]:
                    self.fail("item %d changed after it was handed out: it was %s and became %s"
                              % (i, short(out[i]), short(x)), label)
            return out

        def clobber(it):
            """A consumer that empties every container it is given, after recording it."""
            out = []
            for x in it:
                if isinstance(x, (list, dict, set)):
                    y = copy.copy(x)
                    x.clear()
                    x = y
                out.append(x)
                if len(out) >= limit:
                    break
            return out
        try:
            got = self._guard(label, fn, args, kw, mutates, drain)
            self.takes += 1
            if not mutates and self.takes % 4 == 0 and any(isinstance(x, (list, dict, set)) for x in got):
                again = self._guard(label + "/clobber", fn, args, kw, mutates, clobber)
                if again != got:
                    self.fail("the items handed out share state with the iteration: %s, but %s if each is emptied "
                              "by the consumer" % (short(got), short(again)), label)
            return got
        except (Violation, Harness):
            raise
        except Exception as e:
            self.fail("unexpected %s: %s\n%s" % (type(e).__name__, e, tail_tb()), label)

    def check(self, cond, message="", *vals):
        self.checks += 1
        if not cond:
            self.fail(message + (" " + " | ".join(short(v) for v in vals) if vals else ""))

    def eq(self, got, want, message=""):
        self.checks += 1
        if type(got) is float or type(want) is float:
            ok = got == want
        else:
            ok = got == want
        if not ok:
            self.fail("%s got %s want %s" % (message, short(got), short(want)))

    def known_finding(self, key, detail):
        self.known.setdefault(key, detail)


def safe_short(x):
    try:
        return short(show(x) if isinstance(x, tuple) else x, 4000)
    except Exception as e:
        return "<unprintable: %s>" % type(e).__name__


def tail_tb():
    return "".join(traceback.format_exc().splitlines(True)[-6:])


# ---------------------------------------------------------------- code reached
class Reached:
    """The lines of the code under test that this worker executed (each costs one callback)."""
    TOOL = 4

    def __init__(self):
        self.lines = {}
        root = os.path.realpath(REPO) + os.sep
        mon = sys.monitoring
        mon.use_tool_id(self.TOOL, "rt-lines")

        def line(code, no):
            f = code.co_filename
            if f.startswith(root):
                self.lines.setdefault(f[len(root):], set()).add(no)
            return mon.DISABLE
        mon.register_callback(self.TOOL, mon.events.LINE, line)
        mon.set_events(self.TOOL, mon.events.LINE)

    def result(self):
        sys.monitoring.set_events(self.TOOL, 0)
        return {f: sorted(v) for f, v in self.lines.items()}


# ---------------------------------------------------------------- running
def run_unit(u, seed, tier, shard):
    t0 = time.time()
    sys.stdout = open(os.devnull, "w")
    sys.setrecursionlimit(20000)
    random.seed(seed * 7919 + shard)
    ctx = Ctx(u.prop, u.name, seed, tier, shard, u.shards)
    res = {"unit": u.name, "shard": shard, "status": "held"}
    reached = Reached()
    try:
        u.fn(ctx)
    except Violation as v:
        res.update(status="violated", message=v.message, label=v.label, witness=v.witness)
    except (TypeError, ValueError, LookupError, AttributeError, ArithmeticError, RecursionError,
            NotImplementedError, AssertionError) as e:
        # The monitor could not read a result as the documented kind of value (None for a list, a
        # pair of the wrong length, a __repr__ or comparison that raises, ...).
        if ctx.last is None:
            res.update(status="inconclusive", message="%s: %s" % (type(e).__name__, e), tb=traceback.format_exc())
        else:
            label, args, kw = ctx.last
            res.update(status="violated", label=label,
                       message="the result cannot be read as documented (%s: %s)\n%s" % (type(e).__name__, e, tail_tb()),
                       witness={"args": safe_short(args), "kwargs": safe_short(kw)})
    except StepLimit:
        label, args, kw = ctx.last or (u.name, (), {})
        res.update(status="violated", label=label,
                   message="reading the result does not return within the progress bound (%d further steps)\n%s"
                   % (STEP_LIMIT, tail_tb()),
                   witness={"args": safe_short(args), "kwargs": safe_short(kw)})
    except BaseException as e:                      # harness trouble: inconclusive
        res.update(status="inconclusive", message="%s: %s" % (type(e).__name__, e),
                   tb=traceback.format_exc())
    res.update(evals=ctx.evals, checks=ctx.checks, distinct=len(ctx.distinct), samples=ctx.samples,
               counters=ctx.counters, known=ctx.known, lines=reached.result(), wall=round(time.time() - t0, 2))
    if res["status"] == "held" and (ctx.evals == 0 or ctx.checks == 0):
        res.update(status="inconclusive", message="the monitor observed nothing")
    return res


def spawn(u, seed, tier, shard):
    global SHARED
    r, w = os.pipe()
    mem = mmap.mmap(-1, 4096)
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            SHARED = mem
            signal.signal(signal.SIGVTALRM, signal.SIG_DFL)
            lim = 3 << 30
            resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            res = run_unit(u, seed, tier, shard)
            try:
                data = json.dumps(res, default=repr).encode()
            except Exception:
                data = json.dumps({"unit": u.name, "shard": shard, "status": "inconclusive",
                                   "message": "unserialisable result", "tb": traceback.format_exc(),
                                   "evals": 0, "checks": 0, "distinct": 0, "samples": [],
                                   "counters": {}, "known": {}, "wall": 0}).encode()
            with os.fdopen(w, "wb") as f:
                f.write(data)
        finally:
            os._exit(0)
    os.close(w)
    return pid, r, mem


FAILFAST = bool(os.environ.get("RT_FAILFAST"))      # stop at the first violation (used by tools/mutate.py)


def run_property(prop, seed, tier, jobs=8, only=None, wall_limit=None, shard=None):
    units = [u for u in UNITS.get(prop, []) if only is None or u.name == only]
    tasks = [(u, s) for u in units for s in range(u.shards) if shard is None or s == shard]
    wall_limit = wall_limit or (780 if tier == "quick" else 5400)
    t0 = time.time()
    results, running = [], {}
    import select
    pending = list(tasks)
    while pending or running:
        while pending and len(running) < jobs:
            u, s = pending.pop(0)
            pid, r, mem = spawn(u, seed, tier, s)
            running[r] = (pid, u, s, [], mem)
        ready, _, _ = select.select(list(running), [], [], 1.0)
        for r in ready:
            pid, u, s, buf, mem = running[r]
            b = os.read(r, 1 << 20)
            if b:
                buf.append(b)
                continue
            os.close(r)
            status = os.waitpid(pid, 0)[1]
            del running[r]
            last = bytes(mem).split(b"\0")[0].decode("utf8", "replace")
            mem.close()
            try:
                results.append(json.loads(b"".join(buf)))
                if FAILFAST and results[-1]["status"] == "violated":
                    pending, jobs = [], 0
                    for r2 in list(running):
                        pid2, u2, s2, b2, mem2 = running.pop(r2)
                        os.kill(pid2, signal.SIGKILL)
                        os.waitpid(pid2, 0)
                        os.close(r2)
                    break
            except ValueError:
                if os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGVTALRM:
                    results.append({"unit": u.name, "shard": s, "status": "violated", "label": "(progress)",
                                    "message": "one call used %d CPU seconds without returning and without "
                                    "reaching a point where it could be interrupted" % HARD_CPU,
                                    "witness": {"call": last}, "evals": 1, "checks": 1, "distinct": 1,
                                    "samples": [last], "counters": {}, "known": {}, "wall": HARD_CPU})
                    continue
                results.append({"unit": u.name, "shard": s, "status": "inconclusive",
                                "message": "worker died without a verdict", "evals": 0, "checks": 0,
                                "distinct": 0, "samples": [], "counters": {}, "known": {}, "wall": 0})
        if time.time() - t0 > wall_limit:
            for r, (pid, u, s, buf, mem) in running.items():
                try:
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                except OSError:
                    pass
                results.append({"unit": u.name, "shard": s, "status": "inconclusive",
                                "message": "wall-clock watchdog", "evals": 0, "checks": 0,
                                "distinct": 0, "samples": [], "counters": {}, "known": {},
                                "wall": wall_limit})
            break
    return results, time.time() - t0
