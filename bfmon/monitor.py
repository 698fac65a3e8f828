"""The monitor: what a case of a check sees (Ctx), how events are counted and how verdicts are reached.

A check module declares
    ID, RULE          property id, and one sentence on how cases are made / what makes one non-trivial
    SECTIONS          list of (name, fn(ctx, rng, i), quick_n, thorough_n)
    REQUIRE           {event: minimum}: a run that observed less is inconclusive, never "held"
Every call into bitforge goes through ctx.call/ok/raises, at the boundary a user sees, and is counted as an
event (operation, outcome).  The oracle compares with independent models (bfmon.ref) or with the property itself.
"""
import collections, os, signal, sys, traceback, hashlib
from time import monotonic, process_time        # bound early: C07 replaces the clock


MEMORY = 3 << 30             # address space of a worker: no input here needs a fraction of it


class Violation(Exception):
    pass


class Hang(BaseException):
    pass


class Inconclusive(BaseException):
    pass


class Outcome:
    __slots__ = ('ok', 'value', 'exc')

    def __init__(self, ok, value, exc):
        self.ok, self.value, self.exc = ok, value, exc

    def __repr__(self):
        return 'returned ' + short(self.value) if self.ok else 'raised ' + describe(self.exc)


def short(v, n=300):
    try:
        if isinstance(v, (bytes, bytearray)):
            s = '%s(%d):%s' % (type(v).__name__, len(v), bytes(v[:120]).hex())
        else:
            s = repr(v)
    except Exception as e:
        s = '<unprintable %s: %r>' % (type(v).__name__, e)
    return s if len(s) <= n else s[:n] + '...(%d)' % len(s)


def describe(e):
    try:
        return '%s.%s: %s' % (type(e).__module__, type(e).__qualname__, str(e)[:200])
    except Exception as x:
        return '%s (unprintable: %r)' % (type(e).__qualname__, x)


class Ctx:
    def __init__(self, pid, seed, tier, worker, nworkers, findings, scale=1.0):
        self.pid, self.seed, self.tier, self.worker, self.nworkers = pid, seed, tier, worker, nworkers
        self.scale = scale
        self.findings = findings            # {finding id: text} listed for this property
        self.events = collections.Counter()
        self.distinct = set()
        self.samples = []
        self.known = collections.Counter()
        self.evaluations = 0
        self.calls = 0                      # progress counter for the watchdog
        self.state = {}                     # free per-worker storage of a check
        self.trail = collections.deque(maxlen=12)
        self.section = None
        self.index = None
        self.pulse = None                   # tells the parent process whether a library call is running

    # -- observing the code under test ----------------------------------------------------------
    def call(self, name, fn, *a, **k):
        self.calls += 1
        self.trail.append((name, a, k))
        if self.pulse is not None:
            self.pulse(1)
        try:
            v = fn(*a, **k)
        except Exception as e:
            if isinstance(e, MemoryError):
                raise Violation('%s(%s) ran out of the %d MB a worker has' % (name, self._args(a, k), MEMORY >> 20))
            self.events[name + '!' + type(e).__name__] += 1
            self.calls += 1
            return Outcome(False, None, e)
        finally:
            if self.pulse is not None:
                self.pulse(0)
        self.events[name] += 1
        self.calls += 1
        return Outcome(True, v, None)

    def ok(self, name, fn, *a, **k):
        o = self.call(name, fn, *a, **k)
        if not o.ok:
            self.fail('%s(%s) raised %s' % (name, self._args(a, k), describe(o.exc)))
        return o.value

    def raises(self, types, name, fn, *a, **k):
        o = self.call(name, fn, *a, **k)
        if o.ok:
            self.fail('%s(%s) returned %s, expected an error' % (name, self._args(a, k), short(o.value)))
        if types is not None and not isinstance(o.exc, types):
            self.fail('%s(%s) raised %s, expected %s' % (name, self._args(a, k), describe(o.exc),
                      getattr(types, '__qualname__', types)))
        return o.exc

    @staticmethod
    def _args(a, k):
        return ', '.join([short(x) for x in a] + ['%s=%s' % (n, short(v)) for n, v in k.items()])

    # -- oracle ---------------------------------------------------------------------------------
    def fail(self, msg):
        raise Violation(msg)

    def eq(self, got, want, what):
        if type(got) is bytearray or type(want) is bytearray:
            same = isinstance(got, (bytes, bytearray)) and bytes(got) == bytes(want)
        else:
            same = got == want
        if not same:
            self.fail('%s: got %s, expected %s' % (what, short(got), short(want)))

    def true(self, cond, what):
        if not cond:
            self.fail(what)

    def event(self, name, n=1):
        self.events[name] += n

    def seen(self, *key):
        """A distinct non-trivial case (by RULE)."""
        self.distinct.add(hashlib.blake2b(repr(key).encode('utf8', 'surrogatepass'), digest_size=8).digest())

    def sample(self, **kw):
        if len(self.samples) < 2:
            self.samples.append({k: short(v, 160) for k, v in kw.items()})

    def finding(self, fid, msg):
        """A violation explained by a listed finding; unlisted ones are violations."""
        if fid not in self.findings:
            self.fail(msg)
        self.known[fid] += 1


# ---- watchdog -------------------------------------------------------------------------------------

class Watchdog:
    """Decides 'does not terminate' on logical steps, not on the clock.

    A library call that is still running after GRACE seconds is from then on counted in executed bitforge lines:
    MAXLINES more lines in the same call is a violation.  A call that neither executes lines nor uses CPU for several
    ticks is blocked: a violation too (nothing in this library may wait).  What neither of these sees (a single
    bytecode that never ends) is decided by the parent process, in CPU seconds of the worker (run.Pulse)."""
    TICK, GRACE, MAXLINES = 5.0, 30.0, 40000000
    TOOL = 4

    def __init__(self, ctx, root):
        self.ctx, self.root = ctx, root
        self.last = None
        self.t0 = self.cpu = 0
        self.lines = 0
        self.counting = False
        self.idle = 0

    def start(self):
        signal.signal(signal.SIGALRM, self.tick)
        signal.setitimer(signal.ITIMER_REAL, self.TICK, self.TICK)

    def stop(self):
        signal.setitimer(signal.ITIMER_REAL, 0)
        self.uncount()

    def count(self):
        mon = sys.monitoring
        if mon.get_tool(self.TOOL) is None:
            mon.use_tool_id(self.TOOL, 'bfmon-hang')
        mon.register_callback(self.TOOL, mon.events.LINE, self.line)
        mon.set_events(self.TOOL, mon.events.LINE)
        mon.restart_events()
        self.counting, self.lines = True, 0

    def uncount(self):
        if self.counting:
            sys.monitoring.set_events(self.TOOL, 0)
            self.counting = False

    def line(self, code, line):
        if not code.co_filename.startswith(self.root):
            return sys.monitoring.DISABLE
        self.lines += 1
        if self.lines > self.MAXLINES:
            self.uncount()
            raise Hang('still running after %d executed lines (at %s:%d)' % (
                self.MAXLINES, code.co_filename[len(self.root):], line))

    def tick(self, sig, frame):
        key = (self.ctx.section, self.ctx.index, self.ctx.calls)
        now, cpu = monotonic(), process_time()
        if key != self.last:
            self.last, self.t0, self.cpu, self.idle = key, now, cpu, 0
            self.uncount()
            return
        f, inside = frame, False
        while f is not None:
            if f.f_code.co_filename.startswith(self.root):
                inside = True
                break
            f = f.f_back
        if now - self.t0 < self.GRACE:
            self.cpu_prev = cpu
            return
        if inside:
            if cpu - getattr(self, 'cpu_prev', cpu) < 0.02:
                self.idle += 1
                if self.idle >= 6:
                    raise Hang('blocked: no progress and no CPU use for %d s' % (self.idle * self.TICK))
            else:
                self.idle = 0
            self.cpu_prev = cpu
            if not self.counting:
                self.count()


class Coverage:
    """Executed lines of the code under test (each line reported once, then disabled: no steady cost)."""
    TOOL = 3

    def __init__(self, root):
        self.root, self.lines = root, set()

    def start(self):
        mon = sys.monitoring
        if mon.get_tool(self.TOOL) is None:
            mon.use_tool_id(self.TOOL, 'bfmon-cov')
        mon.register_callback(self.TOOL, mon.events.LINE, self.line)
        mon.set_events(self.TOOL, mon.events.LINE)

    def line(self, code, line):
        if code.co_filename.startswith(self.root):
            self.lines.add((code.co_filename[len(self.root):], line))
        return sys.monitoring.DISABLE
