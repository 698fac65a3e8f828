import gc, os, pickle, select, socket, subprocess, sys, threading, time
from ..lib import *
from .. import progs, pureops as po
from ..monitor import Hang, Inconclusive, short
from ..progs import Interpreter

ID = 'C20'
RULE = ('calls of about 40 operations on a small stock of related values, each compared with the result the same call gives as the only call of a pristine '
        'process: in long mixed histories, in 4 threads sharing objects with injected delays, after operations aborted at a random line, at the stack limit, '
        'in other ambient states, and on one reused interpreter; non-trivial: distinct (call, situation), or a distinct pair of lines between which threads switched')
ASSUMPTIONS = ['one interpreter instance is used by one thread at a time', 'aborts are exceptions raised between two lines of bitforge code or by the recursion limit',
               'threads are those of CPython 3.12 with the global interpreter lock']
ROOT = os.path.join(os.path.realpath(os.environ.get('BFMON_REPO', '/repo')), 'bitforge') + os.sep
TOOL = 5
mon = sys.monitoring


class Injected(Exception):
    pass


class InjectedBase(BaseException):
    pass


ABORTS = (KeyboardInterrupt, MemoryError, RecursionError, Injected, InjectedBase, TimeoutError, SystemExit, GeneratorExit)


def pristine(call):
    """The result of the call as the only library call of a process: this process must not have used the library yet."""
    r, w = os.pipe()
    p = os.fork()
    if p == 0:
        try:
            os.close(r)
            out = pickle.dumps(po.run(call, po.fresh))
            while out:
                out = out[os.write(w, out):]
        except BaseException:
            pass
        finally:
            os._exit(0)
    os.close(w)
    data, t0 = b'', time.monotonic()
    while True:
        ready = select.select([r], [], [], 1.0)[0]
        if ready:
            b = os.read(r, 65536)
            if not b:
                break
            data += b
        elif time.monotonic() - t0 > 120:
            os.kill(p, 9)
            os.waitpid(p, 0)
            raise Inconclusive('a pristine call of %s took more than 120 s' % call[0])
    os.close(r)
    os.waitpid(p, 0)
    if not data:
        raise Inconclusive('a pristine call of %s gave nothing' % call[0])
    return pickle.loads(data)


class Zygote:
    """A process that never uses the library itself: each request runs in a fresh fork of it, so first uses can be watched."""
    def __init__(self):
        a, b = socket.socketpair()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                a.close()
                self.serve(b)
            except BaseException:
                pass
            finally:
                os._exit(0)
        b.close()
        self.sock = a

    @staticmethod
    def send(s, obj):
        data = pickle.dumps(obj)
        s.sendall(len(data).to_bytes(4, 'big') + data)

    @staticmethod
    def recv(s):
        def take(n):
            out = b''
            while len(out) < n:
                b = s.recv(n - len(out))
                if not b:
                    raise EOFError
                out += b
            return out
        return pickle.loads(take(int.from_bytes(take(4), 'big')))

    def serve(self, s):
        while True:
            req = self.recv(s)
            p = os.fork()
            if p == 0:
                try:
                    self.send(s, cold_run(*req))
                except BaseException as e:
                    try:
                        self.send(s, ('failed', '%s: %s' % (type(e).__name__, e)))
                    except BaseException:
                        pass
                finally:
                    os._exit(0)
            os.waitpid(p, 0)

    def ask(self, *req):
        self.send(self.sock, req)
        self.sock.settimeout(150)
        try:
            return self.recv(self.sock)
        except (socket.timeout, EOFError):
            os.kill(self.pid, 9)
            raise Inconclusive('a cold run gave no answer')


def cold_run(kind, plans, seed, par):
    """In a pristine process.  threads: the plans run at the same time; aborts: the first call is aborted, the rest follow."""
    rng = __import__('random').Random(seed)
    sh = po.Shared() if rng.random() < .6 else po.fresh
    if kind == 'aborts':
        where = []
        for call, at, exc in plans[0]:
            with Abort(at, [e for e in ABORTS if e.__name__ == exc][0]) as a:
                try:
                    po.run(call, sh)
                except BaseException:
                    pass
            where.append(a.where)
        return 'aborts', [[po.run(c, sh) for c in plans[1]]], where, 0
    results = [[] for _ in plans]
    barrier = threading.Barrier(len(plans))

    def body(t):
        try:
            barrier.wait()
            for c in plans[t]:
                results[t].append(po.run(c, sh))
        except BaseException as e:
            results[t].append(('thread ended', '%s: %s' % (type(e).__name__, e)))
    ts = [threading.Thread(target=body, args=(t,), daemon=True) for t in range(len(plans))]
    with Delays(rng, par, None) as d:
        for t in ts:
            t.start()
        try:
            wait(None, ts, d)
        except Hang as e:
            return 'hang', str(e), [], 0
    return 'threads', results, [tuple(y[len(ROOT):] if isinstance(y, str) else y for y in x) for x in d.pairs], d.switches


def cold(ctx, rng, i):
    """First uses of the library in a process: in several threads at once, or aborted at a random line."""
    st, z = ctx.state, ctx.state['zygote']
    calls = st['calls']
    k = draw(ctx, rng, .2)
    heavy = calls[k][0] in po.HEAVY
    if i % 3:
        nt = rng.choice((2, 3, 4))
        if rng.random() < .6:
            plans = [[k] + ([] if heavy else related(ctx, rng, k, rng.randrange(3))) for _ in range(nt)]
        else:
            plans = [[rng.choice(st['byname'][calls[k][0]])] + ([] if heavy else [rng.choice(st['light'])]) for _ in range(nt)]
        plans = [[j for j in p if calls[j][0] not in po.HEAVY] or p[:1] for p in plans] if not heavy else plans
        gap = rng.choice((400, 1500)) if heavy else rng.choice((1, 2, 4, 8, 30, 100))
        r = z.ask('threads', [[calls[j] for j in p] for p in plans], rng.random(), gap)
        where = 'as the first calls of a process, in %d threads' % nt
    else:
        n = nlines(ctx, k, po.fresh)
        if n == 0:
            return
        ab = []
        for _ in range(rng.randrange(1, 4)):
            at = rng.choice((rng.randrange(1, n + 1), rng.randrange(1, min(n, 40) + 1), max(1, n - rng.randrange(20))))
            ab.append((calls[k], at, rng.choice(ABORTS).__name__))
        plans = [[k] + [j for j in related(ctx, rng, k, 3) if calls[j][0] not in po.HEAVY]]
        r = z.ask('aborts', [ab, [calls[j] for j in plans[0]]], rng.random(), 0)
        where = 'after the first call of a process was aborted'
    if r[0] == 'hang':
        raise Hang(r[1])
    if r[0] == 'failed':
        raise Inconclusive('cold run: ' + r[1])
    for p, res in zip(plans, r[1]):
        if len(res) != len(p):
            ctx.fail('a thread running %s ended early: %s' % ([calls[x][0] for x in p], short(res)))
        for j, got in zip(p, res):
            compare(ctx, j, got, where)
    ctx.calls += sum(map(len, plans))
    ctx.event('cold runs: ' + r[0])
    ctx.event('cold thread switches', r[3])
    for x in r[2]:
        ctx.seen('cold', x)


def setup(ctx):
    rng = __import__('random').Random('%d/%d/world' % (ctx.seed, ctx.worker))
    quick = ctx.tier == 'quick'
    ctx.state['zygote'] = Zygote()
    w = po.World(rng)
    calls, seen = [], set()
    for name, (f, weight) in po.OPS.items():
        for _ in range((weight * 8 if name not in po.HEAVY else 7) * (1 if quick else 2)):
            c = po.make(name, w, rng)
            both = [c]
            if rng.random() < .5 and c[1]:      # the same call but for one argument
                j = rng.randrange(len(c[1]))
                both.append((name, c[1][:j] + (po.make(name, w, rng)[1][j],) + c[1][j + 1:]))
            for c in both:
                if repr(c) not in seen:
                    seen.add(repr(c))
                    calls.append(c)
    ctx.state['world'] = w
    golden = [pristine(c) for c in calls]
    ctx.state.update(calls=calls, golden=golden, light=[i for i, c in enumerate(calls) if c[0] not in po.HEAVY], heavy=[i for i, c in enumerate(calls) if c[0] in po.HEAVY],
                     byname={}, shared=po.Shared(), lock=threading.Lock())
    for i, c in enumerate(calls):
        ctx.state['byname'].setdefault(c[0], []).append(i)
    ctx.event('pristine results', len(golden))


def draw(ctx, rng, heavy=.1):
    st = ctx.state
    k = rng.random()
    if k < .5:
        return rng.choice(st['heavy'] if rng.random() < heavy else st['light'])
    names = [n for n in st['byname'] if (n in po.HEAVY) == (rng.random() < heavy)] or list(st['byname'])
    return rng.choice(st['byname'][rng.choice(names)])


def related(ctx, rng, i, n):
    """Calls of the same operation with other arguments, and of others."""
    name = ctx.state['calls'][i][0]
    return [rng.choice(ctx.state['byname'][name]) if rng.random() < .6 else rng.choice(ctx.state['light']) for _ in range(n)]


def check(ctx, i, sh, where):
    got = po.run(ctx.state['calls'][i], sh)
    ctx.calls += 1
    compare(ctx, i, got, where)


def compare(ctx, i, got, where):
    want = ctx.state['golden'][i]
    if got != want:
        name, a = ctx.state['calls'][i]
        ctx.fail('%s(%s) gave %s %s; as the only call of a process it gives %s' % (name, ', '.join(short(x, 120) for x in a), short(got, 600), where, short(want, 600)))
    ctx.event(where + ': ' + ctx.state['calls'][i][0])
    ctx.seen(where, i, ctx.worker)


def history(ctx, rng, i):
    sh = rng.choice((po.fresh, ctx.state['shared'], po.Shared()))
    first = draw(ctx, rng)
    todo = [first] + related(ctx, rng, first, rng.randrange(3)) + [draw(ctx, rng, .05) for _ in range(12)]
    rng.shuffle(todo)
    todo += todo[:2]
    for k in todo:
        check(ctx, k, sh, 'in a history')
    ctx.sample(calls=[ctx.state['calls'][k][0] for k in todo])


def heavies(ctx, rng, i):
    """The expensive operations: several calls of one of them, and of one more, with arguments that differ in one place."""
    sh = rng.choice((po.fresh, po.Shared()))
    names = rng.sample([n for n in ctx.state['byname'] if n in po.HEAVY], 2)
    todo = [k for n in names for k in ctx.state['byname'][n]]
    todo = rng.sample(todo, min(10, len(todo)))
    for k in todo:
        check(ctx, k, sh, 'in a history')


# -- threads -------------------------------------------------------------------------------------------------

class Delays:
    """Line events of bitforge code: random delays at random lines, and a record of the thread switches seen."""
    def __init__(self, rng, gap, files):
        self.rng, self.gap, self.files = rng, gap, files
        self.n = self.next = 0
        self.last = None
        self.pairs, self.switches, self.lines = set(), 0, 0

    def line(self, code, line):
        f = code.co_filename
        if not f.startswith(ROOT):
            return mon.DISABLE
        t = threading.get_ident()
        self.lines += 1
        last = self.last
        if last is not None and last[0] != t:
            self.switches += 1
            if len(self.pairs) < 4000:
                self.pairs.add((last[1], last[2], f, line))
        self.last = (t, f, line)
        self.n += 1
        if self.n >= self.next and (self.files is None or f in self.files):
            self.next = self.n + self.rng.expovariate(1 / self.gap)
            time.sleep(self.rng.choice((0, 0, 0, 1e-5, 1e-4, 5e-4)))
            self.last = (t, f, line)

    def __enter__(self):
        if mon.get_tool(TOOL) is None:
            mon.use_tool_id(TOOL, 'bfmon-c20')
        mon.register_callback(TOOL, mon.events.LINE, self.line)
        mon.set_events(TOOL, mon.events.LINE)
        mon.restart_events()
        self.interval = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        return self

    def __exit__(self, *a):
        sys.setswitchinterval(self.interval)
        mon.set_events(TOOL, 0)
        mon.register_callback(TOOL, mon.events.LINE, None)


FILES = sorted(os.path.join(d, f) for d, _, fs in os.walk(ROOT) for f in fs if f.endswith('.py'))


def threads(ctx, rng, i):
    """4 threads; the same or related calls at the same time on the same objects."""
    nt = rng.choice((2, 3, 4, 4))
    sh = rng.choice((ctx.state['shared'], ctx.state['shared'], po.fresh))
    first = draw(ctx, rng, .12)
    mode = rng.randrange(4)
    plans = []
    for t in range(nt):
        if mode == 0:
            p = [first] * (1 if ctx.state['calls'][first][0] in po.HEAVY else rng.randrange(3, 10))
        elif mode == 1:
            p = related(ctx, rng, first, 6)
            heavy = [k for k in p if ctx.state['calls'][k][0] in po.HEAVY]
            p = [k for k in p if k not in heavy] + heavy[:1]
        else:
            p = [rng.choice(ctx.state['light']) for _ in range(8)] + ([draw(ctx, rng, 1)] if rng.random() < .3 else [])
        rng.shuffle(p)
        plans.append(p)
    results = [[] for _ in plans]
    barrier = threading.Barrier(nt)

    def body(t):
        try:
            barrier.wait()
            for k in plans[t]:
                results[t].append((k, po.run(ctx.state['calls'][k], sh)))
        except BaseException as e:
            results[t].append((None, '%s: %s' % (type(e).__name__, e)))

    ts = [threading.Thread(target=body, args=(t,), daemon=True) for t in range(nt)]
    gap = rng.choice((2, 8, 30, 200, 1500))
    heavies = sum(ctx.state['calls'][k][0] in po.HEAVY for p in plans for k in p)
    if heavies:
        gap = max(gap, 400)
    files = None if rng.random() < .5 else set(rng.sample(FILES, 1 + rng.randrange(4)))
    with Delays(rng, gap, files) as d:
        for t in ts:
            t.start()
        wait(ctx, ts, d)
    for t, p in enumerate(plans):
        for k, got in results[t]:
            if k is None:
                ctx.fail('a thread running %s ended with %s' % ([ctx.state['calls'][x][0] for x in p], got))
            compare(ctx, k, got, 'in one of %d threads' % nt)
    # and afterwards
    for k in {k for p in plans for k in p}:
        if ctx.state['calls'][k][0] not in po.HEAVY or rng.random() < .1:
            check(ctx, k, sh, 'after threads')
    ctx.event('thread switches', d.switches)
    ctx.event('lines under threads', d.lines)
    for x in d.pairs:
        ctx.seen('switch', [y[len(ROOT):] if isinstance(y, str) else y for y in x])


def wait(ctx, ts, d):
    t0 = time.monotonic()
    last, since = None, t0
    while any(t.is_alive() for t in ts):
        for t in ts:
            t.join(.05)
        now = time.monotonic()
        mark = d.lines
        if mark != last or time.process_time() - getattr(d, 'cpu', 0) > .2:
            last, since, d.cpu = mark, now, time.process_time()
        if now - since > 25:
            raise Hang('%d threads are blocked: no line executed and no CPU used for 25 s' % sum(t.is_alive() for t in ts))
        if now - t0 > 200:
            raise Inconclusive('threads took more than 200 s')


# -- aborts ------------------------------------------------------------------------------------------------------

class Abort:
    """Counts bitforge lines; raises exc at the at-th one."""
    def __init__(self, at=None, exc=None):
        self.n, self.at, self.exc, self.where = 0, at, exc, None

    def line(self, code, line):
        if not code.co_filename.startswith(ROOT):
            return mon.DISABLE
        self.n += 1
        if self.n == self.at:
            self.where = '%s:%d' % (code.co_filename[len(ROOT):], line)
            mon.set_events(TOOL, 0)
            raise self.exc('injected')

    def __enter__(self):
        if mon.get_tool(TOOL) is None:
            mon.use_tool_id(TOOL, 'bfmon-c20')
        mon.register_callback(TOOL, mon.events.LINE, self.line)
        mon.set_events(TOOL, mon.events.LINE)
        mon.restart_events()
        return self

    def __exit__(self, *a):
        mon.set_events(TOOL, 0)
        mon.register_callback(TOOL, mon.events.LINE, None)


def nlines(ctx, k, sh):
    memo = ctx.state.setdefault('nlines', {})
    if k not in memo:
        with Abort() as a:
            po.run(ctx.state['calls'][k], sh)
        memo[k] = a.n
    return memo[k]


def aborted(ctx, rng, i):
    k = draw(ctx, rng, .06)
    sh = rng.choice((po.fresh, ctx.state['shared'], ctx.state['shared'], po.Shared()))
    for _ in range(1 if ctx.state['calls'][k][0] in po.HEAVY else rng.randrange(1, 5)):
        n = nlines(ctx, k, sh)
        if n == 0:
            return
        exc = rng.choice(ABORTS)
        at = rng.choice((rng.randrange(1, n + 1), rng.randrange(1, min(n, 40) + 1), max(1, n - rng.randrange(20))))
        with Abort(at, exc) as a:
            try:
                po.run(ctx.state['calls'][k], sh)
                ctx.event('abort absorbed')
            except BaseException as e:
                if isinstance(e, (Hang, Inconclusive)):
                    raise
                ctx.event('aborted by ' + type(e).__name__)
        if a.where:
            ctx.seen('abort', a.where, exc.__name__)
    for j in [k] + related(ctx, rng, k, 3):
        if ctx.state['calls'][j][0] not in po.HEAVY or j == k:
            check(ctx, j, sh, 'after an aborted call')
    if rng.random() < .3:
        check(ctx, k, po.fresh, 'after an aborted call')


def depth():
    f, n = sys._getframe(), 0
    while f:
        f, n = f.f_back, n + 1
    return n


def stacklimit(ctx, rng, i):
    """Calls that run into the recursion limit, then the same calls again."""
    k = rng.choice(ctx.state['light'])
    sh = rng.choice((po.fresh, ctx.state['shared']))
    limit = sys.getrecursionlimit()
    sys.setrecursionlimit(depth() + rng.randrange(3, 16))
    try:
        po.run(ctx.state['calls'][k], sh)
        ok = True
    except RecursionError:
        ok = False
    except BaseException as e:
        ok = False
    finally:
        sys.setrecursionlimit(limit)
    ctx.event('no stack left' if not ok else 'enough stack')
    for j in [k] + related(ctx, rng, k, 2):
        if ctx.state['calls'][j][0] not in po.HEAVY:
            check(ctx, j, sh, 'after running out of stack')


# -- other ambient states -----------------------------------------------------------------------------------------------

def ambient(ctx, rng, i):
    import decimal, random
    k = rng.randrange(6)
    old = decimal.getcontext().copy()
    sw = sys.getswitchinterval()
    try:
        if k == 0:
            decimal.getcontext().prec = rng.choice((1, 3, 9))
            decimal.getcontext().rounding = rng.choice((decimal.ROUND_UP, decimal.ROUND_FLOOR))
            name = 'decimal context'
        elif k == 1:
            decimal.getcontext().traps[decimal.Inexact] = True
            decimal.getcontext().traps[decimal.Rounded] = True
            name = 'decimal traps'
        elif k == 2:
            random.seed(rng.randrange(3))
            name = 'seeded random'
        elif k == 3:
            gc.disable()
            name = 'no garbage collection'
        elif k == 4:
            gc.set_threshold(1)
            name = 'eager garbage collection'
        else:
            os.chdir('/')
            name = 'other directory'
        for j in range(6 if k == 4 else 12):
            check(ctx, rng.choice(ctx.state['light']), rng.choice((po.fresh, ctx.state['shared'])), 'with ' + name)
        if rng.random() < .1:
            check(ctx, rng.choice(ctx.state['heavy']), po.fresh, 'with ' + name)
    finally:
        decimal.setcontext(old)
        gc.enable()
        gc.set_threshold(700, 10, 10)
        os.chdir(gen.VERIF)


def processes(ctx, rng, i):
    """All calls in another process: other hash seed, other order, optimised bytecode off, unbuffered state."""
    calls = ctx.state['calls']
    order = list(range(len(calls)))
    if rng.random() < .7:
        order = [k for k in order if calls[k][0] not in po.HEAVY or rng.random() < .3]
    rng.shuffle(order)
    code = ('import sys, pickle\nfrom bfmon import pureops as po\ncalls, shared = pickle.load(sys.stdin.buffer)\n'
            'sh = po.Shared() if shared else po.fresh\nsys.stdout.buffer.write(pickle.dumps([po.run(c, sh) for c in calls]))\n')
    env = dict(os.environ, PYTHONHASHSEED=str(rng.randrange(1, 10**6)), TZ=rng.choice(('UTC', 'Asia/Tokyo')), LC_ALL='C')
    p = subprocess.run([sys.executable, '-B', '-c', code], input=pickle.dumps(([calls[k] for k in order], rng.random() < .5)), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       env=env, cwd=gen.VERIF, timeout=250)
    if p.returncode:
        ctx.fail('all calls in one process: %s' % p.stderr.decode()[-1000:])
    for k, got in zip(order, pickle.loads(p.stdout)):
        compare(ctx, k, got, 'in another process')


# -- one interpreter for everything ------------------------------------------------------------------------------------------

def verdict(it, a, b, tx, nin, fl):
    v = it.verify(a, b, tx, nin, fl)
    return v, it.errstr, [bytes(x) for x in it.stack]


def reuse(ctx, rng, i):
    it = ctx.state.setdefault('it', Interpreter())
    if rng.random() < .3:
        it = Interpreter()
    for _ in range(rng.randrange(4, 12)):
        fl = progs.flags(rng)
        tx, t, nin = (None, None, 0) if rng.random() < .5 else progs.transaction(rng)
        k = rng.randrange(8)
        if k == 0:
            sig, pub, f2 = rng.choice(ctx.state['world'].programs)
            fl = rng.choice((fl, f2))
        elif k == 1:
            red = rs.serialize(progs.grow(rng, [b'\1'], 3, fl))
            sig, pub = rs.push(b'\1') + rs.push(red[:520]), b'\xa9\x14' + codec.hash160(red[:520]) + b'\x87'
            fl |= rs.P2SH
        elif k == 2:      # leaves things behind: conditionals, alt stack, operations, code separators
            sig = b'\x51\x51' + rng.choice((b'\x63', b'\x6b', b'\x51\x6b', b'\xab', b'\x61' * 150, b'\x63\x67', b'\x64')) + b'\x51'
            pub = rng.choice((b'\x51', b'\x6c', b'\x61' * 150 + b'\x51', b'\x68', b'\x67\x51\x68', b'', b'\x74'))
        elif k == 3:
            sig, pub = gen.script_bytes(rng, 4), gen.script_bytes(rng, 4)
        elif k == 4:
            sig, pub = b'\x51' * rng.choice((5, 500, 999, 1000, 1001)), rng.choice((b'\x51', b'\x76', b'\x74'))
        else:
            g = progs.grow(rng, [], rng.randrange(4), fl, t, nin)
            sig, pub = rs.serialize(g), rs.serialize(progs.grow(rng, progs.final_stack(g, fl), rng.randrange(5), fl, t, nin))
        a, b = Script.from_bytes(sig), Script.from_bytes(pub)
        if rng.random() < .25:
            with Abort(rng.choice((rng.randrange(1, 60), rng.randrange(1, 600))), rng.choice(ABORTS)) as ab:
                try:
                    it.verify(a, b, tx, nin, fl)
                except BaseException as e:
                    if isinstance(e, (Hang, Inconclusive)):
                        raise
                    ctx.event('verification aborted')
            if ab.where:
                ctx.seen('abort', ab.where)
            if rng.random() < .7:
                continue
        got = ctx.ok('verify', verdict, it, a, b, tx, nin, fl)
        want = ctx.ok('verify', verdict, Interpreter(), a, b, tx, nin, fl)
        if got != want:
            ctx.fail('verify(%s, %s, flags=%#x) on a reused interpreter gave %s, a fresh one gives %s' % (sig.hex(), pub.hex(), fl, short(got), short(want)))
        again = ctx.ok('verify', verdict, it, a, b, tx, nin, fl)
        ctx.eq(again, want, 'the same verification again')
        ctx.event('reused interpreter agreed: %s' % got[0])
        ctx.seen('reuse', sig, pub, fl)


SECTIONS = [('history', history, 1600, 30000), ('heavies', heavies, 80, 2000), ('threads', threads, 320, 8000), ('cold', cold, 1200, 16000), ('aborted', aborted, 1600, 30000), ('stacklimit', stacklimit, 8000, 60000),
            ('ambient', ambient, 400, 6000), ('reuse', reuse, 2400, 60000), ('processes', processes, 16, 160)]
REQUIRE = {'cold runs: threads': 500, 'cold runs: aborts': 200, 'cold thread switches': 2000, 'in a history: *': 10000, 'in one of*': 3000, 'after an aborted call: *': 3000, 'aborted by*': 1000, 'no stack left': 200, 'after running out of stack*': 1000,
           'with *': 2000, 'in another process*': 1000, 'reused interpreter agreed: True': 1000, 'reused interpreter agreed: False': 1000, 'verification aborted': 500,
           'thread switches': 5000, 'pristine results': 1000}
