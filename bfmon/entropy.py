"""Stand-ins for the operating system's entropy and the clock, installed before bitforge is imported (check C07 only).

With no script set, everything is real.  With a script, every request is served from it and recorded, so that the check can
ask which bits of the system's entropy a generated value depends on."""
import builtins, os, random, time
try:
    import ssl
except ImportError:
    ssl = None

_real_urandom, _real_open = os.urandom, builtins.open
_clock = {n: getattr(time, n) for n in ('time', 'time_ns', 'monotonic', 'monotonic_ns', 'perf_counter', 'perf_counter_ns', 'process_time')}
_getpid = os.getpid


class Script:
    """A reproducible stream; `flip` inverts one bit of it, `head` fixes its first bytes."""
    def __init__(self, seed, flip=None, head=b''):
        self.rng, self.flip, self.head, self.used = random.Random('entropy/%r' % (seed,)), flip, head, 0

    def read(self, n):
        out = bytearray()
        while len(out) < n:
            p = self.used
            b = self.rng.getrandbits(8)
            if p < len(self.head):
                b = self.head[p]
            if self.flip is not None and self.flip // 8 == p:
                b ^= 1 << (self.flip % 8)
            out.append(b)
            self.used += 1
            if self.used > 4000000:
                raise RuntimeError('entropy exhausted')
        return bytes(out)


script = None
requests = 0


def _read(n):
    global requests
    requests += 1
    return script.read(n) if script is not None else _real_urandom(n)


def urandom(n):
    return _read(n)


class _Dev:
    def __init__(self): pass
    def read(self, n=-1): return _read(n)
    def close(self): pass
    def fileno(self): raise OSError
    def __enter__(self): return self
    def __exit__(self, *a): return False


def _open(f, *a, **k):
    if isinstance(f, (str, bytes)) and os.fsdecode(f) in ('/dev/urandom', '/dev/random'):
        return _Dev()
    return _real_open(f, *a, **k)


frozen = None


def _frozen(name, real):
    def now():
        if frozen is None:
            return real()
        return int(frozen * 1e9) if name.endswith('_ns') else frozen
    return now


def install():
    os.urandom = urandom
    random._urandom = urandom
    if hasattr(os, 'getrandom'):
        os.getrandom = lambda n, flags=0: _read(n)
    if ssl is not None:
        ssl.RAND_bytes = _read
    builtins.open = _open
    for n, f in _clock.items():
        setattr(time, n, _frozen(n, f))


class scripted:
    """Context: entropy from `s`, the seedable generator reset, the clock stopped."""
    def __init__(self, s):
        self.s = s

    def __enter__(self):
        global script, frozen
        self.state = random.getstate()
        random.seed(12345)
        script, frozen = self.s, 1.7e9
        return self.s

    def __exit__(self, *a):
        global script, frozen
        script, frozen = None, None
        random.setstate(self.state)
        return False
