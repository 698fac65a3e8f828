"""Runs the check of one property: forks workers, merges what their monitors observed, decides, writes the evidence."""
import argparse, collections, importlib, json, mmap, os, pickle, random, resource, shutil, struct, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('BFMON_REPO', '/repo')
sys.path.insert(0, REPO)

from .monitor import Ctx, Violation, Hang, Inconclusive, Watchdog, Coverage, describe, short, MEMORY

MAX_VIOLATIONS = 3


def case_rng(seed, pid, section, i):
    return random.Random('%d/%s/%s/%d' % (seed, pid, section, i))


def load_findings(pid):
    out = {}
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('finding: '):
                prop, fid, text = line.split(' ', 3)[1:]
                if prop == 'property=' + pid:
                    out[fid.split('=', 1)[1]] = text.strip()
    return out


def run_case(ctx, fn, name, i, seed, root):
    ctx.section, ctx.index = name, i
    ctx.trail.clear()
    ctx.evaluations += 1
    try:
        fn(ctx, case_rng(seed, ctx.pid, name, i), i)
        return None
    except Violation as e:
        msg = str(e)
        tb = ''
    except Hang as e:
        msg, tb = 'no termination: %s' % e, ''
    except Inconclusive:
        raise
    except MemoryError:
        raise Inconclusive('MemoryError')
    except Exception as e:
        msg = 'unexpected exception: ' + describe(e)
        tb = traceback.format_exc()[-3000:]
    return {'section': name, 'index': i, 'message': msg, 'traceback': tb,
            'calls': ['%s(%s)' % (n, ctx._args(a, k)) for n, a, k in ctx.trail]}


# Quick runs of the cheap checks are this many times their base size (sections of at least 400 cases; REQUIRE counts are of the base size).
QUICK = {'C01': 8, 'C02': 12, 'C03': 2, 'C04': 6, 'C05': 6, 'C07': 2, 'C08': 8, 'C09': 5, 'C10': 8, 'C11': 4, 'C12': 3, 'C13': 2, 'C14': 5, 'C15': 2, 'C16': 4, 'C17': 2, 'C18': 2,
         'C19': 5, 'C21': 12, 'C22': 10, 'C23': 10, 'C25': 3, 'C26': 15, 'C27': 4, 'C28': 8, 'C30': 10}


def sizes(mod, tier, scale):
    for name, fn, q, t in mod.SECTIONS:
        n = q if tier == 'quick' else t
        if tier == 'quick' and q >= 400:
            n = max(q, min(t, q * QUICK.get(mod.ID, 1)))
        yield name, fn, max(1, int(n * scale)) if n else 0


def worker(mod, ctx, tier, seed, w, nw, out, deadline, root):
    cov = Coverage(root)
    cov.start()
    dog = Watchdog(ctx, root)
    dog.start()
    violations, error, cut = [], None, []
    timing = {}
    try:
        if hasattr(mod, 'setup'):
            mod.setup(ctx)
        rounds = 3 if tier == 'quick' else 12       # in slices, so that a cut takes the same share of every section
        for name, fn, n, part in [(*s, j) for j in range(rounds) for s in sizes(mod, tier, ctx.scale)]:
            t0 = time.monotonic()
            # the last worker walks the section backwards in time order: different histories per worker
            idx = list(range(w, n, nw))
            idx = idx[-(-len(idx) * part // rounds):-(-len(idx) * (part + 1) // rounds)]
            if w % 2:
                idx.reverse()
            for i in idx:
                if time.monotonic() > deadline:
                    cut.append(name)
                    break
                v = run_case(ctx, fn, name, i, seed, root)
                if v:
                    v['worker'], v['nworkers'] = w, nw
                    violations.append(v)
                    if len(violations) >= MAX_VIOLATIONS:
                        break
            timing[name] = timing.get(name, 0) + time.monotonic() - t0
            if len(violations) >= MAX_VIOLATIONS:
                break
        if hasattr(mod, 'finish') and len(violations) < MAX_VIOLATIONS:
            v = run_case(ctx, lambda c, r, i: mod.finish(c), 'finish', w, seed, root)
            if v:
                violations.append(v)
    except Inconclusive as e:
        error = 'inconclusive in %s[%s]: %s' % (ctx.section, ctx.index, e)
    except BaseException:
        error = traceback.format_exc()
    dog.stop()
    pickle.dump(dict(violations=violations, error=error, cut=cut, events=ctx.events, distinct=ctx.distinct,
                     samples=ctx.samples, known=ctx.known, evaluations=ctx.evaluations, lines=cov.lines,
                     timing=timing, export=getattr(mod, 'export', lambda c: None)(ctx)), open(out, 'wb'))


class Pulse:
    """Shared memory in which a worker says which case it is in and whether a library call is running; the parent
    measures the CPU time the worker has used since it last said anything."""
    LIMIT = 240.0           # CPU seconds of one library call; the slowest one takes about a thousandth of that

    def __init__(self):
        self.mem = mmap.mmap(-1, 64)
        self.n = 0
        self.last, self.since = None, 0.0

    def attach(self, ctx, sections):
        pos = {n: j for j, n in enumerate(sections)}

        def pulse(inside):
            self.n += 1
            struct.pack_into('<QQQQ', self.mem, 0, self.n, inside, pos.get(ctx.section, len(pos)), ctx.index or 0)
        ctx.pulse = pulse

    def stuck(self, pid):
        v = struct.unpack_from('<QQQQ', self.mem, 0)
        try:
            f = open('/proc/%d/stat' % pid).read().rsplit(')', 1)[1].split()
            cpu = (int(f[11]) + int(f[12])) / os.sysconf('SC_CLK_TCK')
        except (OSError, IndexError):
            return None
        if v != self.last:
            self.last, self.since = v, cpu
        if v[1] and cpu - self.since > self.LIMIT:
            return v[2], v[3], cpu - self.since


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--workers', type=int, default=int(os.environ.get('BFMON_WORKERS') or min(8, os.cpu_count() or 1)))
    ap.add_argument('--verbose', action='store_true')
    a = ap.parse_args()
    pid, tier = a.property, a.tier
    scale = float(os.environ.get('BFMON_SCALE') or 1)
    t0 = time.monotonic()
    evdir = os.environ.get('BFMON_EVIDENCE') or os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    os.chdir(VERIF)
    findings = load_findings(pid)
    root = os.path.join(os.path.realpath(REPO), 'bitforge') + os.sep

    if pid == 'C07':
        from . import entropy
        entropy.install()
    try:
        import bitforge
    except Exception:
        path = write_replay(evdir, pid, a, {'section': 'import', 'index': 0, 'message': 'import bitforge fails',
                                            'traceback': traceback.format_exc(), 'calls': []})
        evidence(evdir, pid, tier, a.seed, None, [], 1, t0, {})
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if not os.path.realpath(bitforge.__file__).startswith(root):
        print('bitforge was imported from %s, not from %s' % (bitforge.__file__, root))
        return 2
    mod = importlib.import_module('bfmon.checks.' + pid.lower())

    if a.replay:
        return replay(mod, a, pid, findings, root)

    tmp = tempfile.mkdtemp(prefix='bfmon-')
    budget = float(os.environ.get('BFMON_BUDGET') or (560 if tier == 'quick' else 720))
    deadline = t0 + budget
    pids = {}
    nw = a.workers
    sys.stdout.flush()
    names = [s[0] for s in mod.SECTIONS]
    pulses = [Pulse() for _ in range(nw)]
    hung, tick = [], 0
    for w in range(nw):
        p = os.fork()
        if p == 0:
            code = 0
            try:
                resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
                ctx = Ctx(pid, a.seed, tier, w, nw, findings, scale)
                ctx.tmp = tmp
                pulses[w].attach(ctx, names)
                worker(mod, ctx, tier, a.seed, w, nw, os.path.join(tmp, str(w)), deadline, root)
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        pids[p] = w
    hard = deadline + (300 if tier == 'quick' else 330)
    errors = []
    while pids:
        p, st = os.waitpid(-1, os.WNOHANG)
        if p == 0:
            if time.monotonic() > hard:
                for q in pids:
                    os.kill(q, 9)
                errors.append('workers %s did not finish' % sorted(pids.values()))
                for q in list(pids):
                    os.waitpid(q, 0)
                break
            time.sleep(0.02)
            tick += 1
            if tick % 100 == 0:
                for q, w in list(pids.items()):
                    s = pulses[w].stuck(q)
                    if s:
                        os.kill(q, 9)
                        os.waitpid(q, 0)
                        del pids[q]
                        hung.append({'section': (names + ['finish'])[s[0]], 'index': s[1], 'worker': w, 'nworkers': nw, 'traceback': '', 'calls': [],
                                     'message': 'no termination: one library call used %d s of CPU time and did not return' % s[2]})
            continue
        if p in pids:
            w = pids.pop(p)
            if st:
                errors.append('worker %d ended with status %d' % (w, st))
    res = []
    for w in range(nw):
        f = os.path.join(tmp, str(w))
        if os.path.exists(f) and os.path.getsize(f):
            try:
                res.append(pickle.load(open(f, 'rb')))
            except Exception:
                errors.append('worker %d left a broken result' % w)
    shutil.rmtree(tmp, ignore_errors=True)

    tot = merge(res)
    errors += tot['errors']
    violations = tot['violations'] + hung
    if hasattr(mod, 'conclude') and not violations and not errors:
        ctx = Ctx(pid, a.seed, tier, 0, nw, findings, scale)
        ctx.events = tot['events']
        v = run_case(ctx, lambda c, r, i: mod.conclude(c, [r_['export'] for r_ in res]), 'conclude', 0, a.seed, root)
        if v:
            violations.append(v)
    lacking = []
    if scale >= 1:
        for ev, need in getattr(mod, 'REQUIRE', {}).items():
            n = sum(c for e, c in tot['events'].items() if e == ev or ev.endswith('*') and e.startswith(ev[:-1]))
            if n < need:
                lacking.append('%s: %d < %d' % (ev, n, need))
    if not tot['evaluations'] or not tot['lines']:
        lacking.append('nothing was observed')
    evidence(evdir, pid, tier, a.seed, mod, res, len(violations), t0, tot, lacking + errors, root)

    for k, n in sorted(tot['known'].items()):
        print('KNOWN-FINDING: property=%s %s %s (reproduced %d times)' % (pid, k, findings[k], n))
    if violations:
        violations.sort(key=lambda v: (v['section'], v['index']))
        path = write_replay(evdir, pid, a, violations[0], violations)
        for v in violations[:5]:
            print('  %s[%s]: %s' % (v['section'], v['index'], v['message'][:1000]))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if lacking and tot['cut'] and tot['evaluations'] > 100 and not errors:
        # slow is not wrong: everything that was explored held, the evidence says what was left out
        print('held, cut short by time property=%s tier=%s seed=%d: %d cases; %s' % (pid, tier, a.seed, tot['evaluations'], '; '.join(lacking)[:1000]))
        return 0
    if errors or lacking:
        print('INCONCLUSIVE property=%s: %s' % (pid, '; '.join(errors + lacking)[:3000]))
        return 2
    print('held property=%s tier=%s seed=%d: %d cases, %d distinct, %d observed events, %.1f s' % (
        pid, tier, a.seed, tot['evaluations'], len(tot['distinct']), sum(tot['events'].values()), time.monotonic() - t0))
    if a.verbose:
        for n, t in sorted(tot['timing'].items(), key=lambda x: -x[1]):
            print('  %-30s %.1f s (slowest worker)' % (n, t))
        for e, n in sorted(tot['events'].items()):
            print('  %8d %s' % (n, e))
    return 0


def merge(res):
    tot = dict(violations=[], errors=[], events=collections.Counter(), distinct=set(), samples=[],
               known=collections.Counter(), evaluations=0, lines=set(), cut=set(), timing=collections.Counter())
    for r in res:
        tot['violations'] += r['violations']
        if r['error']:
            tot['errors'].append(r['error'])
        tot['events'] += r['events']
        tot['distinct'] |= r['distinct']
        tot['samples'] += r['samples']
        tot['known'] += r['known']
        tot['evaluations'] += r['evaluations']
        tot['lines'] |= r['lines']
        tot['cut'] |= set(r['cut'])
        for k, v in r['timing'].items():
            tot['timing'][k] = max(tot['timing'][k], v)
    return tot


def write_replay(evdir, pid, a, v, all_=None):
    path = os.path.join(evdir, '%s.replay.json' % pid)
    json.dump({'property': pid, 'seed': a.seed, 'tier': a.tier, 'violation': v, 'all': (all_ or [v])[:10]},
              open(path, 'w'), indent=1)
    return path


def replay(mod, a, pid, findings, root):
    d = json.load(open(a.replay))
    v = d['violation']
    fns = {n: (f, k) for n, f, k in sizes(mod, d['tier'], 1)}
    if v['section'] not in fns:
        print('the violation was found in %s: rerun the check with VERIF_SEED=%d' % (v['section'], d['seed']))
        return 2
    fn, n = fns[v['section']]
    for history in (False, True):
        ctx = Ctx(pid, d['seed'], d['tier'], v.get('worker', 0), v.get('nworkers', 8), findings)
        ctx.tmp = tempfile.mkdtemp(prefix='bfmon-')
        try:
            if hasattr(mod, 'setup'):
                mod.setup(ctx)
            todo = [v['index']]
            if history:     # the failure depends on earlier operations of the same process
                todo = [i for i in range(v['worker'], n, v['nworkers'])]
                if v['worker'] % 2:
                    todo.reverse()
                todo = todo[:todo.index(v['index']) + 1]
            for i in todo:
                r = run_case(ctx, fn, v['section'], i, d['seed'], root)
                if r:
                    print(json.dumps(r, indent=1))
                    print('VIOLATION property=%s replay=%s' % (pid, a.replay))
                    return 1
        finally:
            shutil.rmtree(ctx.tmp, ignore_errors=True)
    print('not reproduced')
    return 0


def evidence(evdir, pid, tier, seed, mod, res, nviol, t0, tot, problems=(), root=''):
    by = collections.Counter(f for f, _ in tot.get('lines', ()))
    ev = tot.get('events', {})
    cov = {
        'evaluations': tot.get('evaluations', 0),
        'distinct_nontrivial': len(tot.get('distinct', ())),
        'rule': getattr(mod, 'RULE', ''),
        'samples': tot.get('samples', [])[:12] or ['(none)'],
        'events_observed': int(sum(ev.values())) if ev else 0,
        'events': dict(sorted(ev.items(), key=lambda x: -x[1])[:150]),
        'bitforge_lines_executed': dict(sorted(by.items())),
        'known_findings_reproduced': dict(tot.get('known', {})),
        'sections_cut_by_time': sorted(tot.get('cut', ())),
        'inconclusive_because': list(problems),
    }
    json.dump({'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
               'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
               'wall_s': round(time.monotonic() - t0, 2), 'violations': nviol},
              open(os.path.join(evdir, '%s.json' % pid), 'w'), indent=1)


if __name__ == '__main__':
    sys.exit(main())
