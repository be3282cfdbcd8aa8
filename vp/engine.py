"""Runs a check: chunks of generated cases over all cores, then shrink, replay file, evidence."""
import hashlib, json, multiprocessing, os, shutil, signal, sys, tempfile, time, traceback, collections
from . import wccbuild
from .src import Src, shrink

VERIF = wccbuild.VERIF
JOBS = int(os.environ.get('VP_JOBS', '8'))


class Failure:
    def __init__(self, choices, summary, data):
        self.choices, self.summary, self.data = choices, summary, data


class ChunkResult:
    def __init__(self):
        self.evals = 0
        self.keys = set()            # hashes of distinct non-trivial cases
        self.samples = []
        self.failures = []
        self.counters = collections.Counter()
        self.error = None

    def nontrivial(self, text):
        self.keys.add(int.from_bytes(hashlib.blake2b(text.encode('utf-8', 'surrogateescape'), digest_size=8).digest(), 'big'))


class Check:
    id = None
    level = 'exploration'
    rule = ''
    assumptions = []
    quick_chunks = 10
    thorough_chunks = 100
    builds = ('plain',)
    time_cap = {'quick': 400, 'thorough': 6 * 3600}

    def setup(self, ctx):
        pass

    def chunk(self, ctx, k):
        raise NotImplementedError

    def fails(self, ctx, choices):
        """(Failure or None, normalised choices)"""
        raise NotImplementedError

    def confirm(self, ctx, failure):
        """re-judges a failure three times; a failure that does not repeat is no failure"""
        for _ in range(3):
            f, _n = self.fails(ctx, failure.choices)
            if not f:
                return False
        return True

    def replay(self, ctx, data):
        """data: Failure.data as stored in the replay file; returns a summary or None"""
        raise NotImplementedError

    def known(self, ctx, finding):
        """does the recorded finding still fail?  default: replay its data"""
        return self.replay(ctx, finding['data'])


class Ctx:
    def __init__(self, check, tier, seed):
        self.check, self.tier, self.seed = check, tier, seed
        self.dirs = {}
        self.tmp = None

    def build(self):
        for v in self.check.builds:
            self.dirs[v] = wccbuild.build(v)

    @property
    def wcc(self):
        return os.path.join(self.dirs['plain'], 'wcc')

    def src(self, k, i):
        return Src(seed='%d/%s/%d/%d' % (self.seed, self.check.id, k, i))

    def workdir(self):
        return tempfile.mkdtemp(dir=self.tmp)


_ctx = None


def _run_chunk(k):
    try:
        return k, _ctx.check.chunk(_ctx, k)
    except Exception:
        r = ChunkResult()
        r.error = traceback.format_exc()
        return k, r


def _init_worker():
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def load_known(pid):
    p = os.path.join(VERIF, 'known-findings.json')
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p))['findings'] if f['property'] == pid]


def run_check(check, tier, seed, explore=0, only_chunks=None, start=0):
    global _ctx
    t0 = time.time()
    ctx = Ctx(check, tier, seed)
    _ctx = ctx
    ctx.tmp = tempfile.mkdtemp(prefix='vp-%s-' % check.id)
    status = 0
    try:
        try:
            ctx.build()
        except wccbuild.BuildError as e:
            # the tree does not build: nothing can be said about the property
            print('ERROR: ' + str(e))
            return 2
        check.setup(ctx)
        print('%s tier=%s seed=%d' % (check.id, tier, seed), flush=True)
        chunks = only_chunks or (check.quick_chunks if tier == 'quick' else check.thorough_chunks)
        total = ChunkResult()
        cap = check.time_cap[tier]
        failures = []
        errors = []
        done = 0
        with multiprocessing.Pool(JOBS, initializer=_init_worker) as pool:
            it = pool.imap(_run_chunk, range(start, start + chunks))
            for _ in range(chunks):
                k, r = next(it)
                done += 1
                total.evals += r.evals
                total.keys |= r.keys
                total.counters.update(r.counters)
                if r.error:
                    errors.append(r.error)
                for s in r.samples:
                    if len(total.samples) < 6:
                        total.samples.append(s)
                if explore:
                    failures += r.failures
                else:
                    # one that does not repeat is no reason to stop
                    for f in r.failures[:2]:
                        if check.confirm(ctx, f):
                            failures.append(f)
                            break
                        total.counters['not_reproducible_or_discarded'] += 1
                    if failures:
                        break
                if explore and len(failures) >= explore:
                    break
                if time.time() - t0 > cap:
                    total.counters['stopped_by_time_cap'] += 1
                    break
            pool.terminate()
        reported = []
        limit = explore or 3
        for f in failures:
            if len(reported) >= limit:
                break
            if explore and not check.confirm(ctx, f):
                total.counters['not_reproducible_or_discarded'] += 1
                continue
            best = f
            def pred(ch):
                f2, norm = check.fails(ctx, ch)
                return (f2 is not None), norm
            if f.choices is not None:
                ch, n = shrink(f.choices, pred, budget_s=60 if not explore else 8)
                f2, _n = check.fails(ctx, ch)
                if f2:
                    best = f2
            path = save_replay(check, best)
            reported.append((best, path))
            print('VIOLATION property=%s replay=%s' % (check.id, path))
            print(best.summary[:300 if explore else 6000], flush=True)
            if not explore:
                break
        if reported:
            status = 1
        elif total.counters['not_reproducible_or_discarded']:
            print('%d candidate(s) discarded on confirmation' % total.counters['not_reproducible_or_discarded'])
        known = 0
        for fd in load_known(check.id):
            s = check.known(ctx, fd)
            if s:
                known += 1
                print('KNOWN-FINDING: property=%s %s' % (check.id, fd['what']))
            else:
                print('note: recorded finding %s no longer fails' % fd['id'])
        if errors:
            print('HARNESS ERROR (%d):\n%s' % (len(errors), errors[0]))
            if status == 0:
                status = 2
        cov = {'evaluations': total.evals, 'distinct_nontrivial': len(total.keys), 'rule': check.rule,
               'samples': total.samples or ['(none)'], 'chunks_run': done,
               'counters': dict(total.counters), 'known_findings_reproduced': known}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        ev = {'property': check.id, 'tier': tier, 'seed': seed, 'level': check.level, 'coverage': cov,
              'assumptions': check.assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': len(reported)}
        with open(os.path.join(VERIF, 'evidence', check.id + '.json'), 'w') as fp:
            json.dump(ev, fp, indent=1)
        print('%s: %d cases, %d distinct non-trivial, %s, %.1f s, %d violation(s)' % (
            check.id, total.evals, len(total.keys), dict(total.counters), time.time() - t0, len(reported)), flush=True)
        return status
    finally:
        shutil.rmtree(ctx.tmp, ignore_errors=True)


def save_replay(check, f):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    body = json.dumps({'property': check.id, 'summary': f.summary, 'choices': f.choices, 'data': f.data}, indent=1)
    path = os.path.join(d, '%s-%s.json' % (check.id, hashlib.sha1(body.encode()).hexdigest()[:10]))
    with open(path, 'w') as fp:
        fp.write(body)
    return path


def run_replay(check, path):
    global _ctx
    ctx = Ctx(check, 'quick', 1)
    _ctx = ctx
    ctx.tmp = tempfile.mkdtemp(prefix='vp-%s-' % check.id)
    try:
        ctx.build()
        check.setup(ctx)
        d = json.load(open(path))
        s = check.replay(ctx, d['data'])
        if s:
            print(s)
            print('VIOLATION property=%s replay=%s' % (check.id, path))
            return 1
        print('the replayed case holds')
        return 0
    finally:
        shutil.rmtree(ctx.tmp, ignore_errors=True)
