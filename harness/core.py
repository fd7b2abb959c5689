"""Runs TLC on a specification module, replays the behaviours it emits into
probayes and writes evidence, replay files and verdicts."""
import hashlib, json, multiprocessing, os, re, shutil, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
OUT = os.path.join(VERIF, 'out')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NCPU = min(8, os.cpu_count() or 1)
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)


class HarnessError(Exception):
    """The machinery itself failed: no verdict."""


class Mismatch(Exception):
    """The implementation disagrees with the specification."""


def tla(x):
    """Python value to TLA+ expression text."""
    if isinstance(x, bool):
        return 'TRUE' if x else 'FALSE'
    if isinstance(x, str):
        return '"%s"' % x
    if isinstance(x, int):
        return str(x)
    if isinstance(x, (set, frozenset)):
        return '{' + ', '.join(sorted(tla(i) for i in x)) + '}'
    if isinstance(x, (list, tuple)):
        return '<<' + ', '.join(tla(i) for i in x) + '>>'
    raise HarnessError('cannot write %r in TLA+' % (x,))


class Job:
    """One TLC run and what to do with the behaviours it emits."""
    def __init__(self, module, consts, replayer, invariants=(), properties=(), name=None,
                 emit='EmitEdge', simulate=None, depth=None, opts=None, timeout=700):
        self.module, self.consts, self.replayer = module, consts, replayer
        self.invariants, self.properties = tuple(invariants), tuple(properties)
        self.name = name or module
        self.emit, self.simulate, self.depth = emit, simulate, depth
        self.opts, self.timeout = opts or {}, timeout


def run_tlc(job, extra_files=None):
    """Returns (list of emitted records, stats)."""
    tmp = tempfile.mkdtemp(prefix='verif_tlc_')
    try:
        for f in os.listdir(SPEC):
            if f.endswith('.tla'):
                shutil.copy(os.path.join(SPEC, f), tmp)
        for f, text in (extra_files or {}).items():
            with open(os.path.join(tmp, f), 'w') as h:
                h.write(text)
        cfg = ['SPECIFICATION Spec', 'CHECK_DEADLOCK FALSE']
        if job.consts:
            cfg.append('CONSTANTS')
            cfg += [' %s <- MC_%s' % (k, k) for k in job.consts]
        with open(os.path.join(tmp, 'MC.tla'), 'w') as h:
            h.write('---- MODULE MC ----\nEXTENDS %s\n' % job.module)
            for k, v in job.consts.items():
                h.write('MC_%s == %s\n' % (k, tla(v)))
            h.write('====\n')
        cfg += ['INVARIANT ' + i for i in job.invariants]
        cfg += ['PROPERTY ' + i for i in job.properties]
        if job.emit:
            cfg.append('ACTION_CONSTRAINT ' + job.emit)
        with open(os.path.join(tmp, 'M.cfg'), 'w') as h:
            h.write('\n'.join(cfg) + '\n')
        cmd = ['java', '-Xmx6g', '-Xss16m', '-XX:+UseParallelGC', '-cp', JARS, 'tlc2.TLC', '-nowarning',
               '-workers', str(NCPU), '-config', 'M.cfg', '-metadir', os.path.join(tmp, 'meta')]
        if job.simulate:
            cmd += ['-simulate', 'num=%d' % job.simulate, '-depth', str(job.depth or 20), '-seed', str(SEED)]
            cmd[cmd.index('-workers') + 1] = '1'
        cmd.append('MC.tla')
        log = os.path.join(tmp, 'log')
        with open(log, 'w') as h:
            try:
                rc = subprocess.call(cmd, cwd=tmp, stdout=h, stderr=subprocess.STDOUT, timeout=job.timeout)
            except subprocess.TimeoutExpired:
                raise HarnessError('TLC ran out of time on %s' % job.name)
        recs, seen, other = [], set(), []
        with open(log, errors='replace') as h:
            for line in h:
                if line.startswith('"@@'):
                    line = line.rstrip('\n')
                    k = hash(line)
                    if k in seen:
                        continue
                    seen.add(k)
                    recs.append(json.loads(line)[2:])
                else:
                    other.append(line)
        text = ''.join(other)
        ok = 'No error has been found' in text or (job.simulate and rc == 0 and 'Error' not in text)
        if not ok:
            raise HarnessError('TLC on %s: rc=%s\n%s' % (job.name, rc, text[-3000:]))
        m = re.search(r'(\d[\d,]*) states generated, (\d[\d,]*) distinct states found', text)
        num = lambda s: int(s.replace(',', ''))
        if m:
            stats = {'transitions': num(m.group(1)), 'states': num(m.group(2))}
        else:
            m = re.findall(r'(\d[\d,]*) states', text)
            stats = {'transitions': num(m[-1]) if m else len(recs), 'states': num(m[-1]) if m else len(recs)}
        stats['emitted'] = len(recs)
        return Records(recs), stats
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


class Records:
    """what TLC emitted, kept as text and read when looked at"""
    def __init__(self, lines):
        self.lines = lines

    def __len__(self):
        return len(self.lines)

    def __iter__(self):
        return map(json.loads, self.lines)


# ----------------------------------------------------------------- replaying
class Tree:
    """Prefix tree of the emitted programs."""
    def __init__(self, recs):
        self.kids, self.rec = {}, {}
        for r in recs:
            p = r['p']
            keys = [json.dumps(a, sort_keys=True) for a in p]
            full = tuple(keys)
            if full in self.rec:
                continue
            self.rec[full] = r
            self.kids.setdefault(full[:-1], []).append(full)

    def roots(self):
        return self.kids.get((), [])


class Outcome:
    def __init__(self):
        self.traces = 0      # program steps decided against the implementation
        self.programs = 0
        self.pruned = 0
        self.violations = []
        self.samples = []

    def merge(self, o):
        self.traces += o.traces
        self.programs += o.programs
        self.pruned += o.pruned
        self.violations += o.violations
        self.samples += o.samples


def _walk(tree, node, state, rp, out, limit):
    for kid in tree.kids.get(node, ()):
        if len(out.violations) >= limit:
            return
        rec = tree.rec[kid]
        act = rec['p'][-1]
        judged = rp.judged(act, len(rec['p']))
        try:
            nxt = rp.step(state, act, rec)
        except Mismatch as e:
            if judged:
                out.violations.append({'program': rec['p'], 'detail': str(e)[:4000], 'results': rec.get('r')})
            else:
                out.pruned += 1
            continue
        except HarnessError:
            raise
        if judged:
            out.traces += 1
            if len(out.samples) < 2:
                out.samples.append({'program': rec['p'], 'result': rec.get('r')})
        if kid in tree.kids:
            if nxt is not None:
                _walk(tree, kid, nxt, rp, out, limit)
        else:
            out.programs += 1


def _work(args):
    i, n = args
    tree, rp, limit = _work.data
    out = Outcome()
    try:
        roots = sorted(tree.roots())[i::n]
        sub = Tree([])
        sub.kids, sub.rec = dict(tree.kids), tree.rec
        sub.kids[()] = roots
        rp.start()
        try:
            _walk(sub, (), rp.initial(), rp, out, limit)
        finally:
            rp.stop()
        return ('ok', out)
    except BaseException:
        return ('error', traceback.format_exc())


def replay_tree(recs, rp, limit=None, procs=None):
    limit = limit or int(os.environ.get('VERIF_LIMIT', '5'))
    tree = Tree(recs)
    n = max(1, min(procs or NCPU, len(tree.roots())))
    _work.data = (tree, rp, limit)
    total = Outcome()
    if n == 1:
        res = [_work((0, 1))]
    else:
        ctx = multiprocessing.get_context('fork')
        with ctx.Pool(n) as pool:
            res = pool.map(_work, [(i, n) for i in range(n)], chunksize=1)
    for kind, o in res:
        if kind == 'error':
            raise HarnessError(o)
        total.merge(o)
    return total


# programs decided from their beginning, each with objects of its own
def maximal(recs):
    """the programs that no other program extends"""
    full, inner = {}, set()
    for r in recs:
        keys = [json.dumps(a, sort_keys=True) for a in r['p']]
        h = hashlib.sha256()
        ds = []
        for k in keys:
            h.update(k.encode() + b'\n')
            ds.append(h.digest())
        full[ds[-1]] = json.dumps(r['p'])
        inner.update(ds[:-1])
    return [full[k] for k in sorted(full) if k not in inner]


def _progs(args):
    i, n = args
    progs, rp, limit = _progs.data
    out = Outcome()
    try:
        for p in progs[i::n]:
            if len(out.violations) >= limit:
                break
            rp.program(json.loads(p), out)
        return ('ok', out)
    except BaseException:
        return ('error', traceback.format_exc())


def replay_programs(progs, rp, limit=None, procs=None):
    limit = limit or int(os.environ.get('VERIF_LIMIT', '5'))
    n = max(1, min(procs or NCPU, len(progs)))
    progs = [p if isinstance(p, str) else json.dumps(p) for p in progs]
    _progs.data = (progs, rp, limit)
    total = Outcome()
    with multiprocessing.get_context('fork').Pool(n) as pool:
        for kind, o in pool.map(_progs, [(i, n) for i in range(n)], chunksize=1):
            if kind == 'error':
                raise HarnessError(o)
            total.merge(o)
    return total


class StepPrograms:
    """runs every maximal program from its beginning through initial() and step()"""
    def run(self, recs):
        return replay_programs(maximal(recs), self)

    def program(self, prog, out):
        st = self.initial()
        for n, act in enumerate(prog):
            try:
                st = self.step(st, act, None)
            except Mismatch as e:
                if self.judged(act, n):
                    out.violations.append({'program': prog[:n + 1], 'detail': str(e)[:4000], 'results': None})
                else:
                    out.pruned += 1
                return
            if self.judged(act, n):
                out.traces += 1
                if len(out.samples) < 2:
                    out.samples.append({'program': prog[:n + 1], 'result': act.get('ans')})
        out.programs += 1


# ------------------------------------------------------------------- results
def load_known():
    """known: property=<id> sig=<signature> <what> lines of the findings file"""
    known = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'known: property=(\S+) sig=(\S+) (.*)', line)
            if m:
                known[(m.group(1), m.group(2))] = m.group(3).strip()
    return known


def signature(v):
    return hashlib.sha256(json.dumps(v['program'], sort_keys=True).encode()).hexdigest()[:16]


def report(prop, tier, t0, stats, out, extra=None, level='model_checking', assumptions=()):
    """Evidence, KNOWN-FINDING and VIOLATION lines; returns the exit code."""
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    known = load_known()
    fresh, old = [], []
    for v in out.violations:
        v['sig'] = signature(v)
        (old if (prop, v['sig']) in known else fresh).append(v)
    cov = {'states': stats['states'], 'transitions': stats['transitions'],
           'traces_validated_against_impl': out.traces,
           'programs_completed': out.programs, 'programs_pruned': out.pruned,
           'samples': out.samples[:4] or [{'note': 'no step was decided before the first violation'}]}
    cov.update(extra or {})
    ev = {'property': prop, 'tier': tier, 'seed': SEED, 'level': level, 'coverage': cov,
          'assumptions': list(assumptions), 'wall_s': round(time.time() - t0, 2), 'violations': len(fresh)}
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as h:
        json.dump(ev, h, indent=1, sort_keys=True)
        h.write('\n')
    for v in {v['sig']: v for v in old}.values():
        print('KNOWN-FINDING: property=%s %s' % (prop, known[(prop, v['sig'])]))
    if 'VERIF_LIMIT' in os.environ:   # development aid: every violation, grouped by what was said
        import collections
        for d, n in collections.Counter(re.sub(r'-?\d[\d.e+-]*', '#', v['detail'])[:200] for v in fresh).most_common(25):
            print('%6d %s' % (n, d))
    for i, v in enumerate(fresh[:5]):
        path = os.path.join(OUT, '%s-%s.json' % (prop, v['sig']))
        with open(path, 'w') as h:
            json.dump(dict(v, property=prop), h, indent=1, sort_keys=True)
        print('VIOLATION property=%s replay=%s' % (prop, path))
        print('  program: ' + json.dumps(v['program'])[:1500])
        print('  ' + v['detail'].replace('\n', '\n  ')[:1500])
    print('%s %s: %d model states, %d transitions, %d steps decided against probayes, %d violations, %.1f s'
          % (prop, tier, stats['states'], stats['transitions'], out.traces, len(fresh), time.time() - t0))
    return 1 if fresh else 0
