"""Replays spec/Chain.tla into probayes.SP processes and their samplers."""
import collections, json, os, warnings
import numpy as np
import probayes as pb
from core import Mismatch, HarnessError, Outcome, maximal, replay_programs
from distrep import denote

NEG = -1.7976931348623157e+308
PSC = {0: 1., 1: 'log', 2: 2.}
TAB4 = {1: [1, 2, 4, 1], 2: [4, 0, 1, 3], 3: [2, 2, 3, 1]}
TAB3 = [1, 2, 5]
DATA = [1, 0, 1]


def onscale(p, sc):
    p = np.asarray(p, dtype=float)
    with np.errstate(all='ignore'):
        out = p / PSC[sc] if sc != 1 else np.where(p > 0, np.log(np.where(p > 0, p, 1.)), NEG)
    return float(out) if out.ndim == 0 else out


class Process:
    """The declared process, with its proposals and thresholds under the behaviour's control"""
    def __init__(self, c):
        self.c = c
        sc = c['sc']
        self.pend = {}
        kw = {} if sc == 0 else {'pscale': PSC[sc]}
        tgt = c['tgt']
        if tgt in ('one', 'onez'):
            self.names = ['x']
            self.vars = [pb.RV('x', range(4), prob=onscale(np.array(TAB4[1 if tgt == 'one' else 2]) / 8., sc), **kw)]
            self.sp = pb.SP(self.vars[0])
            holder = self.sp
        elif tgt in ('two', 'indep'):
            self.names = ['x', 'y']
            if tgt == 'two':
                # scales of the variables multiply: only one of them carries it
                self.vars = [pb.RV('x', range(4), **kw), pb.RV('y', range(3))]
            else:
                self.vars = [pb.RV('x', range(4), prob=onscale(np.array(TAB4[3]) / 8., sc), **kw),
                             pb.RV('y', range(3), prob=np.array(TAB3) / 8.)]
            self.sp = pb.SP(self.vars[0] & self.vars[1])
            if tgt == 'two':
                def joint(x, y):
                    x, y = np.asarray(x), np.asarray(y)
                    ok = (x >= 0) & (x < 4) & (y >= 0) & (y < 3)
                    return onscale(np.where(ok, (1 + (x + 2 * y) % 4) / 16., 0.), sc)
                self.sp.set_prob(joint, **kw)
            holder = self.sp
        else:
            self.names = ['mu']
            self.vars = [pb.RV('mu', range(4), prob=onscale(np.array(TAB4[1]) / 8., sc), **kw)]
            bit = pb.RV('bit', vtype=bool)
            holder = pb.RF(self.vars[0])
            self.sp = pb.SP(pb.RF(bit), holder)
            def lik(bit, mu):
                one = (1 + 2 * np.clip(np.asarray(mu), 0, 3)) / 8.
                return onscale(np.where(np.asarray(bit, dtype=bool), one, 1. - one), sc)
            self.sp.set_prob(lik, **kw)
        self.holder = holder
        if c['pr'] == 'sym':
            holder.set_tran(self.tran(lambda a, b: (1 + abs(a - b) % 2) / 4.))
        else:
            z = 0 if c['pr'] == 'dualz' else 1
            f = lambda a, b: (z + (2 * a + b + 40) % 3) / 4.
            holder.set_tran((self.tran(f), self.tran(lambda a, b: f(b, a))))
        holder.set_delta(lambda: holder.Delta(**self.pend['d']))
        if holder is not self.sp:
            self.sp.set_tran(holder)
            self.sp.set_delta(holder)
        r = c['rule']
        if r in ('metropolis', 'hastings'):
            self.sp.set_scores(r)
            self.sp.set_thresh(lambda: self.pend['t'])
        elif r == 'gibbs':
            self.sp.set_scores(r)
        elif r == 'custom':
            self.sp.set_scores(lambda opqr: denote(opqr.p.prob, opqr.p.pscale))
            self.sp.set_thresh(lambda: self.pend['t'])
            self.sp.set_update(lambda stu: bool(stu.s >= stu.t))
        self.samplers = []
        self.taken = []

    def tran(self, f):
        names, sc = self.names, self.c['sc']
        def code(vals, prime):
            v = [vals[n + prime] for n in names]
            return v[0] if len(v) == 1 else v[0] + 3 * v[1]
        if len(names) == 1 and names[0] == 'x':
            return lambda **k: onscale(f(code(k, ''), code(k, "'")), sc)
        return lambda **k: onscale(f(code(k, ''), code(k, "'")), sc)

    def create(self, init, stop):
        start = dict(zip(self.names, init))
        keep = dict(start)
        args, kw = (start,), {}
        if len(self.samplers) % 2:
            args = ({v: s for v, s in zip(self.vars, init)},)
        if self.c['tgt'] == 'post':
            args += ({'bit': np.array(DATA, dtype=bool)},)
            kw = dict(iid=True, joint=True)
        if stop:
            kw['stop'] = stop
        s = self.sp.sampler(*args, **kw)
        self.samplers.append(s)
        return s


class ChainReplay:
    def __init__(self, ops):
        self.ops = set(ops)

    def run(self, recs):
        return replay_programs(maximal(recs), self)

    def program(self, prog, out):
        """decides one behaviour from its beginning"""
        pr = None
        np.random.seed(1)
        with np.errstate(all='ignore'), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            for n, act in enumerate(prog):
                judged = act['op'] in self.ops
                try:
                    if act['op'] == 'process':
                        pr = Process(act['cfg'])
                        continue
                    getattr(self, 'do_' + act['op'])(pr, act)
                    self.view(pr, act)
                except (Mismatch, Exception) as e:
                    if isinstance(e, HarnessError):
                        raise
                    if judged:
                        d = str(e) if isinstance(e, Mismatch) else '%s raised %s: %s' % (act['op'], type(e).__name__, e)
                        out.violations.append({'program': prog[:n + 1], 'detail': d[:4000], 'results': None})
                    else:
                        out.pruned += 1
                    return
                if judged:
                    out.traces += 1
                    if len(out.samples) < 2:
                        out.samples.append({'program': prog[:n + 1], 'result': act.get('ans')})
        out.programs += 1

    # --------------------------------------------------------------- actions
    def do_create(self, pr, act):
        pr.create(act['init'], act['stop'])

    def do_draw(self, pr, act):
        s = pr.samplers[act['i'] - 1]
        pr.pend['d'] = dict(zip(pr.names, act['d']))
        pr.pend['t'] = None if act['th'] == [] else act['th'][0] / act['th'][1]
        try:
            x = next(s)
        except StopIteration:
            raise Mismatch('sampler %d stops too early' % act['i'])
        self.sample(pr, x, act['ans'], 'draw from sampler %d' % act['i'])
        pr.taken.append(x)

    def do_stop(self, pr, act):
        s = pr.samplers[act['i'] - 1]
        pr.pend['d'] = dict.fromkeys(pr.names, 0)
        pr.pend['t'] = .5
        try:
            x = next(s)
        except StopIteration:
            return
        raise Mismatch('sampler %d gives a further sample %r' % (act['i'], x))

    def do_walk(self, pr, act):
        s = pr.samplers[act['i'] - 1]
        pr.pend['d'] = dict(zip(pr.names, act['d']))
        pr.pend['t'] = .5
        xs = pr.sp.walk(s) if not act['n'] else pr.sp.walk(s, act['n']) if act['n'] % 2 else pr.sp.walk(s, stop=act['n'])
        if len(xs) != len(act['ans']):
            raise Mismatch('walking %r steps gives %d samples, should be %d' % (act['n'] or 'all', len(xs), len(act['ans'])))
        for j, (x, e) in enumerate(zip(xs, act['ans'])):
            self.sample(pr, x, e, 'sample %d of a walk' % (j + 1))
        pr.taken += list(xs)

    def do_reset(self, pr, act):
        i = act['i'] - 1
        how = i if len(pr.taken) % 2 else pr.samplers[i]
        if act['forget']:
            pr.sp.reset(how)
        else:
            pr.sp.reset(how, reset_last=False)

    def do_forget(self, pr, act):
        pr.sp.reset()
        pr.samplers = []

    def do_summary(self, pr, act):
        xs = [pr.taken[j - 1] for j in act['ix']]
        c = pr.c
        keep = [(id(x), self.snap(x)) for x in xs]
        for form in (list, tuple, collections.deque):
            self.summary(pr, pr.sp(form(xs)), act['ans'])
        for x, (_, k) in zip(xs, keep):
            if self.snap(x) != k:
                raise Mismatch('summarising changed a sample from %r to %r' % (k, self.snap(x)))

    @staticmethod
    def snap(x):
        return repr([(d.name, dict(d), np.asarray(d.prob).tolist()) if hasattr(d, 'prob') else d for d in x])

    # --------------------------------------------------------------- compare
    def prob(self, got, pscale, want, what):
        d = np.ravel(denote(np.ravel(np.asarray(got, dtype=float)), 0.j if pscale == 'log' else pscale))
        want = np.array([a / b for a, b in want])
        if d.shape != want.shape or not np.allclose(d, want, rtol=1e-9, atol=1e-13):
            raise Mismatch('%s has probability %r, should be %r' % (what, d.tolist(), want.tolist()))

    def state(self, pr, d, s, prime, what):
        for n, v in zip(pr.names, s):
            got = d[n + prime] if n + prime in d else None
            if got is None or np.ravel(got).tolist() != [v]:
                raise Mismatch('%s has %s = %r, should be %r' % (what, n + prime, got, v))

    def entry(self, pr, d, e, what):
        """an original, a proposal or a chain state"""
        if e is None:
            if d is not None:
                raise Mismatch('%s is %r, should be None' % (what, d))
            return
        if d is None:
            raise Mismatch('%s is None, should be %r' % (what, e))
        self.state(pr, d, e['s'], '', what)
        self.prob(d.prob, d.pscale, [e['p']], what)

    def move(self, pr, d, e, what, rev=False):
        if e is None:
            if d is not None:
                raise Mismatch('%s is %r, should be None' % (what, d))
            return
        if d is None:
            raise Mismatch('%s is None, should be %r' % (what, e))
        self.state(pr, d, e['from'], '', what)
        self.state(pr, d, e['to'], "'", what)
        self.prob(d.prob, d.pscale, [e['p']], what)
        marg, cond = list(d.marg), list(d.cond)
        if rev:
            marg, cond = cond, marg
        if marg != [n + "'" for n in pr.names] or cond != pr.names:
            raise Mismatch('%s is named %s' % (what, d.name))

    def number(self, got, e, what, rule):
        if rule == 'gibbs':
            if got is None or not np.isnan(got):
                raise Mismatch('%s is %r' % (what, got))
        elif e == []:
            if got is not None:
                raise Mismatch('%s is %r, should be None' % (what, got))
        elif got is None or not np.allclose(float(got), e[0] / e[1], rtol=1e-9, atol=1e-13):
            raise Mismatch('%s is %r, should be %r' % (what, got, e[0] / e[1]))

    @staticmethod
    def verdict(u, e, what):
        ok = {'yes': u is not None and u == True, 'no': u is None, 'veto': u is not None and u == False, 'none': u is None}[e]
        if not ok:
            raise Mismatch('%s is %r, should be %s' % (what, u, e))

    def sample(self, pr, x, e, what):
        one = lambda k: e[k][0] if e[k] else None
        rule = pr.c['rule']
        self.entry(pr, x.p, e['p'], 'the proposal of ' + what)
        self.entry(pr, x.o, one('o'), 'the origin of ' + what)
        self.move(pr, x.q, e['q'], 'the step of ' + what)
        self.move(pr, x.r, one('r'), 'the step back of ' + what, True)
        self.number(x.s, e['s'], 'the score of ' + what, rule)
        if rule not in ('none', 'gibbs') :
            self.number(x.t, e['t'], 'the threshold of ' + what, rule)
        self.verdict(x.u, e['u'], 'the update of ' + what)
        self.entry(pr, x.v, e['v'], 'the state after ' + what)

    def pooled(self, d, es, what, get):
        if not es:
            if d is not None:
                raise Mismatch('%s is %r, should be None' % (what, d))
            return False
        if d is None:
            raise Mismatch('%s is None, should have %d entries' % (what, len(es)))
        self.prob(d.prob, d.pscale, [e['p'] for e in es], what)
        for n, vs in get.items():
            got = np.ravel(d[n]).tolist() if n in d else None
            if got != vs:
                raise Mismatch('%s has %s = %r, should be %r' % (what, n, got, vs))
        return True

    def summary(self, pr, x, e):
        rule = pr.c['rule']
        for k in 'opv':
            what = 'the summary of %s' % k
            if self.pooled(getattr(x, k), e[k], what, {n: [y['s'][j] for y in e[k]] for j, n in enumerate(pr.names)}):
                if pr.c['tgt'] == 'post':
                    n = len(DATA) * len(e[k])
                    if getattr(x, k)['bit'] != {n}:
                        raise Mismatch('%s counts %r observations, should be %d' % (what, getattr(x, k)['bit'], n))
        for k in 'qr':
            self.pooled(getattr(x, k), e[k], 'the summary of %s' % k,
                        {**{n: [y['from'][j] for y in e[k]] for j, n in enumerate(pr.names)},
                         **{n + "'": [y['to'][j] for y in e[k]] for j, n in enumerate(pr.names)}})
        for k in 'st':
            got = getattr(x, k)
            if rule == 'gibbs':
                if got is None or len(got) != len(e['p']) or not np.all(np.isnan(got)):
                    raise Mismatch('the summary of %s is %r' % (k, got))
                continue
            want = [a / b for a, b in e[k]]
            if rule == 'none':
                want = []
            if (got is None) != (not want) or (want and (len(got) != len(want) or not np.allclose(np.array(got, dtype=float), want, rtol=1e-9, atol=1e-13))):
                raise Mismatch('the summary of %s is %r, should be %r' % (k, got, want))
        u = x.u
        if u is None or len(u) != len(e['u']):
            raise Mismatch('the summary of u is %r, should be %r' % (u, e['u']))
        for j, (a, b) in enumerate(zip(u, e['u'])):
            self.verdict(a, b, 'update %d of the summary' % j)

    def view(self, pr, act):
        """counters and previous states of every sampler"""
        for i, w in enumerate(act['view']):
            s = pr.samplers[i]
            for how in (i, s):
                if pr.sp.get_counter(how) != w['cnt']:
                    raise Mismatch('after %s sampler %d has counted %r, should be %d' % (act['op'], i + 1, pr.sp.get_counter(how), w['cnt']))
                last = pr.sp.get_last(how)
                if (last is None) != (not w['last']):
                    raise Mismatch('after %s sampler %d has previous state %r, should be %r' % (act['op'], i + 1, last, w['last']))
                if last is not None:
                    self.entry(pr, last.p, w['last'][0], 'after %s the previous state of sampler %d' % (act['op'], i + 1))
            if pr.sp.get_sampler(i) is not s:
                raise Mismatch('sampler %d is not the one created' % (i + 1))
