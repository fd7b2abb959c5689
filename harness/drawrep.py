"""Replays spec/Draws.tla: values drawn from declared distributions."""
import numpy as np
import scipy.stats
import sympy, sympy.stats
import probayes as pb
from core import Mismatch, HarnessError
from bindrep import BindReplay
from condrep import ks, rat


def cdf(f, a, x):
    x = np.asarray(x, dtype=float)
    with np.errstate(all='ignore'):
        return {'uniform': lambda: np.clip(x / a, 0, 1), 'power': lambda: np.clip(x / 4., 0, 1) ** a,
                'mobius': lambda: np.where(x > 0, x / (x + a), 0.), 'pareto': lambda: np.where(x > a, 1. - a / x, 0.),
                'cauchy': lambda: .5 + np.arctan(x) / np.pi}[f]()


def icdf(f, a, q):
    q = np.asarray(q, dtype=float)
    return {'uniform': lambda: q * a, 'power': lambda: 4. * q ** (1. / a), 'mobius': lambda: a * q / (1. - q),
            'pareto': lambda: a / (1. - q), 'cauchy': lambda: np.tan(np.pi * (q - .5))}[f]()


def pdf(f, a, x):
    x = np.asarray(x, dtype=float)
    with np.errstate(all='ignore'):
        return {'uniform': lambda: np.where((x >= 0) & (x <= a), 1. / a, 0.),
                'power': lambda: np.where((x >= 0) & (x <= 4), a * np.clip(x, 0, None) ** (a - 1.) / 4. ** a, 0.),
                'mobius': lambda: np.where(x >= 0, a / (x + a) ** 2, 0.), 'pareto': lambda: np.where(x >= a, a / x ** 2, 0.),
                'cauchy': lambda: 1. / np.pi / (1. + x * x)}[f]()


SCIPY = {'uniform': lambda a: (scipy.stats.uniform, (0., float(a)), ('loc', 'scale')),
         'power': lambda a: (scipy.stats.powerlaw, (float(a), 0., 4.), ('a', 'loc', 'scale')),
         'mobius': lambda a: (scipy.stats.fisk, (1., 0., float(a)), ('c', 'loc', 'scale')),
         'pareto': lambda a: (scipy.stats.pareto, (1., 0., float(a)), ('b', 'loc', 'scale')),
         'cauchy': lambda a: (scipy.stats.cauchy, (), ())}
SYMPY = {'uniform': lambda x, a: sympy.stats.Uniform(x, 0, a), 'mobius': lambda x, a: sympy.stats.LogLogistic(x, a, 1),
         'pareto': lambda x, a: sympy.stats.Pareto(x, a, 1), 'cauchy': lambda x, a: sympy.stats.Cauchy(x, 0, 1)}


class DrawReplay(BindReplay):
    LAST = ('draw', 'step', 'at', 'toss')

    def __init__(self, ops=LAST):
        super().__init__(ops)

    # ------------------------------------------------------------- declaring
    def vset(self, d):
        return [(float(d['lo']),) if d['xl'] else float(d['lo']), (float(d['hi']),) if d['xh'] else float(d['hi'])]

    def host(self, w, x):
        w['x'] = x
        if w['h'] == 'rv':
            w['f'] = x
        else:
            y = pb.RV('y', vtype=bool)
            w['f'] = {'rf': lambda: pb.RF(y, x), 'sd': lambda: x | y, 'sp': lambda: pb.SP(pb.RF(x, y))}[w['h']]()
            w['py'] = 1. if w['h'] == 'sd' else .5

    def do_define(self, w, act):
        w['h'], w['py'] = act['h'], 1.
        self.host(w, pb.RV('x', vtype=float, vset=self.vset(act['d'])))
        self.declare(w, act['c'])

    def do_redefine(self, w, act):
        w['x'].vset = self.vset(act['d'])

    def do_declare(self, w, act):
        self.declare(w, act['c'])

    def declare(self, w, c):
        f, a, x = c['f'], c['a'], w['x']
        log = a % 2 == 0
        scale = dict(pscale='log' if log else 1.)
        if c['w'] == 'scipy':
            dist, pars, names = SCIPY[f](a)
            x.set_prob(dist, *pars, **scale)
        elif c['w'] == 'keywords':
            dist, pars, names = SCIPY[f](a)
            x.set_prob(dist, **dict(zip(names, pars)), **scale)
        elif c['w'] == 'sympy':
            x.set_prob(SYMPY[f](x.name, a), **scale)
        elif c['w'] == 'tuple':
            x.set_prob((lambda v: np.log(pdf(f, a, v))) if log else (lambda v: pdf(f, a, v)), **scale)
            x.set_pfun((lambda v: cdf(f, a, v), lambda q: icdf(f, a, q)))
        else:
            x.set_prob(lambda v, a: np.log(pdf(f, a, v)) if log else pdf(f, a, v), a=a, **scale)
            x.set_pfun((lambda b, v, k: cdf(f, b * k, v), lambda b, q, k: icdf(f, b * k, q)), a, k=1)

    def do_tran(self, w, act):
        t = act['t']
        if act['w'] == 'tuple':
            w['x'].set_tran(lambda **kw: pdf(t, kw['x'], kw["x'"]))
            w['x'].set_tfun((lambda **kw: cdf(t, kw['x'], kw["x'"]), lambda **kw: icdf(t, kw['x'], kw["x'"])))
        else:
            w['x'].set_tran(lambda p, v, k: pdf(t, p * k, v), order={'x': 0, "x'": 1}, k=1)
            w['x'].set_tfun((lambda p, v, k: cdf(t, p * k, v), lambda p, v, k: icdf(t, p * k, v)), order={'x': 0, "x'": 1}, k=1)

    # ---------------------------------------------------------------- drawing
    def guard(self, call, *args, **kwds):
        try:
            with np.errstate(all='ignore'):
                return call(*args, **kwds)
        except Exception as e:
            raise Mismatch('raised %s: %s' % (type(e).__name__, e))

    def do_draw(self, w, act):
        n, c = act['n'], act['c']
        f = w['f']
        np.random.seed(5)
        slow = c['w'] == 'sympy'
        def call(k, other=None):
            if w['h'] == 'rv':
                return self.guard(f, {k})
            if other is None:
                other = 1 if n else {0}
            return self.guard(f, {'y': other, 'x': {k}} if n % 2 else {'x': {k}, 'y': other})
        if n == 0:
            reps = 30 if slow else 120
            if w['h'] == 'sp':
                sampler = self.guard(f.sampler, {0})
                ds = [self.guard(next, sampler) for _ in range(reps)]
            else:
                ds = [call(0) for _ in range(reps)]
            self.judge(act, [self.one(d, 'x', c, w['py']) for d in ds])
        else:
            d = call(n if n > 0 else -(120 if slow else 1500))
            self.judge(act, self.many(d, 'x', c, w['py']))
            if w['h'] in ('rf', 'sp') and n > 1:       # alongside all values of another variable
                d = call(n, None if n % 2 else np.array([False, True]))
                self.judge(act, self.many(d, 'x', c, w['py']))

    def density(self, d, k, c, v, f):
        p = np.asarray(d.rescaled(1.).prob, dtype=float)
        want = pdf(c['f'], c['a'], v) * f
        if p.ndim == 2:
            p = p[:, 0] if d.dims[k] == 0 else p[0]
        if np.shape(p) != np.shape(want) or not np.allclose(p, want, rtol=1e-6, atol=1e-9):
            raise Mismatch('values %s should have density %s, have %s' % (v, want, p))

    def one(self, d, k, c, f):
        if np.ndim(d[k]) or d.dims[k] is not None:
            raise Mismatch('one value has shape %s' % (np.shape(d[k]),))
        v = float(d[k])
        self.density(d, k, c, v, f)
        return v

    def many(self, d, k, c, f):
        v = np.ravel(np.asarray(d[k], dtype=float))
        self.density(d, k, c, v, f)
        return v

    def judge(self, act, got):
        c, d = act['c'], act['d']
        got = np.asarray(got, dtype=float)
        tol = 1e-9 * (1. + np.abs(got))
        if np.any(~np.isfinite(got)) or np.any(got < d['lo'] - tol) or np.any(got > d['hi'] + tol):
            raise Mismatch('%s from %s beyond the limits %s' % (got, c, d))
        lev = cdf(c['f'], c['a'], got)
        lo, hi = rat(act['l']), rat(act['h'])
        if act['n'] > 0:
            want = np.array([rat(r) for r in act['ans']])
            if len(got) != len(want):
                raise Mismatch('%d values asked for, %d given' % (len(want), len(got)))
            if not np.allclose(lev, want, rtol=0, atol=1e-6):
                raise Mismatch('values should be at levels %s, %s are at %s' % (want, got, lev))
        else:
            ks((lev - lo) / (hi - lo), str(c))

    def do_step(self, w, act):
        n, p, x = act['n'], act['p'], w['x']
        act['c'] = dict(act['c'], a=p)
        np.random.seed(9)
        if n == 0:
            ds = [self.guard(x.step, float(p), {0}) for _ in range(120)]
            self.present(ds[-1], p)
            self.judge(act, [self.one(self.cond(d), "x'", act['c'], 1.) for d in ds])
        else:
            d = self.guard(x.step, float(p), {n if n > 0 else -1500})
            self.present(d, p)
            self.judge(act, self.many(self.cond(d), "x'", act['c'], 1.))

    def cond(self, d):
        return pb.PD(d.name, dict(d), dims=dict(d.dims), prob=d.prob, pscale=1.)  # transitions are declared as they are

    def present(self, d, p):
        if float(d['x']) != float(p):
            raise Mismatch('a step from %s is reported from %s' % (p, d['x']))

    def do_at(self, w, act):
        p, x = act['p'], w['x']
        act['c'] = dict(act['c'], a=p)
        d = self.guard(x.step, float(p), {rat(act['ans'][0])})
        self.present(d, p)
        self.judge(act, self.many(self.cond(d), "x'", act['c'], 1.))

    # --------------------------------------------------------------- booleans
    def do_bias(self, w, act):
        p, s = rat(act['p']), act['s']
        if s == 1:
            p, sc = np.log(p) if p > 0 else -1e308, 'log'
        elif s == 2:
            p, sc = p / 4., 4.
        else:
            sc = 1.
        if 'x' in w:
            w['x'].set_prob(p, pscale=sc) if act['e'] else w['x'].set_prob(p)
            return
        w['h'] = act['h']
        if act['e']:
            x = pb.RV('x', vtype=bool, prob=p, pscale=sc)
        else:
            x = pb.RV('x', vtype=bool)
            x.set_prob(p, pscale=sc)
        self.host(w, x)

    def do_toss(self, w, act):
        n, p, f = act['n'], rat(act['p']), w['f']
        np.random.seed(3)
        reps = 150 if n == 0 else 600
        if w['h'] == 'sp':
            sampler = self.guard(f.sampler, {0})
            vals = [self.guard(next, sampler)['x'] for _ in range(reps)]
        elif n == 0:
            vals = [self.guard(f, {0})['x'] if w['h'] == 'rv' else self.guard(f, {'x': {0}, 'y': {0}})['x'] for _ in range(reps)]
        else:
            d = self.guard(f, {-reps}) if w['h'] == 'rv' else self.guard(f, {'x': {-reps}, 'y': True})
            vals = list(np.ravel(d['x']))
        if len(vals) != reps or any(not isinstance(v, (bool, np.bool_)) for v in vals):
            raise Mismatch('%d booleans asked for, %d values %s given' % (reps, len(vals), vals[:3]))
        k = sum(map(bool, vals))
        if abs(k - reps * p) > 7. * np.sqrt(reps * p * (1. - p)) + 1e-9:
            raise Mismatch('true should come up with probability %s, came up %d times in %d' % (p, k, reps))
