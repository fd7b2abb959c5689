"""Replays spec/Scales.tla: scalars and arrays on probability scales."""
import numpy as np
from probayes import pscales as ps
from core import Mismatch
from distrep import denote


def number(x):
    (n, d), k = x
    return n / d * np.exp(k)


def scale(s, form=0):
    """A scale as it is given to probayes: the plain ones can be written in several ways"""
    if s['lg']:
        if s['c'] == [1, 1] and s['o'] == 0:
            return (0.j, 'log', 0, 0., 'ln')[form % 5]
        return complex(s['o'] + np.log(s['c'][0] / s['c'][1]), float(s['im']))
    c = number((s['c'], s['o']))
    if c == 1.:
        return (1., None, 1)[form % 3]
    if c == int(c):
        return (c, int(c))[form % 2]
    return c


class ScaleReplay:
    def start(self): pass
    def stop(self): pass
    def initial(self): return []
    def judged(self, act, n): return act['op'] != 'store'

    def step(self, st, act, rec):
        n = len(st)
        if act['op'] == 'store':
            v = np.array([a / b for a, b in act['v']])
            s = scale(act['s'])
            if act['s']['lg']:
                off = -s.real if s.imag else s.real
                x = np.array([np.log(p) - off if p > 0 else ps.NEARLY_NEGATIVE_INF for p in v])
            else:
                x = v / s
            if len(x) == 1:
                x = float(x[0])
            return st + [(x, s, act['s'])]
        before = [np.copy(x) for x, _, _ in st]
        form = n + sum(act.get('is', [act.get('i', 0)])) + act.get('to', 0)
        to = None
        if act.get('to') or act['op'] == 'rescale':
            to = scale(act['r']['s'], form)
        try:
            with np.errstate(all='raise', under='ignore', over='ignore'):
                if act['op'] == 'rescale':
                    x, s, d = st[act['i'] - 1]
                    got = ps.rescale(x, to) if s == 1. and n % 2 and not isinstance(s, complex) else ps.rescale(x, scale(d, form), to)
                    lab = ps.eval_pscale(to)
                elif act['op'] == 'div':
                    (x, s, d), (y, t, e) = st[act['i'] - 1], st[act['j'] - 1]
                    kw = {} if not act['to'] else dict(pscale=to if to is not None else 1.)
                    if not (isinstance(s, complex) or isinstance(t, complex) or s != 1. or t != 1.) and n % 2:
                        got = ps.div_prob(x, y, **kw)
                    else:
                        got = ps.div_prob(x, y, scale(d, form), scale(e, form), **kw)
                    lab = ps.eval_pscale(scale(act['r']['s']))
                else:
                    xs = [st[i - 1] for i in act['is']]
                    kw = {}
                    if act['use'] < 2:
                        kw['use_logp'] = bool(act['use'])
                    if act['to']:
                        kw['pscale'] = to
                    if not all(not isinstance(s, complex) and s == 1. for _, s, _ in xs) or n % 2:
                        kw['pscales'] = [scale(d, form + i) for i, (_, _, d) in enumerate(xs)]
                    got, lab = ps.prod_rule(*[x for x, _, _ in xs], **kw)
                    lab = ps.eval_pscale(lab)
        except Exception as e:
            raise Mismatch('%s raised %s: %s' % (act['op'], type(e).__name__, e))
        want = np.array([a / b for a, b in act['g']])
        s = act['r']['s']
        if isinstance(lab, complex) != bool(s['lg']):
            raise Mismatch('%s: scale %r, should be %s' % (act['op'], lab, 'log' if s['lg'] else 'linear'))
        # the logarithm of no probability is very small, or infinitely so once multiplied
        if np.any(np.isnan(got)) or np.any(np.isposinf(got)) or (act['op'] != 'prod' and np.any(np.isinf(got)) and not np.any(np.isinf(np.hstack([x for x, _, _ in st])))):
            raise Mismatch('%s: undefined or infinite %s' % (act['op'], got))
        den = denote(got, lab)
        if np.shape(got) != (() if len(want) == 1 else (len(want),)):
            raise Mismatch('%s: shape %s for %d numbers' % (act['op'], np.shape(got), len(want)))
        if not np.allclose(np.ravel(den), want, rtol=1e-9, atol=1e-12):
            raise Mismatch('%s: should denote %s, denotes %s' % (act['op'], want.tolist(), np.ravel(den).tolist()))
        # as stored
        num = [number(x) for x in act['r']['x']]
        sto = np.exp(np.ravel(got)) if s['lg'] else np.ravel(got)
        if not np.allclose(sto, num, rtol=1e-9, atol=1e-12):
            raise Mismatch('%s: should store %s, stores %s' % (act['op'], num, np.ravel(got).tolist()))
        for (x, _, _), b in zip(st, before):
            if not np.array_equal(x, b):
                raise Mismatch('%s changed its operand from %s to %s' % (act['op'], b, x))
        return st + [(got, lab, s)]
