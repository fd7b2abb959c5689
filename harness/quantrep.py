"""Replays spec/Quant.tla: quantile queries against PD.quantile()."""
import numpy as np
import probayes as pb
from core import Mismatch
from distrep import store_on, scale_of

SC = [dict(lg=0, c=0), dict(lg=1, c=0), dict(lg=0, c=3), dict(lg=1, c=-2),
      dict(lg=1, c=0, dg=-1), dict(lg=1, c=0, dg=1)]    # far below and above what is representable


class QuantReplay:
    def __init__(self, den):
        self.den = den

    def start(self): pass
    def stop(self): pass
    def initial(self): return None
    def judged(self, act, n): return act['op'] == 'ask'

    def step(self, st, act, rec):
        if act['op'] == 'pick':
            s = SC[act['s']]
            v, w = np.array(act['v'], dtype=float), np.array(act['w'], dtype=float) / 8.
            vals, dims = {'x': v}, {'x': 0}
            name = 'x'
            if len(v) % 2:
                vals['a'], dims['a'], name = 5, None, 'x|a'
            d = pb.PD(name, vals, dims=dims, prob=store_on(w, s, s.get('dg', 0)), pscale=scale_of(s))
            levels = [k / self.den for k in range(self.den + 1)]
            with np.errstate(all='ignore'):
                try:
                    many = [float(q['x']) for q in d.quantile(levels)]
                except Exception as e:
                    many = e
            return (d, -np.inf, many)
        d, prev, many = st
        with np.errstate(all='ignore'):
            try:
                if isinstance(many, Exception):
                    raise many
                got = d.quantile(act['k'] / self.den)
                x = float(got['x'])
            except Exception as e:
                raise Mismatch('quantile raised %s: %s' % (type(e).__name__, e))
        tol = 1e-7
        if 'a' in d and got.get('a') != 5:
            raise Mismatch('fixed variable lost: %r' % (got,))
        if not np.isfinite(x) or x < act['lo'] - tol or x > act['hi'] + tol:
            raise Mismatch('quantile %d/%d should lie in [%s, %s], is %r' % (act['k'], self.den, act['lo'], act['hi'], x))
        if x < prev - tol:
            raise Mismatch('quantile %d/%d is %r, below the quantile %r of a smaller level' % (act['k'], self.den, x, prev))
        if abs(many[act['k']] - x) > tol:
            raise Mismatch('quantile %d/%d asked alone is %r but in a list %r' % (act['k'], self.den, x, many[act['k']]))
        return (d, x, many)
