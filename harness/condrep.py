"""Replays spec/CondNorm.tla: one variable of a multivariate normal given the others."""
import numpy as np
import scipy.stats
import probayes as pb
from probayes.cond_cov import CondCov
from core import Mismatch, HarnessError
from bindrep import BindReplay

norm = scipy.stats.norm


def rat(r):
    return r[0] / float(r[1])


def ks(levels, what):
    """levels that should be uniform; a false alarm has a chance of less than one in 10^10"""
    levels = np.asarray(levels)
    if np.any(levels < -1e-9) or np.any(levels > 1 + 1e-9):
        raise Mismatch('%s: values beyond the limits' % what)
    n = len(levels)
    s = np.sort(levels)
    d = max(np.max(np.arange(1, n + 1) / n - s), np.max(s - np.arange(n) / n))
    if d * np.sqrt(n) > 3.5:
        raise Mismatch('%s: %d random values do not follow the conditional normal (distance %.3f)' % (what, n, d))


class CondReplay(BindReplay):
    NAMES = ['x', 'y', 'z']

    def do_define(self, w, act):
        c = act['c']
        w['c'], w['host'] = c, act['host']
        mu, cov = np.array(c['mu'], dtype=float), np.array(c['cov'], dtype=float)
        lims = np.array([(-np.inf, np.inf) if l == [0, 0] else l for l in c['lims']], dtype=float)
        w['lims'], w['mu'] = lims, mu
        if act['host'] == 'own':
            w['f'] = CondCov(mu, cov, lims)
            return
        if 'f' not in w:
            rvs = [pb.RV(k, vtype=float, vset=tuple(l)) for k, l in zip(self.NAMES, lims)]
            w['f'] = pb.SP(pb.RF(*rvs)) if act['host'] == 'sp' else pb.RF(*rvs)
        # the distribution can be declared by its parameters or by name
        kw = dict(mean=mu, cov=cov) if c['s'] % 2 else {}
        log = dict(pscale='log') if sum(map(sum, c['cov'])) % 2 else dict(pscale=1.)
        w['f'].set_prob(scipy.stats.multivariate_normal, *(() if kw else (mu, cov)), **kw, **log)
        w['f'].set_tran(scipy.stats.multivariate_normal, *(() if kw else (mu, cov)), **kw)

    def do_ask(self, w, act):
        try:
            with np.errstate(all='ignore'):
                self.own(w, act) if w['host'] == 'own' else self.field(w, act)
        except (Mismatch, HarnessError):
            raise
        except Exception as e:
            raise Mismatch('raised %s: %s' % (type(e).__name__, e))

    def own(self, w, act):
        i, k = act['i'] - 1, act['k']
        m, sd = rat(act['m']), np.sqrt(rat(act['v']))
        lo, hi = norm.cdf(w['lims'][i], loc=m, scale=sd)
        args = [float(v) for v in act['x']]
        what = '%s given %s' % (self.NAMES[i], [a for j, a in enumerate(args) if j != i])
        np.random.seed(7)
        if k > 0:
            got, pdf = w['f'].interp(*[{k} if j == i else a for j, a in enumerate(args)], cond_pdf=True)
            lev = np.linspace(lo, hi, 3)[1:-1] if k == 1 else np.linspace(lo, hi, k)
            want = norm.ppf(lev, loc=m, scale=sd)
            again = w['f'].interp(*[{k} if j == i else np.float64(a) for j, a in enumerate(args)])
            if not np.array_equal(got, again):
                raise Mismatch('%s: %s with densities, %s without' % (what, got, again))
        elif k == 0:
            got, pdf = zip(*[w['f'].interp(*[{0} if j == i else a for j, a in enumerate(args)], cond_pdf=True) for _ in range(120)])
            if np.shape(got) != (120,):
                raise Mismatch('%s: a single value has shape %s' % (what, np.shape(got)[1:]))
            want = None
        else:
            got, pdf = w['f'].interp(*[{k} if j == i else a for j, a in enumerate(args)], cond_pdf=True)
            if np.shape(got) != (-k,):
                raise Mismatch('%s: %d values have shape %s' % (what, -k, np.shape(got)))
            want = None
        got, pdf = np.array(got), np.array(pdf)
        if want is not None:
            mid = (lev > 1e-6) & (lev < 1 - 1e-6)      # further out levels round
            if got.shape != want.shape or not np.allclose(got[mid], want[mid], rtol=1e-6, atol=1e-6) or not np.allclose(norm.cdf(got, loc=m, scale=sd), lev, rtol=0, atol=1e-9):
                raise Mismatch('%s should be %s, is %s' % (what, want, got))
        else:
            ks((norm.cdf(got, loc=m, scale=sd) - lo) / (hi - lo), what)
        if np.any(got < w['lims'][i][0] - 1e-6) or np.any(got > w['lims'][i][1] + 1e-6):
            raise Mismatch('%s is %s, beyond the limits %s' % (what, got, w['lims'][i]))
        if not np.allclose(pdf, norm.pdf(got, loc=m, scale=sd), rtol=1e-6, atol=1e-9):
            raise Mismatch('%s has densities %s, should be %s' % (what, pdf, norm.pdf(got, loc=m, scale=sd)))

    def field(self, w, act):
        n, mu, lims = w['c']['n'], w['mu'], w['lims']
        names = self.NAMES[:n]
        levels = [[] for _ in range(n)]
        np.random.seed(11)
        reps = 150
        for t in range(reps):
            ks_ = names if t % 2 else names[::-1]
            d = w['f'].step({key: float(act['x'][names.index(key)]) for key in ks_}, {0})
            x = np.array(act['x'], dtype=float)
            for j, key in enumerate(names):
                if float(d[key]) != x[j] and float(d[key]) != float(act['x'][j]):
                    raise Mismatch('the step from %s starts at %s' % (act['x'], d[key]))
            for j, key in enumerate(names):
                others = [o for o in range(n) if o != j]
                m = mu[j] + sum(rat(c) * (x[o] - mu[o]) for c, o in zip(act['coefs'][j], others))
                sd = np.sqrt(rat(act['vs'][j]))
                v = float(d[key + "'"])
                lo, hi = norm.cdf(lims[j], loc=m, scale=sd)
                if v < lims[j][0] - 1e-6 or v > lims[j][1] + 1e-6:
                    raise Mismatch('step of %s from %s to %s beyond the limits %s' % (key, act['x'], v, lims[j]))
                levels[j].append((norm.cdf(v, loc=m, scale=sd) - lo) / (hi - lo))
                x[j] = v
        for j, key in enumerate(names):
            ks(levels[j], 'steps of %s from %s' % (key, act['x']))

    def do_density(self, w, act):
        n = w['c']['n']
        names = self.NAMES[:n]
        want = np.exp(-.5 * np.array([rat(r) for r in act['r']])) / np.sqrt((2. * np.pi) ** n * act['det'])
        grid = [np.array(g, dtype=float) for g in act['g']]
        # a grid of one value can be a number
        vals = {k: float(g[0]) if len(g) == 1 and act['q'] > 2 else g for k, g in zip(names, grid)}
        if act['q'] % 2:
            vals = dict(reversed(list(vals.items())))
        try:
            d = w['f'](vals) if act['q'] % 3 else w['f'](**vals)
            got = d.rescaled(1.)
        except Exception as e:
            raise Mismatch('the density raised %s: %s' % (type(e).__name__, e))
        prob = np.asarray(got.prob, dtype=float)
        # read by the values of each point, whatever the order of dimensions
        sizes = [len(g) for g in grid]
        for k, (ix, p) in enumerate(zip(np.ndindex(*sizes), want)):
            at = [0] * max(prob.ndim, 1)
            for name, i in zip(names, ix):
                v = np.ravel(np.asarray(got[name], dtype=float))
                x = float(grid[names.index(name)][i])
                if v[i if len(v) > 1 else 0] != x:
                    raise Mismatch('values of %s became %s' % (name, v))
                if got.dims[name] is not None and len(v) > 1:
                    at[got.dims[name]] = i
            have = float(prob) if prob.ndim == 0 else float(prob[tuple(at)])
            if not np.isclose(have, p, rtol=1e-8, atol=1e-12):
                raise Mismatch('the density at %s should be %.9g, is %.9g' % ([float(g[i]) for g, i in zip(grid, ix)], p, have))
