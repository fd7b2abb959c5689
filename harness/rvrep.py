"""Replays spec/RVar.tla into probayes.RV objects."""
import warnings
import numpy as np
import scipy.stats, sympy, sympy.stats
import probayes as pb
from core import Mismatch, HarnessError
from varrep import VarReplay, spell, TY, transformation, val, typed
from distrep import denote

NEG = -1.7976931348623157e+308
LIB = ('binom', 'unif', 'syunif')
PSC = {0: 1., 1: 'log', 2: 2., 3: 1.5 + 0.j}
WT = {1: {1: [8]}, 2: {1: [3, 5], 2: [8, 0], 3: [1, 7]}, 3: {1: [1, 2, 5], 2: [0, 6, 2], 3: [4, 4, 0]},
      4: {1: [1, 2, 2, 3], 2: [0, 0, 7, 1], 3: [2, 4, 2, 0]}}


DENS = {'dsq': lambda x: (x + 10) ** 2, 'dinv': lambda x: 1 / (x + 10), 'daff': lambda x: 3 * x + 1, 'dneg': lambda x: -2 * x}


def onscale(p, sc):
    """numbers stored on the scale for probabilities p"""
    p = np.asarray(p, dtype=float)
    if sc in (0, 2):
        return p / PSC[sc]
    with np.errstate(all='ignore'):
        return np.where(p > 0, np.log(np.where(p > 0, p, 1.)) - (0. if sc == 1 else 1.5), NEG)


class RvReplay(VarReplay):
    """asks are judged, declarations are judged with the questions that follow"""
    def build(self, prog):
        rv, st = None, {}
        for a in prog:
            if a['op'] == 'define':
                st = dict(dom=a['d'], tr='none', sc=a['sc'])
                args = dict(vtype=TY[a['d']['ty']])
                s = spell(a['d'], 'none')
                if s is not None:
                    args['vset'] = s
                kw = {} if a['sc'] == 0 else dict(pscale=PSC[a['sc']])
                probs, pkw = self.decl(a['c'], st, None)
                pos = pkw.pop('*', ())
                if a['c']['k'][:2] == 'sy':
                    rv = pb.RV('v', **args, **kw)
                    rv.set_prob(self.decl(a['c'], st, rv)[0])
                elif probs is None:
                    rv = pb.RV('v', **args, **kw)
                elif pos:
                    rv = pb.RV('v', args.get('vset'), args['vtype'], probs, *pos, **kw, **pkw)
                else:
                    rv = pb.RV('v', prob=probs, **args, **kw, **pkw)
            elif a['op'] == 'redefine':
                st['dom'] = a['d']
                rv.vset = spell(a['d'], st['tr'])
            elif a['op'] == 'ufun':
                st['tr'] = a['t']
                if a['t'] == 'none':
                    rv.set_ufun(None)
                    rv.vset = spell(st['dom'], 'none')
                else:
                    if a['t'] in ('log2', 'nlog2'):
                        rv.vset = spell(st['dom'], a['t'])
                    else:
                        rv.vset = spell(st['dom'], 'none')
                    if a['t'] in DENS:
                        rv.set_ufun(DENS[a['t']](rv[:]), no_ucov=True)
                    else:
                        rv.set_ufun(transformation(rv, a['t'], (st['dom']['hi'] + len(prog)) % 2))
            elif a['op'] == 'setprob':
                p, kw = self.decl(a['c'], st, rv)
                pos = kw.pop('*', ())
                rv.set_prob(p, *pos, **kw)
            elif a['op'] == 'settran':
                t = a['t']
                if t['k'] == 'scalar':
                    n = st['dom']['hi'] - st['dom']['lo'] if st['dom']['ty'] == 'float' else len(st['dom']['mem'])
                    rv.set_tran(float(onscale(1. / n, st['sc'])))
                else:
                    m = self.matrix(t['m'])
                    if t['k'] == 'matrix':
                        rv.set_tran(onscale(m, st['sc']))
                    elif t['k'] == 'pair':
                        rv.set_tran((onscale(m, st['sc']), onscale(self.matrix(t['r']), st['sc'])))
                    else:
                        mem = sorted(st['dom']['mem'])
                        # the function belongs to ranks, so that the domain can be redefined
                        def f(succ, pred, rv=rv, m=onscale(m, st['sc'])):
                            vs = sorted(int(v) for v in rv.vset)
                            ix = lambda x: np.searchsorted(vs, np.asarray(x).astype(int))
                            return m[ix(succ), ix(pred)]
                        rv.set_tran(f, order={"v'": 0, 'v': 1} if len(mem) % 2 else {"v'": 'succ', 'v': 'pred'})
        return rv, st

    @staticmethod
    def matrix(cols):
        c = np.array(cols, dtype=float)
        return c.T / c.sum(axis=1)

    def decl(self, c, st, rv):
        dom, sc = st['dom'], st['sc']
        if c['k'] == 'default':
            return None, {}
        if c['k'] == 'table':
            p = onscale(np.array(WT[len(dom['mem'])][c['w']]) / 8., sc)
            return (p if c['w'] % 2 else p.tolist()), {}
        if c['k'] == 'bias':
            return float(onscale(c['w'] / 8., sc)), {}
        if c['k'] == 'func':
            if c['w'] == 1:
                return (lambda v: onscale((4 + np.asarray(v).astype(int) % 3) / 8., sc)), {}
            return (lambda v, k: onscale((1 + np.asarray(v).astype(int) % 2) / float(k), sc)), {'k': 4}
        if c['k'] == 'ramp':
            return (lambda v: onscale((np.asarray(v) + 16.) / 32., sc)), {}
        if c['k'] == 'binom':
            return scipy.stats.binom, ({'*': (3, .5)} if len(dom['mem']) % 2 else dict(n=3, p=.5))
        if c['k'] == 'unif':
            return scipy.stats.uniform, ({'*': (0., 4.)} if dom['lo'] else dict(loc=0., scale=4.))
        if c['k'] == 'syunif':
            return (sympy.stats.Uniform(rv[:], 0, 4) if rv is not None else None), {}
        if c['k'] == 'syramp':
            e = None if rv is None else (rv[:] + 16) / 32. if not sc else (rv[:] + 16) / 32. / PSC[2] if sc == 2 else sympy.log((rv[:] + 16) / 32.) - (1.5 if sc == 3 else 0.)
            return e, {}
        raise HarnessError(c)

    def step(self, st, act, rec):
        prog = st + (act,)
        if act['op'] not in ('prob', 'tran', 'level', 'place'):
            return prog
        with np.errstate(all='ignore'), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                rv, s = self.build(st)
                s['decl'] = self.last_decl(st)
                s['lib'] = s['decl'] in LIB
                return getattr(self, 'do_' + act['op'])(rv, s, act)
            except (Mismatch, HarnessError):
                raise
            except Exception as e:
                raise Mismatch('%s raised %s: %s' % (act['op'], type(e).__name__, e))

    @staticmethod
    def last_decl(prog):
        return [a['c']['k'] for a in prog if 'c' in a][-1]

    # --------------------------------------------------------------- compare
    def vals(self, js, s):
        return np.array([self.phys(j, s['dom'], s['tr']) for j in js], dtype=TY[s['dom']['ty']])

    def same(self, got, want, s, what, lib=False):
        ps = PSC[s['sc']] if not (lib and s['sc'] in (2, 3)) else (1. if s['sc'] == 2 else 'log')
        ps = 0.j if ps == 'log' else ps
        got = np.asarray(got, dtype=float)
        if got.shape != np.shape(want):
            raise Mismatch('%s has shape %r, should be %r' % (what, got.shape, np.shape(want)))
        if np.any(np.isnan(got)) or (s['sc'] in (0, 2) and np.any(np.isinf(got))):
            raise Mismatch('%s is %r' % (what, got))
        d = denote(got, ps)
        if not np.allclose(d, want, rtol=1e-9, atol=1e-12):
            raise Mismatch('%s is %r (stored as %r), should be %r' % (what, d.tolist(), got.tolist(), np.asarray(want).tolist()))

    def do_prob(self, rv, s, act):
        lib = s['lib']
        xs = self.vals(act['at'], s)
        want = np.array([a / b for a, b in act['ans']])
        keep = np.copy(xs)
        pd = rv(xs)
        self.same(pd.prob, want, s, 'p(%s)' % xs.tolist(), lib)
        if not np.array_equal(np.ravel(pd['v']), keep) or not np.array_equal(xs, keep):
            raise Mismatch('asking for %r gives values %r' % (keep, pd['v']))
        if pd.dims['v'] != 0 or list(pd.marg) != ['v'] or pd.cond:
            raise Mismatch('asking for an array gives dims %r, marginal %r given %r' % (pd.dims, list(pd.marg), list(pd.cond or ())))
        self.scale(pd, s, lib)
        for i, x in enumerate(xs):
            for one in (self.phys(act['at'][i], s['dom'], s['tr']), x):
                pd = rv(one)
                self.same(pd.prob, want[i], s, 'p(%r)' % (one,), lib)
                if pd['v'] != x or pd.dims['v'] is not None or pd.name != 'v={}'.format(one):
                    raise Mismatch('asking for %r gives %r named %s' % (one, dict(pd), pd.name))
        if s['dom']['ty'] != 'float' and (not lib or set(s['dom']['mem']) <= {0, 1, 2, 3}):
            pd = rv()
            self.same(pd.prob, [a / b for a, b in act['all']], s, 'p over the whole domain', lib)
            if list(pd['v']) != [self.phys(j, s['dom'], s['tr']) for j in s['dom']['mem']] or pd.name != 'v':
                raise Mismatch('the whole domain gives %r named %s' % (pd['v'], pd.name))
        # requested counts and draws are reported with the probability of the values they give
        if not lib:
            by = {float(x): w for x, w in zip(xs, want)}
            np.random.seed(3)
            for req in ({2}, {-3}, {0}):
                pd = rv(req)
                got = np.ravel(pd['v'])
                p = np.ravel(denote(np.ravel(pd.prob), {1: 0.j}.get(s['sc'], PSC[s['sc']])))
                if len(got) != max(1, abs(list(req)[0])) or len(p) != len(got) or not typed(got, s['dom']['ty']):
                    raise Mismatch('request %r gives values %r with %r' % (req, pd['v'], pd.prob))
                for g, q in zip(got, p):
                    if not self.inside(g, s['dom'], s['tr']):
                        raise Mismatch('request %r gives %r outside the domain' % (req, got))
                    if float(g) in by and abs(q - by[float(g)]) > 1e-9:
                        raise Mismatch('request %r gives %r with probability %r, should be %r' % (req, g, q, by[float(g)]))
        if s['dom']['ty'] == 'bool' and self.known_bias(act) is not None:
            self.biased(rv, s, self.known_bias(act))

    def known_bias(self, act):
        return dict(zip(act['at'], [a / b for a, b in act['ans']])).get(1)

    def biased(self, rv, s, p):
        """a declared bias, or the default, is what booleans are drawn with"""
        if s.get('decl') not in ('bias', 'default'):
            return
        n = 400
        np.random.seed(5)
        k = int(np.sum(rv({-n})['v']))
        sd = np.sqrt(p * (1 - p) * n)
        if abs(k - n * p) > 8 * sd + 1:
            raise Mismatch('%d of %d draws are true, for a probability of %r' % (k, n, p))

    def scale(self, pd, s, lib):
        want = {1: 0.j}.get(s['sc'], PSC[s['sc']])
        if pd.pscale != want:
            raise Mismatch('the distribution is on scale %r, should be %r' % (pd.pscale, want))

    def do_tran(self, rv, s, act):
        rev = bool(act['rev'])
        S = act['at']
        xs = self.vals(S, s)
        Q = np.array([[a / b for a, b in row] for row in act['ans']])   # [succ][pred]
        pd = rv.step(xs, np.copy(xs[::-1]), reverse=rev)
        self.same(pd.prob, Q[::-1], s, 'p(%s | %s)' % (xs[::-1].tolist(), xs.tolist()))
        self.pdok(pd, xs[::-1], xs)
        pd = rv.step((xs[:1], xs), reverse=rev)
        self.same(pd.prob, Q[:, :1], s, 'p(%s | %s)' % (xs.tolist(), xs[:1].tolist()))
        for j in range(len(S)):
            one = self.phys(S[j], s['dom'], s['tr'])
            pd = rv.step(one, xs, reverse=rev)
            self.same(pd.prob, Q[:, j], s, 'p(%s | %r)' % (xs.tolist(), one))
            if pd.dims["v'"] != 0 or pd.dims['v'] is not None:
                raise Mismatch('dims %r for one predecessor' % (pd.dims,))
            pd = rv.step(xs, one, reverse=rev)
            self.same(pd.prob, Q[j, :], s, 'p(%r | %s)' % (one, xs.tolist()))
            for i in range(len(S)):
                two = self.phys(S[i], s['dom'], s['tr'])
                pd = rv.step(one, two, reverse=rev)
                self.same(pd.prob, Q[i, j], s, 'p(%r | %r)' % (two, one))
                if pd.name != "v'=%s|v=%s" % (two, one):
                    raise Mismatch('named %s' % pd.name)
        if s['dom']['ty'] != 'float' and list(S) == list(s['dom']['mem']):
            pd = rv.step(reverse=rev)
            self.same(pd.prob, Q, s, 'p over the whole domain')
            self.pdok(pd, xs, xs)
            if pd.name != "v'|v":
                raise Mismatch('named %s' % pd.name)

    def pdok(self, pd, succ, pred):
        if not np.array_equal(np.ravel(pd["v'"]), succ) or not np.array_equal(np.ravel(pd['v']), pred) \
                or dict(pd.dims) != {"v'": 0, 'v': 1} or list(pd.marg) != ["v'"] or list(pd.cond) != ['v']:
            raise Mismatch('values %r with dims %r for successors %r of %r' % (dict(pd), pd.dims, succ, pred))

    def do_level(self, rv, s, act):
        rev = bool(act['rev'])
        one = self.phys(act['at'], s['dom'], s['tr'])
        mem = sorted(s['dom']['mem'])
        q = {m: a / b for m, (a, b) in zip(mem, act['q'])}
        for l, hits in enumerate(act['ans']):
            lev = l / act['den']
            pd = rv.step(one, {lev}, reverse=rev)
            self.succ(pd, hits, q, s, 'level %r from %r' % (lev, one))
        np.random.seed(2)
        poss = [m for m in mem if q[m] > 0]
        for req in ({0}, {-5}, {5}, {2}):
            for r in range(8 if req == {0} else 2):
                pd = rv.step(one, req, reverse=rev)
                got = self.succ(pd, poss, q, s, 'successors %r of %r' % (req, one))
                if len(got) != max(1, abs(list(req)[0])):
                    raise Mismatch('%r asked for, %r given' % (req, got))
        pd = rv.step(one, reverse=rev)
        self.succ(pd, poss, q, s, 'a successor of %r' % (one,))
        seen = set(np.ravel(rv.step(one, {-300}, reverse=rev)["v'"]).astype(int).tolist())
        if seen != set(poss):
            raise Mismatch('successors of %r reach %r of the possible states %r' % (one, sorted(seen), poss))

    def succ(self, pd, hits, q, s, what):
        got = np.ravel(pd["v'"])
        p = np.ravel(denote(np.ravel(pd.prob), {1: 0.j}.get(s['sc'], PSC[s['sc']])))
        if not typed(got, s['dom']['ty']) or len(got) != len(p):
            raise Mismatch('%s gives %r with %r' % (what, got, pd.prob))
        for g, x in zip(got, p):
            if int(g) not in hits:
                raise Mismatch('%s should give one of %r, gives %r' % (what, hits, got.tolist()))
            if abs(x - q[int(g)]) > 1e-9:
                raise Mismatch('%s gives %r with probability %r, should be %r' % (what, g, x, q[int(g)]))
        return got

    def do_place(self, rv, s, act):
        pd = rv.step(self.phys(s['dom']['lo'] + 1, s['dom'], s['tr']), {act['l'] / 4.})
        want = val(act['ans'][0] / act['ans'][1], s['tr'])
        got = np.ravel(pd["v'"])
        if len(got) != 1 or abs(got[0] - want) > 1e-9 * max(1., abs(want)):
            raise Mismatch('level %r of a uniform transition gives %r, should be %r' % (act['l'] / 4., got, want))
