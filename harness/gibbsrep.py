"""Replays spec/Gibbs.tla into fields and processes with conditional sampling functions."""
import collections, warnings
import numpy as np
import probayes as pb
from core import Mismatch, HarnessError, StepPrograms

M = 11
NAMES = 'bdac'


class Given:
    pass


class GibbsReplay(StepPrograms):
    def initial(self): return None
    def judged(self, act, n): return act['op'] in ('step', 'draw', 'refuse')

    def step(self, st, act, rec):
        with np.errstate(all='ignore'), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                return getattr(self, 'do_' + act['op'])(st, act)
            except (Mismatch, HarnessError):
                raise
            except Exception as e:
                raise Mismatch('%s raised %s: %s' % (act['op'], type(e).__name__, e))

    # ------------------------------------------------------------ declaring
    def functions(self, st, d):
        names = st.names
        def dot(v):
            return sum((i + 2) * int(v[k]) for i, k in enumerate(names))
        def one(rev):
            def f(unknown, offset=0, **v):
                for k in names:
                    if np.ndim(v[k]):
                        raise HarnessError('array given')
                if set(v) - set(names):
                    raise TypeError('unexpected values for %r' % (set(v) - set(names),))
                g = unknown.split(',')
                gc = 0 if len(g) == 1 else 2 * (names.index(g[0]) + 1) + len(g)
                new = {k: (dot(v) + 3 * (names.index(k) + 1) + 5 * rev + gc + offset) % M for k in g}
                st.calls += 1
                return new if len(g) > 1 or st.calls % 2 and d['how'] not in ('plain', 'pair') else new[unknown]
            return f
        fwd, rev = one(0), one(1)
        def tran(rev):
            def f(**v):
                return (1 + (dot({k: v[k] for k in names}) + 2 * dot({k: v[k + "'"] for k in names}) + rev) % 3) / 4.
            return f
        return fwd, rev, tran

    def declare(self, st, d):
        fwd, rev, tran = self.functions(st, d)
        keys = [','.join(st.names[i - 1] for i in g) for g in d['order']]
        kw = {'tsteps': d['ts']} if d['ts'] else {}
        fld = st.field
        if d['tran']:
            t = tran(0)
            if d['how'] == 'pair':
                t = (t, tran(1))
            if d['ts'] % 2:     # the number of variables at a time, declared with the transition
                fld.set_tran(t, **kw)
                kw = {}
            else:
                fld.set_tran(t)
        how = d['how']
        if how == 'plain':
            # a keyword fixed at definition
            fld.set_tfun(fwd, offset=M, **kw)
        elif how == 'pair':
            fld.set_tfun((fwd, rev), **kw)
        elif how == 'list':
            fld.set_tfun(fwd, keys, **kw)
        elif how == 'tuple':
            fld.set_tfun(fwd, tuple(keys), offset=0, **kw)
        else:
            rest = lambda k: ','.join(x for x in st.names if x not in k.split(',')) or ''
            inp = collections.OrderedDict((k, rest(k)) for k in keys)
            if how == 'dict':
                fld.set_tfun(fwd, inp, **kw)
            else:
                fld.set_tfun(pb.CF(fld, inp, fwd), **kw)

    def do_declare(self, st, act):
        st = Given()
        n = act['n']
        st.calls = 0
        st.names = list(NAMES[:n])
        st.rvs = [pb.RV(k, vtype=int, vset=range(M)) for k in st.names]
        st.host = act['host']
        if st.host == 'own':
            st.field = st.proc = pb.SP(pb.RF(*st.rvs))
        else:
            st.field = pb.RF(*st.rvs)
        self.declare(st, act['d'])
        if st.host == 'paras':
            y = pb.RV('y', vtype=int, vset=range(4))
            st.proc = pb.SP(pb.RF(y), st.field)
            st.proc.set_tfun(st.field)
            st.lik = lambda y, **v: (1 + (y + sum((i + 1) * v[k] for i, k in enumerate(st.names))) % 4) / 10.
            st.proc.set_prob(st.lik)
        if st.host != 'field':
            st.proc.set_scores('gibbs')
            init = dict(zip(st.names, act['init']))
            if act['d']['ts'] % 2:
                init = dict(reversed(list(init.items())))
            st.sampler = st.proc.sampler(init) if st.host == 'own' else st.proc.sampler(init, {'y': 2})
            st.last = None
        return st

    def do_redeclare(self, st, act):
        d = dict(act['d'], tran=0)
        self.declare(st, d)
        return st

    # -------------------------------------------------------------- stepping
    def want(self, st, pd, act, what):
        for k, a, b in zip(st.names, act['from'], act['to']):
            if pd[k] != a or pd[k + "'"] != b:
                raise Mismatch('%s takes %s from %r to %r, should be from %r to %r' % (what, k, pd[k], pd[k + "'"], a, b))
        if list(pd.marg) != [k + "'" for k in st.names] or list(pd.cond) != st.names:
            raise Mismatch('%s is named %s' % (what, pd.name))
        if abs(pd.prob - act['p'] / 4.) > 1e-12:
            raise Mismatch('%s has probability %r, should be %r' % (what, pd.prob, act['p'] / 4.))

    def do_step(self, st, act):
        v = dict(zip(st.names, act['from']))
        if act['form'] == 1:
            v = dict(reversed(list(v.items())))
        elif act['form'] == 2:
            a, b, c = st.names[:3]
            v = {k: x for k, x in v.items() if k not in (a, c)}
            v[c + ',' + a] = [act['from'][2], act['from'][0]]
        keep = dict(v)
        pd = st.field.step(v, reverse=True) if act['rev'] else st.field.step(v, {0}) if act['form'] == 1 else st.field.step(v)
        if v != keep:
            raise Mismatch('the step changed the values given from %r to %r' % (keep, v))
        self.want(st, pd, act, 'the step')
        return st

    def do_draw(self, st, act):
        x = next(st.sampler)
        self.want(st, x.q, act, 'the draw')
        for k, b in zip(st.names, act['to']):
            if x.p[k] != b or x.v[k] != b:
                raise Mismatch('the draw reports %s = %r and %r, should be %r' % (k, x.p[k], x.v[k], b))
        v = dict(zip(st.names, act['to']))
        p = (1. / M) ** len(v) if st.host == 'own' else st.lik(2, **v)
        if abs(x.p.prob - p) > 1e-12 or abs(x.v.prob - p) > 1e-12 or x.u != True:
            raise Mismatch('the draw has probability %r (update %r), should be %r' % (x.p.prob, x.u, p))
        if st.last is not None and any(x.o[k] != st.last[k] for k in st.names):
            raise Mismatch('the draw starts from %r, should be %r' % (x.o, st.last))
        st.last = x.v
        return st

    def do_refuse(self, st, act):
        v = dict(zip(st.names, act['from']))
        try:
            pd = st.field.step(v, reverse=True)
        except Exception:
            return st
        raise Mismatch('stepping explicit groups in reverse gives %r' % (pd,))
