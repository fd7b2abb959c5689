"""Replays spec/Deps.tla: fields and models of variables built in every order."""
import warnings
import numpy as np
import probayes as pb
from core import Mismatch, HarnessError, StepPrograms

NAMES = 'cadb'


class Pool:
    pass


class DepReplay(StepPrograms):
    """host 'var' plain variables, 'rv' random variables and models, 'sp' processes for models"""
    def __init__(self, host, nv=4):
        self.names = NAMES[:nv]
        self.host = host

    def initial(self):
        st = Pool()
        if self.host == 'var':
            st.objs = [pb.Variable(k, vtype=int, vset=range(3)) for k in self.names]
        else:
            st.objs = [pb.RV(k, vtype=bool) for k in self.names]
        st.seen = [None] * len(self.names)
        st.fld = pb.Field if self.host == 'var' else pb.RF
        st.dep = {'var': pb.Dependence, 'rv': pb.SD, 'sp': pb.SP}[self.host]
        return st

    def judged(self, act, n): return True

    def step(self, st, act, rec):
        with np.errstate(all='ignore'), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            o = None
            try:
                o = self.build(st, act)
            except (Mismatch, HarnessError):
                raise
            except Exception as e:
                if act['o']['kind'] != 'no':
                    raise Mismatch('%s raised %s: %s' % (self.text(st, act), type(e).__name__, e))
            else:
                if act['o']['kind'] == 'no':
                    raise Mismatch('%s is accepted, as %s' % (self.text(st, act), getattr(o, 'name', o)))
        if act['o']['kind'] != 'no':
            if act['op'] in ('add', 'dep'):
                st.seen[act['s'][0] - 1] = act['o']
            else:
                st.objs.append(o)
                st.seen.append(act['o'])
        for k, (o, want) in enumerate(zip(st.objs, st.seen)):
            if want is None:
                if o.name != NAMES[k]:
                    raise Mismatch('%s renames %s to %s' % (self.text(st, act), NAMES[k], o.name))
                continue
            got = self.look(st, o)
            want = self.expect(want)
            if got != want:
                bad = sorted(x for x in want if got[x] != want[x])
                raise Mismatch('after %s, object %d has %s, should have %s' % (
                    self.text(st, act), k, {x: got[x] for x in bad}, {x: want[x] for x in bad}))
        return st

    def text(self, st, act):
        return '%s%r' % (act['op'], tuple(act['s']))

    def build(self, st, act):
        a = [st.objs[i - 1] for i in act['s']]
        op = act['op']
        if op == 'fld':
            form = sum(act['s']) % 3
            return st.fld(*a) if form == 0 else st.fld(a) if form == 1 else st.fld(tuple(a))
        if op == 'and':
            return a[0] & a[1]
        if op == 'or':
            return a[0] | a[1]
        if op == 'sd':
            return st.dep(*a)
        if op == 'add':
            return a[0].add_var(a[1] if len(a) == 2 else list(a[1:]))
        if op == 'dep':
            out = [st.objs[i - 1] for i in sorted(act['out'])]
            inp = [st.objs[i - 1] for i in sorted(act['inp'])]
            given = lambda v: v[0] if len(v) == 1 else pb.RF(*v)
            if (act['s'][0] + len(out)) % 2:
                return a[0].add_deps(given(out), given(inp), lambda **v: v)
            cf = pb.CF(given(out), given(inp), lambda **v: v)
            return a[0].add_deps({cf.ret_name(): cf})
        raise HarnessError(op)

    def expect(self, o):
        n = lambda s: [NAMES[i - 1] for i in s]
        w = {'kind': o['kind'], 'keys': n(o['ord'])}
        if o['kind'] == 'fld':
            w['name'] = ','.join(w['keys'])
            w['delta'] = w['keys']
            w['vars'] = w['keys']
            return w
        w.update(leafs=n(o['leafs']), stems=n(o['stems']), roots=n(o['roots']), preds=n(o['preds']),
                 edges=sorted([NAMES[e[0] - 1], NAMES[e[1] - 1]] for e in o['edges']), vars=n(o['ord']))
        w['name'] = ','.join(w['leafs']) + ('|' + ','.join(w['roots']) if w['roots'] else '')
        w['subs'] = ['leafs', 'roots'] if w['roots'] else ['leafs']
        w['delta'] = w['roots'] or w['leafs']
        return w

    def look(self, st, o):
        g = {'kind': 'dep' if isinstance(o, pb.Dependence) else 'fld' if isinstance(o, pb.Field) else 'var'}
        g['keys'] = list(o.keylist)
        g['name'] = o.name
        g['vars'] = [v.name for v in o.varlist]
        if g['vars'] != [v.name for v in o.nodes] or any(o[k] is not st.objs[NAMES.index(k)] for k in g['keys']):
            g['vars'] = 'not the variables given'
        if o.nvars != len(g['keys']) or len(o) != len(g['keys']) or set(o.keyset) != set(g['keys']) or list(o.vars) != g['keys']:
            g['keys'] = 'inconsistent: %r, %r, %r, %r' % (o.nvars, len(o), sorted(o.keyset), list(o.vars))
        g['delta'] = list(o.Delta._fields)
        if g['kind'] == 'fld':
            return g
        keys = lambda f: [] if f is None else list(f.keylist)
        g.update(leafs=keys(o.leafs), roots=keys(o.roots), stems=list(o.stems or {}), preds=keys(o.preds),
                 edges=sorted([a.name, b.name] for a, b in o.edges()))
        g['subs'] = sorted(o.subfields)
        for f, k in (('leafs', g['leafs']), ('roots', g['roots'])):
            if f in o.subfields and list(o.subfields[f].keylist) != k:
                g['subs'] = 'subfields differ'
        return g
