"""Replays spec/FldStep.tla into probayes.Field objects."""
import collections
import numpy as np
import probayes as pb
from core import Mismatch, HarnessError
from varrep import VarReplay, enough, spell, TY, typed, val


class FldReplay(VarReplay):
    def __init__(self):
        self.ops = {'apply'}

    def initial(self): return ()

    def fld(self, prog):
        f = doms = dl = None
        for a in prog:
            if a['op'] == 'field':
                doms = collections.OrderedDict((v['v'], v['d']) for v in a['vars'])
                vs = []
                for k, d in doms.items():
                    arg = spell(d, 'none')
                    vs.append(pb.Variable(k, vtype=TY[d['ty']]) if arg is None else pb.Variable(k, vtype=TY[d['ty']], vset=arg))
                f = pb.Field(*vs)
            elif a['op'] == 'setdelta':
                dl = a['dl']
                keys = list(doms)
                per = dict(zip(keys, dl['per']))
                def amount(k, wrap=True):
                    p = per[k]
                    e = p['e']
                    if doms[k]['ty'] == 'float':
                        e = e * (.5 if p['sc'] else 1.)
                    return {'fix': e, 'sign': (e,), 'upto': [e]}[p['kind']] if wrap else e
                sc = any(p['sc'] for p in dl['per'])
                kw = dict(bound=bool(dl['b']))
                if sc:
                    kw['scale'] = True
                if dl['how'] == 'own':
                    f.varlist[0].set_delta(amount(keys[0]), **kw)
                elif dl['how'] == 'dict':
                    f.set_delta({k: amount(k) for k in reversed(keys)}, **kw)
                elif dl['how'] == 'Delta':
                    f.set_delta(f.Delta(**{k: amount(k) for k in keys}), **kw)
                else:
                    base = .5 if sc and doms[keys[0]]['ty'] == 'float' else dl['per'][0]['e']
                    base = float(base) if dl['how'].startswith('sphere') else base
                    if dl['how'].startswith('sphere'):
                        base = (base,)
                    elif dl['how'].startswith('list'):
                        base = [base]
                    args = ({keys[-1]: amount(keys[-1], False)},) if dl['how'].endswith('-but') else ()
                    f.set_delta(base, *args, **kw)
        return f, doms, dl

    def step(self, st, act, rec):
        if act['op'] != 'apply':
            return st + (act,)
        with np.errstate(all='ignore'):
            try:
                return self.do_apply(st, act)
            except (Mismatch, HarnessError):
                raise
            except Exception as e:
                raise Mismatch('%s raised %s: %s' % (act['how'], type(e).__name__, e))

    def do_apply(self, prog, act):
        f, doms, dl = self.fld(prog)
        keys = list(doms)
        at = prog[-1]['at']
        np.random.seed(5)
        seen = [set() for _ in keys]
        rand = any(p['kind'] != 'fix' for p in dl['per'])
        discrete = [i for i, k in enumerate(keys) if dl['per'][i]['kind'] != 'upto' or doms[k]['ty'] != 'float']
        for r in range(max([80] + [enough(len(act['ans'][i])) for i in discrete]) if rand else 1):
            if r >= 20 and all(len(seen[i]) >= len(act['ans'][i]) for i in discrete):
                break
            vals = collections.OrderedDict((k, self.phys(j, doms[k], 'none')) for k, j in zip(keys, at))
            if act['how'] == 'array':
                vals = collections.OrderedDict((k, np.array([v, v, v])) for k, v in vals.items())
            keep = {k: np.copy(v) for k, v in vals.items()}
            if act['how'] == 'auto' and not dl['how'].startswith('sphere') and dl['how'] != 'own':
                got = f.apply_delta(vals)
            elif act['how'] == 'given' and dl['how'] in ('dict', 'Delta', 'scalar', 'list'):
                d = f.eval_delta(f.delta)
                got = f.apply_delta(vals, d)
            else:
                d = f.eval_delta()
                if dl['norm'] and r < 20:
                    n = len(keys) - (1 if dl['how'].endswith('-but') else 0)
                    parts = [float(np.ravel(x)[0]) for x in list(d)[:n]]
                    if abs(np.sqrt(sum(x * x for x in parts)) - dl['norm']) > 1e-9:
                        raise Mismatch('spherical step %r should have length %r' % (parts, dl['norm']))
                got = f.apply_delta(vals, d)
            if list(got.keys()) != keys:
                raise Mismatch('stepped values have keys %r' % (list(got.keys()),))
            for i, k in enumerate(keys):
                if not np.array_equal(keep[k], vals[k]):
                    raise Mismatch('the values given for %s were changed' % k)
                dense = dl['per'][i]['kind'] == 'upto' and doms[k]['ty'] == 'float'
                if np.shape(got[k]) != np.shape(vals[k]):
                    raise Mismatch('%s has shape %r after the step' % (k, np.shape(got[k])))
                for g in np.ravel(got[k]):
                    self.check_one(g, act['ans'][i], doms[k], 'none', at[i], 'step of %s' % k, dense, bool(act['b']))
                    seen[i].add(float(g))
        for i, k in enumerate(keys):
            if dl['per'][i]['kind'] != 'upto' or doms[k]['ty'] != 'float':
                miss = [o for o in act['ans'][i] if not any(self.close(s, self.phys(o, doms[k], 'none')) for s in seen[i])]
                if miss:
                    raise Mismatch('step of %s never gives %r' % (k, miss))
            elif act['ans'][i][0] != act['ans'][i][-1] and len(seen[i]) < 2:
                raise Mismatch('step of %s always gives %r' % (k, seen[i]))
