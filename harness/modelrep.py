"""Replays spec/Model.tla: probability functions set on fields and models, and calls of them."""
import json, warnings
import numpy as np
import probayes as pb
from core import Mismatch, HarnessError, Outcome, replay_programs
from distrep import check_pd, show, frac

LAST = ('ask', 'refuse')


def text(a):
    """What was done, for messages"""
    if a['op'] in ('ask', 'touch'):
        q = ['%s=%s' % (k, o['v'] if o['v'] else 'all') for k, o in zip(a['ks'], a['req']['opt'])]
        return 'call of node %d: %s together %s iid %s joint %s form %s' % (
            a['n'], ' '.join(q), a['req']['grp'], a['iid'], a['joint'], a['form'])
    return ' '.join('%s=%s' % (k, v) for k, v in a.items() if k not in ('t', 'ks', 'nodes'))


def freeze(x):
    """A copy of an argument to compare with later"""
    if isinstance(x, dict):
        return (type(x).__name__, [(id(k) if not isinstance(k, str) else k, freeze(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [freeze(v) for v in x])
    if isinstance(x, np.ndarray):
        return ('array', x.shape, x.dtype.str, x.tolist(), x.flags.writeable)
    return (type(x).__name__, repr(x))


class World:
    pass


class ModelReplay:
    """host: 'sd' or 'sp'; ops judged; immut: judge only that arguments stay as they were"""
    def __init__(self, ops, host='sd', immut=False):
        self.ops, self.host, self.immut = set(ops), host, immut

    def run(self, recs):
        groups, inner = {}, set()
        for r in recs:
            p = r['p']
            if p[-1]['op'] in LAST:
                k = json.dumps(p[:-1], sort_keys=True)
                groups.setdefault(k, []).append(json.dumps(p[-1]))
            elif p[-1]['op'] == 'touch':
                k = json.dumps(p, sort_keys=True)
                groups.setdefault(k, [])
        return replay_programs(['[%s,[%s]]' % (k, ','.join(groups[k])) for k in sorted(groups)], self)

    def program(self, prog, out):
        hist, asks = prog
        with np.errstate(all='ignore'), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            w = World()
            for n, act in enumerate(hist):
                try:
                    self.act(w, act)
                except Mismatch as e:
                    if act['op'] in self.ops or (act['op'] == 'touch' and 'ask' in self.ops):
                        out.violations.append({'program': [text(a) for a in hist[:n + 1]], 'detail': str(e)[:4000], 'results': None})
                    else:
                        out.pruned += 1
                    return
            for act in asks:
                if act['op'] not in self.ops:
                    continue
                try:
                    self.act(w, act)
                except Mismatch as e:
                    out.violations.append({'program': [text(a) for a in hist + [act]], 'detail': str(e)[:4000], 'results': act.get('r')})
                    if len(out.violations) > 60:
                        return
                    continue
                out.traces += 1
                if len(out.samples) < 2:
                    out.samples.append({'program': [text(a) for a in hist + [act]], 'result': act.get('r')})
            out.programs += 1

    def act(self, w, act):
        if act['op'] in LAST + ('touch',):
            return getattr(self, 'do_' + act['op'])(w, act)
        try:
            return getattr(self, 'do_' + act['op'])(w, act)
        except (Mismatch, HarnessError):
            raise
        except Exception as e:
            raise Mismatch('%s raised %s: %s' % (act['op'], type(e).__name__, e))

    # --------------------------------------------------------------- building
    def own(self, w, k, t):
        rv = w.rvs[k]
        p = np.array([frac(x) for x in t])
        if k in w.logs:
            rv.set_prob((lambda v: np.log(p)[np.asarray(v, dtype=int)]), pscale='log')
        elif k == 'c':
            rv.set_prob(lambda v: p[np.asarray(v, dtype=int)])
        else:
            rv.set_prob(float(p[1]))

    FIRST = {'a': [[3, 4], [1, 4]], 'b': [[3, 5], [2, 5]], 'e': [[5, 8], [3, 8]], 'c': [[1, 6], [2, 6], [3, 6]]}

    def do_build(self, w, act):
        w.logs = set(act['logs'])
        w.rvs = {}
        for k in 'abce':
            w.rvs[k] = pb.RV(k, vtype=int, vset=range(3)) if k == 'c' else pb.RV(k, vtype=bool)
            self.own(w, k, self.FIRST[k])
        cls = pb.SD if self.host == 'sd' else pb.SP
        w.nodes = []
        for i, info in enumerate(act['nodes']):
            nd = info
            get = lambda ks: [w.rvs[k] for k in ks]
            if nd['what'] == 'rv':
                o = w.rvs[nd['l'][0]]
            elif nd['what'] == 'rf':
                o = pb.RF(*get(nd['l']))
            elif nd['kids']:
                o = cls(*[w.nodes[m - 1] for m in nd['kids']])
            else:
                l = get(nd['l'])
                l = pb.RF(*l) if len(l) > 1 or act['cfg'] % 2 else l[0]
                r = w.nodes[nd['root'] - 1] if nd['root'] else pb.RF(*get(nd['r'])) if nd['r'] else None
                if r is None:
                    o = cls(l)
                elif self.host == 'sd' and i % 2:
                    o = l | r
                else:
                    o = cls(l, r)
            if nd['what'] != 'rv' and list(o.keylist) != info['ks']:
                raise Mismatch('variables of node %d are %s, should be %s' % (i + 1, list(o.keylist), info['ks']))
            w.nodes.append(o)

    def do_own(self, w, act):
        self.own(w, act['k'], act['t'])

    def do_withdraw(self, w, act):
        w.nodes[act['n'] - 1].set_prob(None)

    def do_set(self, w, act):
        o, ks, kind = w.nodes[act['n'] - 1], act['ks'], act['kind']
        p = np.array([frac(x) for x in act['t']]).reshape([3 if k == 'c' else 2 for k in ks])
        def look(v, table=p):
            if set(v) != set(ks):
                raise TypeError('values for %s given, variables are %s' % (sorted(v), ks))
            for k in ks:
                if isinstance(v[k], (set, list, tuple, dict)) or v[k] is None:
                    raise TypeError('%s is given as %r' % (k, v[k]))
            return table[tuple(np.asarray(v[k], dtype=int) for k in ks)]
        named = eval('lambda look: lambda %s: look(dict(%s))' % (', '.join(reversed(ks)), ', '.join('%s=%s' % (k, k) for k in ks)))(look)
        # without a scale a probability is on that of the variables, log if any is
        lin = {'pscale': 1.} if w.logs & set(ks) else {}
        if kind == 'fun':
            o.set_prob(named, **lin)
        elif kind == 'log':
            o.set_prob(lambda **v: np.log(look(v)), pscale='log')
        elif kind == 'coef':
            o.set_prob(lambda **v: look(v) / 2., pscale=2.)
        elif kind == 'extra':
            o.set_prob((lambda table, power=1, **v: look(v, table) ** power), table=np.sqrt(p), power=2, **lin)
        elif kind == 'dims':
            def f(dims, **v):
                for k in ks:
                    nd = np.ndim(v[k])
                    if (dims[k] is None) != (nd == 0) or (nd and v[k].shape[dims[k]] != v[k].size):
                        raise TypeError('%s of shape %s is said to have dimension %s' % (k, np.shape(v[k]), dims[k]))
                return look(v)
            o.set_prob(f, passdims=True, **lin)
        elif kind == 'arr':
            o.set_prob(np.array(p), **lin)
        elif kind == 'const':
            o.set_prob(float(p.ravel()[0]), **lin)
        else:
            raise HarnessError(kind)

    # ---------------------------------------------------------------- calling
    def value(self, k, o, nd=False):
        if o['t'] == 'all':
            return None
        conv = int if k == 'c' else bool
        if o['t'] == 's':
            return conv(o['v'][0])
        a = np.array([conv(x) for x in o['v']])
        return a.reshape(-1, 1) if nd else a

    def request(self, w, act, o):
        """args and kwds of the call"""
        ks, opt, grp, form = act['ks'], act['req']['opt'], set(act['req']['grp']), act['form']
        vals = {k: self.value(k, x, form == 5) for k, x in zip(ks, opt)}
        if isinstance(o, pb.RV):
            v = vals[ks[0]]
            return ([{ks[0]: v}] if form % 2 else [v]), {}
        kinds = {x['t'] for x in opt}
        if form == 5 and not grp:
            if kinds == {'all'}:
                return ([None] if len(ks) % 2 else []), {}
            if kinds == {'s'} and len({vals[k] for k in ks}) == 1:
                return [vals[ks[0]]], {}
        pairs = []
        gs = [k for k in ks if k in grp]
        if form % 2:
            gs = gs[::-1]
        done = False
        for k in ks:
            if k in grp:
                if not done:
                    g = [vals[x] for x in gs]
                    pairs.append((','.join(gs), g if form in (0, 3) else tuple(g)))
                done = True
            elif not (form == 4 and vals[k] is None):
                pairs.append((w.rvs[k] if form == 3 else k, vals[k]))
        if form == 1:
            pairs = pairs[::-1]
        if form == 2:
            return [], dict(pairs)
        return [dict(pairs)], {}

    def call(self, w, act):
        o = w.nodes[act['n'] - 1]
        args, kwds = self.request(w, act, o)
        before = freeze(args), freeze(kwds)
        extra = {}
        if act['iid']:
            ks = [k for k in act['ks'] if k in act['iid']]
            top = [k for k in getattr(o, 'leafs').keylist] if hasattr(o, 'leafs') and o.leafs is not None else list(o.keylist)
            extra['iid'] = True if set(ks) == set(top) and act['form'] % 2 else ks
        if act['joint']:
            extra['joint'] = True
        elif act['form'] == 4 and isinstance(o, pb.SD):
            extra['joint'] = False
        try:
            d = o(*args, **kwds, **extra)
        finally:
            after = freeze(args), freeze(kwds)
            if self.immut and before != after:
                raise Mismatch('the arguments were changed from %s to %s' % (before, after))
        return o, d

    def do_touch(self, w, act):
        self.do_ask(w, act)

    def do_ask(self, w, act):
        try:
            o, d = self.call(w, act)
        except (Mismatch, HarnessError):
            raise
        except Exception as e:
            if self.immut:
                return
            raise Mismatch('raised %s: %s' % (type(e).__name__, e))
        if self.immut:
            return
        r = act['r']
        check_pd(d, r)
        if not act['joint'] and not act['iid']:
            dims = [d.dims[a['ks'][0]] for a in r['ax']]
            if dims != sorted(dims):
                raise Mismatch('axes are not in order of the variables %s: %s\n got %s' % (act['ks'], dims, show(d)))
            if list(d.marg) != r['mg'] or list(d.cond) != r['cd']:
                raise Mismatch('should describe %s given %s, in order\n got %s' % (r['mg'], r['cd'], show(d)))

    def do_refuse(self, w, act):
        o, ks, why = w.nodes[act['n'] - 1], act['ks'], act['why']
        if why == 'unknown':
            q = {ks[0]: None, 'zz': 1} if len(ks) > 1 else {'zz': 1}
        elif why == 'count':
            q = {','.join(ks[:2]): [True]}
        elif why == 'lengths':
            q = {','.join(ks[:2]): [np.array([1, 0, 1]), np.array([1, 0])]}
        elif why == 'partial':
            q = {ks[0]: True}
        try:
            d = o(q)
        except Exception:
            return
        raise Mismatch('%r is answered: %s' % (q, show(d)))
