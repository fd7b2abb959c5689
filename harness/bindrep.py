"""Replays spec/Bind.tla: what functions attached to names receive."""
import functools, json
import numpy as np
import probayes as pb
from probayes.func import Func
from core import Mismatch, HarnessError, replay_programs

VALUES = {'x': 2, 'y': 11, "x'": 5, "y'": 23}
FIXED = ({'p': 100}, 101)
CALL = (7, 8)


def text(a):
    return ' '.join('%s=%s' % (k, v) for k, v in a.items() if k not in ('r',))


def norm(x):
    return (x.tolist(), 'array') if isinstance(x, np.ndarray) else x


class Callable:
    def __init__(self, i):
        self.i = i

    def __call__(self, *args, **kwds):
        return self.i, args, kwds


def function(i, flavour):
    """A function that tells what it was given"""
    if flavour == 0:
        def f(*args, **kwds):
            return i, args, kwds
        return f
    if flavour == 1:
        return lambda *args, **kwds: (i, args, kwds)
    if flavour == 2:
        return Callable(i)
    return functools.partial(lambda n, *args, **kwds: (n, args, kwds), i)


LAST = ('ask', 'refuse', 'density')


class BindReplay:
    LAST = LAST

    def __init__(self, ops):
        self.ops = set(ops)

    def run(self, recs):
        groups = {}
        for r in recs:
            p = r['p']
            k = json.dumps(p[:-1] if p[-1]['op'] in self.LAST else p, sort_keys=True)
            g = groups.setdefault(k, [])
            if p[-1]['op'] in self.LAST:
                g.append(json.dumps(p[-1]))
        return replay_programs(['[%s,[%s]]' % (k, ','.join(groups[k])) for k in sorted(groups) if groups[k]], self)

    def program(self, prog, out):
        hist, asks = prog
        w = {}
        for n, act in enumerate(hist):
            try:
                getattr(self, 'do_' + act['op'])(w, act)
            except Exception as e:
                if isinstance(e, HarnessError):
                    raise
                if 'refuse' not in self.ops:
                    out.violations.append({'program': [text(a) for a in hist[:n + 1]], 'detail': '%s raised %s: %s' % (act['op'], type(e).__name__, e), 'results': None})
                else:
                    out.pruned += 1
                return
        for act in asks:
            if act['op'] not in self.ops:
                continue
            try:
                getattr(self, 'do_' + act['op'])(w, act)
            except Mismatch as e:
                out.violations.append({'program': [text(a) for a in hist + [act]], 'detail': str(e)[:4000], 'results': act.get('r')})
                if len(out.violations) > 60:
                    return
                continue
            out.traces += 1
            if len(out.samples) < 2:
                out.samples.append({'program': [text(a) for a in hist + [act]], 'result': act.get('r')})
        out.programs += 1

    # --------------------------------------------------------------- defining
    def mapping(self, mp, flip):
        m = {}
        for k, t in zip(mp['ks'], mp['m']):
            if t['t'] != 'keep':
                m[k] = {'pos': t['i'], 'name': t['n'], 'drop': None}[t['t']]
        return dict(reversed(list(m.items()))) if flip else m

    KEYS = ['p', 'q', 'r']
    VALS = [4, 'text', 2.5]

    def thing(self, o):
        flavour = (o['fa'] + o['n'] + len(o['mp']['ks'])) % 4
        items = [function(i + 1, flavour) if o['what'] == 'fun' else self.value(o, i) for i in range(o['n'])]
        if o['multi'] == 'one':
            return items[0]
        return tuple(items) if o['multi'] == 'tuple' else dict(zip(self.KEYS, items))

    def value(self, o, i):
        return (self.VALS + [np.array([1., 2.])])[i] if o['multi'] == 'one' else [4, 6, 2.5][i]

    def args(self, o):
        kw = {'k': 200} if o['fk'] else {}
        if o['mp']['t'] != 'none':
            kw[o['mp']['t']] = self.mapping(o['mp'], o['fa'] % 2)
        return FIXED[:o['fa']], kw

    def do_define(self, w, act):
        o = act['o']
        w['host'] = act['host']
        a, kw = self.args(o)
        w['e'] = {'expression': pb.Expression, 'func': Func}[act['host']](self.thing(o), *a, **kw)
        w['o'] = o

    def do_redefine(self, w, act):
        o = act['o']
        a, kw = self.args(o)
        (w['e'].set_func if w['host'] == 'func' else w['e'].set_expr)(self.thing(o), *a, **kw)
        w['o'] = o

    def do_remap(self, w, act):
        mp = act['mp']
        if mp['t'] == 'none':
            getattr(w['e'], 'set_' + act['was'])(None)
        else:
            getattr(w['e'], 'set_' + mp['t'])(self.mapping(mp, len(mp['ks']) % 2))
        w['o'] = dict(w['o'], mp=mp)

    # ---------------------------------------------------------------- calling
    def get(self, w, which):
        if which['t'] == 'call':
            return w['e']
        if which['t'] == 'key':
            return w['e'][self.KEYS[which['i'] - 1]]
        if w['host'] == 'func' and which['t'] == 'index' and w['o']['n'] > 1:
            g = w['e'][which['i'] - 1]
            w['e'][which['i'] % w['o']['n']]      # looking at another changes nothing
            return g
        return w['e'][-1 if which['t'] == 'last' else which['i'] - 1]

    def call(self, w, act):
        f = self.get(w, act['w'])
        vals = {k: VALUES[k] for k in act['ks']}
        if act['form'] == 'array':
            vals = {k: v * np.array([1, 10]) for k, v in vals.items()}
        pos = CALL[:act['ca']]
        if act['form'] in ('kw',):
            return f(*pos, **vals)
        if act['form'] == 'none':
            return f()
        if act['form'] == 'split':
            ks = list(vals)
            return f({k: vals[k] for k in ks[1:]}, **{ks[0]: vals[ks[0]]})
        d = dict(vals)
        r = f(d)
        if list(d) != list(vals):
            raise Mismatch('the dictionary supplied was changed to %s' % (d,))
        return r

    def do_ask(self, w, act):
        try:
            got = self.call(w, act)
        except Exception as e:
            if isinstance(e, (Mismatch, HarnessError)):
                raise
            raise Mismatch('raised %s: %s' % (type(e).__name__, e))
        r = act['r']
        if 'value' in r:
            want = self.value(w['o'], r['value'] - 1)
            if not (type(got) is type(want) and np.all(got == want)):
                raise Mismatch('should be %r, is %r' % (want, got))
            return
        arr = act['form'] == 'array'
        conv = lambda v: FIXED[0] if v == 100 else (v * np.array([1, 10])) if arr and v not in (100, 101, 200, 7, 8) else v
        want = (act['w']['i'], tuple(norm(conv(v)) for v in r['pos']), {k: norm(conv(v)) for k, v in r['kw']})
        i, args, kwds = got
        have = (i, tuple(norm(x) for x in args), {k: norm(x) for k, x in kwds.items()})
        if have != want:
            raise Mismatch('function %s should receive %s and %s, function %s received %s and %s' % (want + have))
        if w['o']['multi'] != 'one' and w['host'] == 'expression' and act['form'] == 'kw':
            if len(w['e']) != w['o']['n']:
                raise Mismatch('has %d functions, %d are said' % (w['o']['n'], len(w['e'])))

    def do_refuse(self, w, act):
        e, o, why = w['e'], act['o'], act['why']
        key = 0 if w['host'] == 'func' else None
        try:
            if why == 'index':
                r = e[0]()
            elif why == 'noindex':
                r = e() if o['what'] == 'value' else e(x=1)
            elif why == 'key':
                bad = e['zz'] if o['multi'] == 'dict' else e[5]
                r = bad() if o['what'] == 'value' else bad({'x': 1, 'y': 2, "x'": 3, "y'": 4})
            elif why == 'args':
                f = e if o['multi'] == 'one' else e[0] if o['multi'] == 'tuple' else e['p']
                r = f(1)
            elif why == 'both':
                r = (e.set_delta if o['mp']['t'] == 'order' else e.set_order)({'x': o['fa']})
            elif why == 'gap':
                r = (e.set_delta if o['mp']['t'] == 'delta' else e.set_order)({'x': 0, 'y': 2})
            elif why == 'kind':
                r = (e.set_delta if o['mp']['t'] == 'delta' else e.set_order)({'x': 0.5})
            elif why == 'lacking':
                f = e if o['multi'] == 'one' else e[0] if o['multi'] == 'tuple' else e['p']
                r = f({'zz': 1})
            elif why == 'mixed':
                r = type(e)((abs, 3))
            elif why == 'fixedvalue':
                r = type(e)(3, 1)
        except Exception:
            if why in ('both', 'gap', 'kind'):
                self.still(w, act)
            return
        raise Mismatch('%s: is not refused, answers %r' % (why, r))

    def still(self, w, act):
        """the mapping refused left the one before"""
        o, e = w['o'], w['e']
        for t in ('order', 'delta'):
            have = getattr(e, 'ret_' + t)() if w['host'] == 'func' else getattr(e, t)
            want = self.mapping(o['mp'], 0) if o['mp']['t'] == t else None
            if (have or None) != want:
                raise Mismatch('after a mapping was refused the %s is %s, was %s' % (t, have, want))
