"""Replays spec/Icons.tla: symbolic expressions and functionals."""
import numpy as np
import sympy
import probayes as pb
from core import Mismatch, HarnessError
from bindrep import BindReplay, text

XS, YS = np.array([2, 0, -3]), np.array([5, 1, -2])
KEYS = ['p', 'q', 'r']


def poly(p, x, y):
    return p[0] + p[1] * x + p[2] * y + p[3] * x * y + p[4] * x * x


POLY = [(1, 2, 0, 0, 0), (3, 0, 0, 1, 0), (0, 1, -1, 0, 0), (-2, 0, 0, 0, 1), (0, 0, 3, 0, 0), (5, 0, 0, 0, 0), (0, -1, 0, 2, 1)]


def close(got, want, what):
    want = np.asarray(want, dtype=float)
    if isinstance(got, sympy.Basic) or np.shape(got) != want.shape or not np.allclose(np.asarray(got, dtype=float), want, rtol=1e-9, atol=1e-9):
        raise Mismatch('%s should be %s, is %r' % (what, want.tolist(), got))


class IconReplay(BindReplay):
    # ------------------------------------------------------------ expressions
    def symbols(self, sym):
        if sym == 'var':
            v = pb.Variable('x', vtype=float), pb.Variable('y', vtype=float)
            return v[0][:], v[1][:], v
        kw = {} if sym == 'plain' else {sym: True}
        x, y = sympy.Symbol('x', **kw), sympy.Symbol('y', **kw)
        return x, y, (x, y)

    def do_define(self, w, act):
        o = act['o']
        x, y, w['vars'] = self.symbols(o['sym'])
        if o['multi'] == 'inv':
            w['f'] = pb.Expression(o['line'][0] * x + o['line'][1], invertible=True)
        else:
            es = [sympy.sympify(poly(POLY[i - 1], x, y)) for i in o['ps']]
            e = es[0] if o['multi'] == 'one' else tuple(es) if o['multi'] == 'tuple' else dict(zip(KEYS, es))
            if 'f' in w and type(w['f']) is pb.Expression:
                w['f'].set_expr(e)
            else:
                w['f'] = pb.Expression(e)
        w['o'] = o

    def do_ask(self, w, act):
        try:
            self.answer(w, act)
        except (Mismatch, HarnessError):
            raise
        except Exception as e:
            raise Mismatch('raised %s: %s' % (type(e).__name__, e))

    def answer(self, w, act):
        if 'out' in act:
            return self.functional(w, act)
        f, o, form = w['f'], w['o'], act['form']
        i = act['w']['i']
        if act['w']['t'] == 'inv':
            g, v = f[[0, 1, -1][i]], act['v']
            # forwards the symbol is that of the variable, backwards that of its inverse
            key = 'x' if i == 0 else f.inverse.name
            if form == 'array':
                arr = np.array([v, v, v], dtype=float)
                return close(g(arr), [act['r'][0]] * 3, 'value')
            return close(g(**{key: v}) if form == 'kw' else g(np.int64(v) if form == 'np' else v), act['r'][0], 'value')
        p = POLY[o['ps'][i - 1] - 1]
        used = [k for k, u in (('x', p[1] or p[3] or p[4]), ('y', p[2] or p[3])) if u]
        g = f if act['w']['t'] == 'call' else f[KEYS[i - 1]] if act['w']['t'] == 'key' else f[-1 if act['w']['t'] == 'last' else i - 1]
        x, y = int(XS[0]), int(YS[0])
        want = act['r'][0]
        if form == 'kw':
            got = g(y=y, x=x)
        elif form == 'dict':
            got = g({'x': x, 'y': y})
        elif form == 'vars':
            got = g({w['vars'][1]: y, w['vars'][0]: x})
        elif form == 'split':
            got = g({'x': x}, y=y)
        elif form == 'np':
            got = g(x=np.float64(x), y=np.int64(y))
        elif form == 'exact':
            got = g(**{k: dict(x=x, y=y)[k] for k in used})
        elif form == 'bool':
            got = g(x=True, y=np.bool_(False))
        elif form == 'pos':
            got = g(dict(x=x, y=y)[used[0]])
        elif form == 'posarr':
            got, want = g(dict(x=XS, y=YS)[used[0]]), act['r']
        elif form == 'arrays':
            xs, ys = XS.astype(float), YS.astype(float)
            got, want = g({'x': xs, 'y': ys}), act['r']
            if not (np.array_equal(xs, XS) and np.array_equal(ys, YS)):
                raise Mismatch('the arrays supplied were changed')
        elif form == 'outer':
            got, want = g(x=XS.reshape(3, 1), y=YS[:2].reshape(1, 2)), np.reshape(act['r'], (3, 2))
        elif form == 'mixx':
            got, want = g(x=XS, y=y), act['r']
        elif form == 'mixy':
            got, want = g(x=x, y=YS), act['r']
        close(got, want, 'value')

    # ------------------------------------------------------------ functionals
    def names(self, w):
        if 'v' not in w:
            w['v'] = {k: pb.Variable(k, vtype=float) for k in 'abcxy'}
            v = w['v']
            w['f'] = pb.Functional(v['a'] & v['b'] & v['c'], v['x'] & v['y'])
        return w['v']

    def do_addicon(self, w, act):
        v = self.names(w)
        out = act['out'][0]
        spec = out if act['how'] == 'name' else v[out] if act['how'] == 'var' else v[out][:]
        p = act['p']
        if act['via']:
            expr = 2 * v[act['via'][0]][:] - v['x'][:]
        else:
            expr = sympy.sympify(poly(p, v['x'][:], v['y'][:]))
        w['f'].add_func(spec, expr)
        if sympy.expand(v[out].dexpr - poly(p, sympy.Symbol('x'), sympy.Symbol('y'))) != 0 or v[out][:] != v[out].dexpr:
            raise AssertionError('the expression of %s became %s' % (out, v[out].dexpr))

    def do_addfun(self, w, act):
        v = self.names(w)
        nth = len(w['f'])
        def f(*args, **kwds):
            return nth, args, kwds
        if act['how'] == 'name':
            spec = {','.join(act['out']): ','.join(act['inp'])}
        elif act['how'] == 'var':
            spec = {tuple(v[k] for k in act['out']) if len(act['out']) > 1 else v[act['out'][0]]:
                    tuple(v[k] for k in act['inp']) if len(act['inp']) > 1 else v[act['inp'][0]]}
        else:
            spec = {tuple(act['out']): tuple(act['inp'])}
        w['f'].add_func(spec, f, *(100, 101)[:act['fix']], **({'k': 200} if act['fix'] == 2 else {}))

    def functional(self, w, act):
        v = w['v']
        x, y = int(XS[0]), int(YS[0])
        outs = act['out']
        key = (','.join(outs), tuple(v[k] for k in outs), tuple(reversed(outs)))[len(act['form']) % 3]
        g = w['f'][key]
        vals = {'x': x, 'y': y}
        want = np.array(act['r'][0]) if act['r'] else None
        if act['form'] == 'kw':
            got = g(**vals)
        elif act['form'] == 'dict':
            got = g(dict(vals))
        elif act['form'] == 'vars':
            got = g({v['y']: y, v['x']: x} if act['r'] else vals)
        elif act['form'] == 'exact':
            got = g(**{k: vals[k] for k in act['inp']})
        elif act['form'] == 'arrays':
            vals = {'x': XS, 'y': YS}
            got = g(**vals)
            if act['r'] and act['inp']:
                want = act['r']
        else:
            got = g(vals, y=y)
        if act['r']:
            close(got, want, 'value')
        else:
            nth, args, kwds = got
            exp = {k: vals[k] for k in act['inp']}
            if act['fix'] == 2:
                exp['k'] = 200
            if nth != act['nth'] - 1 or args != (100, 101)[:act['fix']] or set(kwds) != set(exp) or any(not np.array_equal(kwds[k], exp[k]) for k in exp):
                raise Mismatch('function %d should receive %s and %s, function %d received %s and %s' % (act['nth'] - 1, (100, 101)[:act['fix']], exp, nth, args, kwds))
        self.whole(w, act)

    def whole(self, w, act):
        f = w['f']
        if len(f) != act['n'] or len(f.deps) != act['n'] or bool(f.isiconic) != any(x.isiconic for x in f.funcs.values()):
            raise Mismatch('has %d functions, %s are said' % (act['n'], (len(f), f.deps)))

    def do_refuse(self, w, act):
        v, f, why = w['v'], w['f'], act['why']
        free = (act['free'] or ['a'])[0]
        before = {k: v[k].dexpr for k in 'abc'}
        icon = act['k'] == 'icon'
        good = v['x'][:] + 1 if icon else (lambda x: x)
        spec = lambda o, i='x': o if icon else {o: i}
        if why in ('two', 'args', 'inp', 'mixed', 'noinp') and not act['free']:
            return
        try:
            if why == 'again':
                f.add_func(spec(','.join(act['out'])), good)
            elif why == 'out':
                f.add_func(spec('zz'), good)
            elif why == 'inp':
                f.add_func(free if icon else {free: 'zz'}, sympy.Symbol('zz') + 1 if icon else good)
            elif why == 'mixed':
                if icon:
                    f.add_func({free: 'x'}, lambda x: x)
                else:
                    f.add_func(free, v['x'][:] + 1)
            elif why == 'noinp':
                f.add_func(free, good)
            elif why == 'unknown':
                f['x'](1)
            elif why == 'two':
                f.add_func('a,b', good)
            elif why == 'args':
                f.add_func(free, good, 5)
        except Exception:
            if {k: v[k].dexpr for k in 'abc'} != before:
                raise Mismatch('%s: refused but expressions became %s' % (why, {k: v[k].dexpr for k in 'abc'}))
            self.whole(w, act)
            if [set(k) for k in f.funcs] != [set(k) for k in f.deps] or [set(k) for k in f.partials] != [set(k) for k in f.deps]:
                raise Mismatch('%s: refused but kept' % why)
            return
        raise Mismatch('%s: is not refused' % why)
