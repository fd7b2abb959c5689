"""Replays spec/Var.tla into probayes.Variable objects."""
import numpy as np
import sympy
import probayes as pb
from probayes.vtypes import OO
from core import Mismatch, HarnessError

INF = 99
TOL = 1e-9
MANY = 400                                        # draws judged for uniformity
KS = float(np.sqrt(np.log(2 / 1e-10) / (2 * MANY)))     # Dvoretzky-Kiefer-Wolfowitz bound, false alarm below 1e-10
def enough(n):
    """draws after which missing one of n about equally likely outcomes is out of the question"""
    return int(2 * n * (np.log(n) + 32)) + 1


class Tr:
    """lattice position <-> value, for each transformation of the specification"""
    fwd = {'none': None, 'log2': np.log2, 'nlog2': lambda v: -np.log2(v), 'neg': lambda v: -v, 'affine': lambda v: v + 3.,
           'dsq': None, 'dinv': None, 'daff': None, 'dneg': None}
    inv = {'none': None, 'log2': np.exp2, 'nlog2': lambda u: np.exp2(-u), 'neg': lambda u: -u, 'affine': lambda u: u - 3.,
           'dsq': None, 'dinv': None, 'daff': None, 'dneg': None}


def fwd(x, tr):
    return float(x if Tr.fwd[tr] is None else Tr.fwd[tr](x))


def transformation(v, tr, symbolic):
    """the same transformation as a pair of functions or as an invertible symbolic expression"""
    if not symbolic:
        return Tr.fwd[tr], Tr.inv[tr]
    x = v[:]
    return {'log2': lambda: sympy.log(x) / sympy.log(2), 'nlog2': lambda: -sympy.log(x) / sympy.log(2), 'neg': lambda: -x, 'affine': lambda: x + 3}[tr]()


def val(j, tr):
    """value at (possibly fractional) position j"""
    if tr in ('log2', 'nlog2'):
        return 0. if j <= -INF else (np.inf if j >= INF else float(2. ** j))
    return -np.inf if j <= -INF else (np.inf if j >= INF else float(j))


def limit(j, x, tr):
    v = val(j, tr)
    v = OO if v == np.inf else (-OO if v == -np.inf else v)
    return (v,) if x else v


def spell(d, tr):
    """The vset argument denoting domain d."""
    if d['how'] == 'default' and not (d['ty'] == 'float' and tr in ('log2', 'nlog2')):
        return None
    if d['ty'] == 'float':
        lo, hi = limit(d['lo'], d['xl'], tr), limit(d['hi'], d['xh'], tr)
        if d['how'] == 'tuple':
            return (lo[0], hi[0])
        if d['how'] == 'set':
            return {lo, hi}
        if d['how'] == 'array':
            return np.array([hi, lo])
        return [hi, lo] if d['how'] == 'back' else [lo, hi]
    m = [bool(i) for i in d['mem']] if d['ty'] == 'bool' else list(d['mem'])
    if d['how'] == 'set':
        return set(m)
    if d['how'] == 'array':
        return np.array(m[::-1])
    if d['how'] == 'range':
        return range(m[0], m[-1] + 1)
    if d['how'] == 'scalar':
        return m[0]
    return m


TY = {'bool': bool, 'int': int, 'float': float}


def typed(x, ty):
    a = np.asarray(x)
    return a.dtype.kind == {'bool': 'b', 'int': 'i', 'float': 'f'}[ty] or (ty == 'int' and a.dtype.kind == 'u')


class VarReplay:
    def __init__(self, ops):
        self.ops = set(ops)

    def start(self): pass
    def stop(self): pass
    def initial(self): return ()
    def judged(self, act, n): return act['op'] in self.ops

    def make(self, prog):
        """Builds the variable a sequence of definitions denotes."""
        var, tr, dom, dl = None, 'none', None, None
        for n, a in enumerate(prog):
            if a['op'] == 'define':
                dom = a['d']
                arg = spell(dom, tr)
                keep = list(arg) if isinstance(arg, list) else None
                if arg is None:
                    var = pb.Variable('v', vtype=TY[dom['ty']])
                elif n % 2 == 0 and len(dom['mem']) % 2 == 0:
                    var = pb.Variable('v', arg, TY[dom['ty']])
                else:
                    var = pb.Variable('v', vtype=TY[dom['ty']], vset=arg)
                if keep is not None and (len(keep) != len(arg) or any(x is not y and x != y or type(x) != type(y) for x, y in zip(keep, arg))):
                    raise Mismatch('the list given as domain was changed from %r to %r' % (keep, arg))
            elif a['op'] == 'redefine':
                dom = a['d']
                var.vset = spell(dom, tr)
            elif a['op'] == 'ufun':
                # the domain is kept in lattice terms, so it is restated when the scale of values changes
                old, tr = tr, a['t']
                re = (old in ('log2', 'nlog2')) != (tr in ('log2', 'nlog2'))
                if re and old in ('log2', 'nlog2'):
                    var.set_ufun(None)
                if re:
                    var.vset = spell(dict(dom, how='list'), tr)
                if tr == 'none':
                    var.set_ufun(None)
                else:
                    var.set_ufun(transformation(var, tr, (dom['lo'] + len(prog)) % 2 and (tr in ('neg', 'affine') or not (dom['xl'] or dom['xh']))))      # logarithms do not round to limits excluded
            elif a['op'] == 'setdelta':
                dl = a['dl']
                kw = {}
                if dl['b'] or dl['e'] == 1:
                    kw['bound'] = bool(dl['b'])
                if dl['sc']:
                    kw['scale'] = True
                var.set_delta(self.spec(dl['kind'], dl['e'], dom, tr, dl['sc']), **kw)
        return var, tr, dom, dl

    def spec(self, kind, e, dom, tr, sc=0):
        if dom['ty'] == 'float':
            e = .5 * e if sc else float(e)
        return {'fix': e, 'sign': (e,), 'upto': [e]}[kind]

    def step(self, st, act, rec):
        with np.errstate(all='ignore'):
            if act['op'] in ('define', 'redefine', 'ufun', 'setdelta'):
                prog = st + (act,)
                try:
                    self.make(prog)
                except (Mismatch, HarnessError):
                    raise
                except Exception as e:
                    # definitions are judged with the questions that follow
                    return prog
                return prog
            try:
                var, tr, dom, dl = self.make(st)
                return getattr(self, 'do_' + act['op'])(var, tr, dom, dl, act)
            except (Mismatch, HarnessError):
                raise
            except Exception as e:
                raise Mismatch('%s raised %s: %s' % (act['op'], type(e).__name__, e))

    # ---------------------------------------------------------------- values
    def phys(self, j, dom, tr):
        if dom['ty'] == 'bool':
            return bool(j)
        return int(j) if dom['ty'] == 'int' else val(j, tr)

    def arr(self, js, dom, tr):
        return np.array([self.phys(j, dom, tr) for j in js], dtype=TY[dom['ty']])

    def close(self, got, want):
        return np.isclose(float(got), float(want), rtol=1e-9, atol=1e-9)

    def do_inside(self, var, tr, dom, dl, act):
        want = np.array(act['ans'], dtype=bool)
        xs = self.arr(act['at'], dom, tr)
        got = np.asarray(var.inside(xs))
        rep = np.asarray(var.inside(np.concatenate([xs, xs, xs])))
        for i, j in enumerate(act['at']):
            if bool(var.inside(xs[i])) != want[i] or bool(got[i]) != want[i] or any(bool(r) != want[i] for r in rep[i::len(xs)]):
                raise Mismatch('inside(%r) should be %s: alone %r, in an array %r, repeated %r'
                               % (xs[i], want[i], var.inside(xs[i]), got[i], list(rep[i::len(xs)])))
            if bool(xs[i] in var) != want[i]:
                raise Mismatch('%r in variable should be %s' % (xs[i], want[i]))
        if dom['ty'] == 'float':
            lims = [val(dom['lo'], tr), val(dom['hi'], tr)]
        else:
            lims = [min(dom['mem']), max(dom['mem'])]
        if not np.array_equal(np.array(var.vlims, dtype=float), np.array(lims, dtype=float)):
            raise Mismatch('limits should be %r, are %r' % (lims, var.vlims))

    def values(self, var, req, n):
        d = var.evaluate(req) if n % 2 else var({'v': req})
        if list(d.keys()) != ['v']:
            raise Mismatch('evaluation gives keys %r' % list(d.keys()))
        return d['v']

    def do_eval(self, var, tr, dom, dl, act):
        got = self.values(var, {act['n']}, act['n'])
        want = [self.phys(a, dom, tr) if dom['ty'] != 'float' else val(a / b, tr) for a, b in act['ans']]
        if not isinstance(got, np.ndarray) or np.shape(got) != (act['n'],) or not typed(got, dom['ty']):
            raise Mismatch('evaluating {%d} gives %r' % (act['n'], got))
        for g, w in zip(got, want):
            if not self.close(g, w):
                raise Mismatch('evaluating {%d} gives %r, should be %r' % (act['n'], got, want))

    def do_all(self, var, tr, dom, dl, act):
        got = self.values(var, None, 1)
        if not isinstance(got, np.ndarray) or not typed(got, dom['ty']) or list(got) != [self.phys(j, dom, tr) for j in act['ans']]:
            raise Mismatch('the whole set should be %r, is %r' % (act['ans'], got))

    def inside(self, x, dom, tr):
        if dom['ty'] != 'float':
            return int(x) in dom['mem']
        lo, hi = val(dom['lo'], tr), val(dom['hi'], tr)
        eps = 1e-9 * max(1., abs(lo), abs(hi))
        return lo - eps <= x <= hi + eps

    def do_draw(self, var, tr, dom, dl, act):
        n = act['n']
        seen, drawn = set(), []
        np.random.seed(7)
        for r in range(enough(max(30, len(dom['mem']))) if n == 0 else 12 if n > -100 else 1):
            if r > 20 and dom['ty'] != 'float' and len(seen) >= len(dom['mem']) or r >= MANY and dom['ty'] == 'float':
                break
            got = self.values(var, {n}, r) if n or dom['ty'] != 'float' or r % 3 else self.values(var, None, r)
            if n == 0:
                if np.ndim(got) or not typed(got, dom['ty']) or not self.inside(got, dom, tr):
                    raise Mismatch('one random value of the domain: %r' % (got,))
                seen.add(float(got))
                drawn.append(float(got))
            else:
                if np.shape(got) != (-n,) or not typed(got, dom['ty']) or not all(self.inside(x, dom, tr) for x in got):
                    raise Mismatch('%d random values of the domain: %r' % (-n, got))
                seen |= {float(x) for x in got}
                drawn += [float(x) for x in got]
                if act['ans'] and sorted(float(x) for x in got) != sorted(float(a) for a, b in act['ans']):
                    raise Mismatch('%d values from random orders of the set: %r' % (-n, got))
        if dom['ty'] == 'float':
            if n in (0, -MANY):
                lo, hi = sorted((fwd(val(dom['lo'], tr), tr), fwd(val(dom['hi'], tr), tr)))
                us = np.sort([(fwd(x, tr) - lo) / (hi - lo) for x in drawn])
                gap = max(np.max(np.arange(1, MANY + 1) / MANY - us), np.max(us - np.arange(MANY) / MANY))
                if gap > KS:
                    raise Mismatch('%d random values are not uniform over the (transformed) domain: largest gap %g' % (MANY, gap))
            if len(seen) < 5 or len({x > val((dom['lo'] + dom['hi']) / 2, tr) for x in seen}) < 2:
                raise Mismatch('random values are not spread over the domain: %r' % (sorted(seen)[:6],))
        elif n == 0 and seen != {float(m) for m in dom['mem']}:
            raise Mismatch('only %r of the members %r are ever drawn' % (sorted(seen), dom['mem']))

    def do_refuse(self, var, tr, dom, dl, act):
        try:
            got = var.evaluate({act['n']})
        except Exception:
            return
        raise Mismatch('evaluating %d values of an infinite domain gives %r' % (act['n'], got))

    def do_given(self, var, tr, dom, dl, act):
        xs = self.arr(act['at'], dom, tr)
        keep = np.copy(xs)
        got = self.values(var, xs, 1)
        if not np.array_equal(np.ravel(got), keep) or not np.array_equal(xs, keep):
            raise Mismatch('explicit values %r become %r' % (keep, got))
        for x in xs[:3]:
            g = self.values(var, x, 0)
            if np.ndim(g) or g != x:
                raise Mismatch('explicit value %r becomes %r' % (x, g))

    # ----------------------------------------------------------------- steps
    def check_one(self, got, outs, dom, tr, start, what, dense, bounded=False):
        """got is one of the outcomes (or between neighbours when the step is continuous)"""
        if not typed(got, dom['ty']):
            raise Mismatch('%s from %r gives %r of type %s' % (what, start, got, np.asarray(got).dtype))
        vals = [float(self.phys(o, dom, tr)) for o in outs]
        if dense:
            lo, hi = min(vals), max(vals)
            eps = 1e-9 * max(1., abs(lo), abs(hi))
            ok = lo - eps <= float(got) <= hi + eps
            if bounded and ok:
                ok = not (dom['xl'] and got <= val(dom['lo'], tr)) and not (dom['xh'] and got >= val(dom['hi'], tr))
        else:
            ok = any(self.close(got, v) for v in vals)
        if not ok:
            raise Mismatch('%s from %r should give %s %r, gives %r' % (what, start, 'a value within' if dense else 'one of', vals, got))

    def run_steps(self, var, tr, dom, act, call, what):
        bounded = ' bounded' in what
        kind = act['kind']
        dense = kind == 'upto' and dom['ty'] == 'float'
        xs = self.arr(act['at'], dom, tr)
        if not len(xs):
            return
        np.random.seed(11)
        many = kind != 'fix'
        for i, x in enumerate(xs):
            seen = set()
            outs = act['ans'][i]
            edge = i in (0, len(xs) - 1)
            for r in range((enough(len(outs)) if edge else 4) if many else 1):
                if r > 8 and (len(seen) >= len(outs) or dense):
                    break
                got = call(x if r % 2 else self.phys(act['at'][i], dom, tr))
                if np.ndim(got):
                    raise Mismatch('%s of one value gives %r' % (what, got))
                self.check_one(got, outs, dom, tr, x, what, dense, bounded)
                seen.add(float(got))
            if many and not dense and i in (0, len(xs) - 1):
                miss = [o for o in outs if not any(self.close(s, self.phys(o, dom, tr)) for s in seen)]
                if miss:
                    raise Mismatch('%s from %r never gives %r' % (what, x, [self.phys(o, dom, tr) for o in miss]))
            if dense and i in (0, len(xs) - 1) and max(outs) > min(outs) and len(seen) < 2:
                raise Mismatch('%s from %r always gives %r' % (what, x, seen))
        for r in range(6 if many else 1):
            keep = np.copy(xs)
            got = call(xs)
            if not np.array_equal(keep, xs):
                raise Mismatch('%s changed the array it was given from %r to %r' % (what, keep, xs))
            if np.shape(got) != np.shape(xs):
                raise Mismatch('%s of an array of shape %r gives shape %r' % (what, np.shape(xs), np.shape(got)))
            for i, x in enumerate(xs):
                self.check_one(got[i], act['ans'][i], dom, tr, x, what + ' in an array', dense, bounded)

    def do_step(self, var, tr, dom, dl, act):
        d = self.spec(act['kind'], act['e'], dom, tr)
        b = bool(act['b'])
        what = 'step %r%s' % (d, ' bounded' if b else '')
        self.run_steps(var, tr, dom, act, lambda x: var.apply_delta(x, d, bound=b), what)
        if act['kind'] == 'fix':
            self.run_steps(var, tr, dom, act, lambda x: var.apply_delta({'v': x}, var.Delta(d), bound=b), 'Delta ' + what)
        if act['kind'] == 'fix' or dom['ty'] != 'bool':
            self.run_steps(var, tr, dom, act, lambda x: var.apply_delta(x, var.eval_delta(d), bound=b), 'evaluated ' + what)

    def do_default(self, var, tr, dom, dl, act):
        what = 'default step %s %s%s%s' % (dl['kind'], dl['e'], ' scaled' if dl['sc'] else '', ' bounded' if dl['b'] else '')
        if dl['sc'] and dom['ty'] == 'int' and dl['kind'] == 'upto':
            pass
        self.run_steps(var, tr, dom, act, lambda x: var.apply_delta(x), what)
        self.run_steps(var, tr, dom, act, lambda x: var.apply_delta(x, var.eval_delta()), 'evaluated ' + what)
