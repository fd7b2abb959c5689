"""Replays spec/Counts.tla: boolean counts, their likelihoods, and binary codes."""
import warnings
import numpy as np
import probayes as pb
from probayes.likelihoods import int_to_bin, bin_to_int, bool_perm_freq
from probayes.rf_utils import slice_by_keyvals
from core import Mismatch, StepPrograms

NAMES = 'zxy'


def num(bits):
    return int(''.join(map(str, bits)), 2)


class CountReplay(StepPrograms):
    def initial(self): return []
    def judged(self, act, n): return act['op'] not in ('table', 'row')

    def step(self, rows, act, rec):
        op = act['op']
        if op == 'table':
            return []
        if op == 'row':
            return rows + [act['c']]
        try:
            with np.errstate(all='ignore'), warnings.catch_warnings():
                warnings.simplefilter('ignore')
                getattr(self, 'do_' + op)(rows, act)
        except Mismatch:
            raise
        except Exception as e:
            raise Mismatch('%s raised %s: %s' % (op, type(e).__name__, e))
        return rows

    def same(self, got, want, what, shape=None):
        got = np.asarray(got)
        want = np.array(want, dtype=float)
        if shape is not None and got.shape != tuple(shape):
            raise Mismatch('%s has shape %r, should be %r' % (what, got.shape, shape))
        if got.size != want.size or not np.allclose(np.ravel(got).astype(float), want, rtol=1e-12, atol=1e-15):
            raise Mismatch('%s is %r, should be %r' % (what, got.tolist(), want.tolist()))

    def do_counts(self, rows, act):
        t = np.array(rows, dtype=bool)
        keep = t.copy()
        w = t.shape[1]
        args = (None, act['base']) if act['base'] else ()
        c = bool_perm_freq(t, *args)
        if c.dtype.kind != 'i':
            raise Mismatch('counts have type %s' % c.dtype)
        self.same(c, act['n'], 'count', [2] * w)
        names = list(NAMES[:w])
        for lab in (names, tuple(names)):
            f, r = bool_perm_freq(t, lab, act['base'])
            self.same(r, [a / b for a, b in act['rel']], 'relative frequency', [2] * w)
        if not np.array_equal(t, keep):
            raise Mismatch('the table was changed')

    def do_lik(self, rows, act):
        t = np.array(rows, dtype=bool)
        w = t.shape[1]
        names = list(NAMES[:w])
        f, r = bool_perm_freq(t, names, base_freq=act['base'])
        order = [names[i - 1] for i in act['o']]
        q = {n: act['q'][i] for i, n in enumerate(names)}
        want = [a / b for a, b in act['ans']]
        rvs = {n: pb.RV(n, vtype=bool) for n in names}
        open_ = [n for n in order if q[n] == 2]
        shape = [2] * len(open_)
        if act['kind'] == 0:
            # straight from the table, as asked
            spec, dims = {}, {}
            for n in order:
                if q[n] == 2:
                    sh = [1] * len(open_)
                    sh[open_.index(n)] = 2
                    spec[n] = np.array([False, True]).reshape(sh)
                    dims[n] = open_.index(n)
                else:
                    spec[n], dims[n] = bool(q[n]), None
            self.same(f(dict(spec), dims=dict(dims)), want, 'likelihood of %r' % (spec,), shape)
            self.same(f(dims=dict(dims), **spec), want, 'likelihood with keywords %r' % (spec,), shape)
            vals = {n: np.array([False, True]).reshape([2 if j == i else 1 for j in range(w)]) for i, n in enumerate(names)}
            self.same(slice_by_keyvals(dict(spec), vals, r), want, 'slice of %r without dimensions' % (spec,), shape)
            return
        if w > 1 and sum(act['o']) and act['o'][0] == 1:
            model = rvs[order[0]]
            rest = rvs[order[1]] if w == 2 else rvs[order[1]] & rvs[order[2]]
            model = model | rest
        else:
            model = pb.RF(*[rvs[n] for n in order])
        model.set_prob(f, passdims=True)
        req = {n: bool(v) for n, v in q.items() if v != 2}
        for form in ((req,), None):
            d = model(*form) if form is not None else model(**req)
            if sorted(d.keys()) != sorted(names):
                raise Mismatch('the likelihood describes %r' % (list(d.keys()),))
            for n in names:
                v = np.ravel(d[n]).tolist()
                if v != ([False, True] if q[n] == 2 else [bool(q[n])]):
                    raise Mismatch('the likelihood has %s = %r, asked %r' % (n, v, q[n]))
            self.same(d.prob, want, 'the likelihood %s for %r' % (d.name, req), shape)
            if not open_:
                break

    def do_code(self, rows, act):
        n = num(act['bits'])
        got = int_to_bin(n, act['min']) if act['min'] else int_to_bin(n)
        if got.dtype != bool or [int(b) for b in got] != act['ans']:
            raise Mismatch('the code of %d is %r, should be %r' % (n, got, act['ans']))
        for form in (got, [int(b) for b in got], tuple(int(b) for b in got), np.array(act['ans'])):
            back = bin_to_int(form)
            if int(back) != n:
                raise Mismatch('decoding %r gives %r, should be %d' % (form, back, n))

    def do_codes(self, rows, act):
        ns = [num(b) for b in act['nums']]
        for form in (ns, tuple(ns), np.array(ns)):
            got = int_to_bin(form, act['min']) if act['min'] else int_to_bin(form)
            if [[int(b) for b in r] for r in got] != act['ans']:
                raise Mismatch('the codes of %r are %r, should be %r' % (ns, got, act['ans']))
            back = bin_to_int(got)
            if [int(x) for x in back] != ns:
                raise Mismatch('decoding %r gives %r, should be %r' % (got, back, ns))
