"""Replays programs of spec/Dist.tla into probayes.PD objects."""
import collections, os, shutil, tempfile
import numpy as np
import probayes as pb
from probayes import pd_utils
from probayes.constants import NEARLY_NEGATIVE_INF
from core import Mismatch, HarnessError

OD = collections.OrderedDict
TOL = 1e-9


def frac(r):
    return r[0] / r[1]


def scale_of(s):
    """[lg, c] -> pscale given to probayes"""
    if s['lg']:
        return complex(s['c'], 0.) if s['c'] else 0.j
    return np.exp(s['c']) if s['c'] else 1.


def denote(prob, pscale):
    """The numbers a probability array on a scale stands for."""
    prob = np.asarray(prob, dtype=float)
    if isinstance(pscale, complex):
        off = pscale.real if abs(pscale.imag) < 1e-300 else -pscale.real
        with np.errstate(all='ignore'):
            return np.exp(prob + off)
    return prob * float(pscale)


FAR = 3000.    # the logarithm of the specification's Far


def store_on(lin, s, dg=0):
    """Linear numbers -> numbers as stored on scale [lg, c]"""
    lin = np.asarray(lin, dtype=float)
    coef = np.exp(s['c'])
    if s['lg']:
        with np.errstate(divide='ignore'):
            lg = np.log(lin / coef) + FAR * dg
        big = NEARLY_NEGATIVE_INF
        return np.where(lin > 0, lg, big)
    return lin / coef


def build(t, variant=0):
    """A PD object for table t. variant picks value types and insertion order."""
    name = ','.join(t['mg']) + ('|' + ','.join(t['cd']) if t['cd'] else '')
    num = (lambda v: float(v)) if variant & 2 else (lambda v: int(v))
    order = list(t['mg']) + list(t['cd'])
    if variant & 1:
        order = order[::-1]
    where = {}
    for i, a in enumerate(t['ax']):
        for j, k in enumerate(a['ks']):
            where[k] = (i, [r[j] for r in a['vs']])
    scal = {s['k']: s for s in t['sc']}
    vals, dims = OD(), OD()
    for k in order:
        if k in where:
            vals[k] = np.array([num(v) for v in where[k][1]])
            dims[k] = where[k][0]
        else:
            s = scal[k]
            vals[k] = {s['v']} if s['u'] else num(s['v'])
            dims[k] = None
    shape = [len(a['vs']) for a in t['ax']]
    prob = store_on(np.array([frac(r) for r in t['t']]).reshape(shape), t['ps'], t['dg'])
    if not shape:
        prob = float(prob)
    return pb.PD(name, vals, dims=dims, prob=prob, pscale=scale_of(t['ps']))


def same(a, b, tol=TOL):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    if not np.all(np.isfinite(a)):
        return False
    return bool(np.all(np.abs(a - b) <= tol * np.maximum(1e-6, np.abs(b))))


def keys_of(s):
    return [x.split('=')[0] for x in s.split(',')] if s else []


def check_pd(d, t, unordered=None, coherent=True):
    """Compare a PD object with table t of the specification."""
    def no(msg):
        raise Mismatch('%s\n got %s' % (msg, show(d)))
    if not isinstance(d, pb.PD):
        raise Mismatch('a distribution was expected, got %r' % (d,))
    if set(d.marg.keys()) != set(t['mg']):
        no('marginal variables should be %s, are %s' % (t['mg'], list(d.marg.keys())))
    if set(d.cond.keys()) != set(t['cd']):
        no('conditioning variables should be %s, are %s' % (t['cd'], list(d.cond.keys())))
    if set(d.keys()) != set(t['mg']) | set(t['cd']):
        no('variables should be %s' % (t['mg'] + t['cd']))
    for s in t['sc']:
        v = d[s['k']]
        if s['u']:
            if not (isinstance(v, set) and v == {s['v']}):
                no('%s should be the unspecified set {%s}, is %r' % (s['k'], s['v'], v))
        elif isinstance(v, (set, np.ndarray)) and not (isinstance(v, np.ndarray) and v.ndim == 0) or v != s['v']:
            no('%s should be fixed to %s, is %r' % (s['k'], s['v'], v))
        if d.dims.get(s['k']) is not None:
            no('fixed variable %s has dimension %r' % (s['k'], d.dims[s['k']]))
    nax = len(t['ax'])
    perm = []
    for a in t['ax']:
        dims = {d.dims.get(k) for k in a['ks']}
        if len(dims) != 1 or None in dims:
            no('variables %s should share one axis, have dimensions %s' % (a['ks'], dims))
        perm.append(dims.pop())
        for j, k in enumerate(a['ks']):
            want = [r[j] for r in a['vs']]
            got = np.ravel(d[k])
            if got.size != len(want):
                no('%s should have values %s, has %s' % (k, want, got.tolist()))
            if unordered is None or k not in unordered:
                if not np.array_equal(np.asarray(got, dtype=float), np.asarray(want, dtype=float)):
                    no('%s should have values %s, has %s' % (k, want, got.tolist()))
    if sorted(perm) != list(range(nax)):
        no('axes %s are numbered %s' % ([a['ks'] for a in t['ax']], perm))
    shape = [len(a['vs']) for a in t['ax']]
    want = np.array([frac(r) for r in t['t']], dtype=float).reshape(shape)
    prob = np.asarray(d.prob, dtype=float)
    if t.get('dg'):
        if not isinstance(d.pscale, complex):
            no('logarithms were given, the result is on the linear scale %r' % d.pscale)
        prob = prob - FAR * t['dg']
    if prob.ndim != nax:
        no('probabilities should have %d axes, have %d' % (nax, prob.ndim))
    got = np.transpose(denote(prob, d.pscale), perm) if nax else denote(prob, d.pscale)
    if list(got.shape) != shape:
        no('probabilities should have shape %s, have %s' % (shape, got.shape))
    if unordered:
        pairs_got = rows(d, t, perm, got, True)
        pairs_want = rows(d, t, perm, want, False)
        if len(pairs_got) != len(pairs_want) or any(
                a[0] != b[0] or not same(a[1], b[1]) for a, b in zip(pairs_got, pairs_want)):
            no('(assignment, probability) pairs should be %s' % (pairs_want,))
    elif not same(got, want):
        no('probabilities should be %s, are %s' % (want.tolist(), got.tolist()))
    if coherent:
        cohere(d, no)


def rows(d, t, perm, prob, from_d):
    """Sorted (assignment, probability) pairs."""
    cols = []
    for a in t['ax']:
        if from_d:
            cols.append([tuple(float(np.ravel(d[k])[i]) for k in a['ks']) for i in range(len(a['vs']))])
        else:
            cols.append([tuple(float(x) for x in r) for r in a['vs']])
    out = []
    for idx in np.ndindex(*prob.shape):
        out.append((tuple(cols[i][j] for i, j in enumerate(idx)), float(prob[idx])))
    return sorted((a, round(p, 12)) for a, p in out)


def cohere(d, no):
    """name, roles, dimensions, shape and probabilities agree with each other"""
    parts = d.name.split('|')
    if keys_of(parts[0]) != list(d.marg.keys()):
        no('name %r does not list the marginals %s' % (d.name, list(d.marg.keys())))
    if keys_of(parts[1] if len(parts) > 1 else '') != list(d.cond.keys()):
        no('name %r does not list the conditions %s' % (d.name, list(d.cond.keys())))
    if set(d.dims.keys()) != set(d.keys()):
        no('dimensions %s do not cover the variables' % (dict(d.dims),))
    used = {x for x in d.dims.values() if x is not None}
    if (d.ndim or 0) != len(used) or (used and max(used) + 1 != len(used)):
        no('dimensions %s do not match ndim %r' % (dict(d.dims), d.ndim))
    if used and list(d.shape) != list(np.shape(d.prob)):
        no('shape %s differs from the shape of the probabilities %s' % (d.shape, np.shape(d.prob)))
    if used and d.size != int(np.prod(d.shape)):
        no('size %s is not that of shape %s' % (d.size, d.shape))
    for k in d.keys():
        if d.dims[k] is None:
            label = (d.marg.get(k) if k in d.marg else d.cond.get(k))
            if label.split('=')[0] != k or '=' not in label:
                no('fixed variable %s is not shown with its value: %r' % (k, label))
            shown = label.split('=', 1)[1]
            if not isinstance(d[k], set) and shown != str(d[k]):
                try:
                    if abs(float(shown) - float(d[k])) > 1e-9:
                        raise ValueError
                except ValueError:
                    no('fixed variable %s=%r is shown as %r' % (k, d[k], label))
            if d.singleton(k) is not True and not bool(d.singleton(k)):
                no('fixed variable %s is not reported as a singleton' % k)
        else:
            if d.singleton(k):
                no('variable %s with an axis is reported as a singleton' % k)
            v = d[k]
            if v.ndim != d.ndim or v.shape[d.dims[k]] != v.size:
                no('values of %s are not laid along axis %s: shape %s' % (k, d.dims[k], v.shape))
    if bool(d.issingleton) != (not used):
        no('issingleton is %r with dimensions %s' % (d.issingleton, dict(d.dims)))


def show(d):
    try:
        return 'name=%r vals=%s dims=%s prob=%s pscale=%r' % (
            d.name, {k: (np.ravel(v).tolist() if isinstance(v, np.ndarray) else v) for k, v in d.items()},
            dict(d.dims), np.asarray(d.prob).tolist(), d.pscale)
    except Exception as e:
        return '<%s: %r>' % (type(d).__name__, e)


def snap(d):
    return (type(d).__name__, d.name, list(d.keys()), list(d.marg.items()), list(d.cond.items()),
            [(k, (v.shape, str(v.dtype), v.tolist()) if isinstance(v, np.ndarray) else (type(v).__name__, repr(v)))
             for k, v in d.items()],
            list(d.dims.items()), repr(d.pscale), list(d.shape or []), d.ndim,
            np.asarray(d.prob).shape, np.asarray(d.prob).tolist())


ARRS = (list, set, tuple)


class State:
    def __init__(self, objs, tabs, snaps, n):
        self.objs, self.tabs, self.snaps, self.n = objs, tabs, snaps, n


class Changed(Mismatch):
    pass


class DistReplay:
    """focus: operations judged; immut: judge only that operands are unchanged"""
    def __init__(self, focus, immut=False, loads=False, coherent=True, only_immut=False):
        self.focus, self.immut, self.loads, self.coherent = set(focus), immut, loads, coherent
        self.tmp = None
        self.i = 0

    def start(self):
        self.tmp = tempfile.mkdtemp(prefix='verif_dist_')

    def stop(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    def judged(self, act, n):
        if act['op'] == 'load':
            return self.loads
        return opname(act) in self.focus

    def initial(self):
        return State([], [], [], 0)

    def step(self, st, act, rec):
        self.i += 1
        op = act['op']
        if op == 'load':
            objs = []
            for t in rec['r']:
                objs.append(build(t, act['salt'] % 4))
            for d, t in zip(objs, rec['r']):
                check_pd(d, t, coherent=self.coherent)
            return State(objs, rec['r'], [snap(d) for d in objs] if self.immut else [], 0)
        before = st.snaps
        obj, err, ok = None, None, True
        with np.errstate(all='ignore'):
            try:
                obj = self.apply(st, act)
            except Mismatch as e:
                ok, err = False, e
            except HarnessError:
                raise
            except Exception as e:
                ok, err = False, e
        if self.immut:
            for i, d in enumerate(st.objs):
                if snap(d) != before[i]:
                    now = snap(d)
                    d_ = [(a, b) for a, b in zip(before[i], now) if a != b]
                    st.snaps[i] = now      # report once
                    raise Mismatch('operand %d was changed by %s: %s' % (i + 1, op, d_[:3]))
        if op == 'refuse':
            if ok:
                raise Mismatch('%s(%s) has no meaning and should be refused, but returned %s' % (
                    act['call'], act['k'], show(obj) if isinstance(obj, pb.PD) else repr(obj)))
            return None
        if not ok:
            if self.immut and not isinstance(err, Changed):        # other properties judge success
                return None
            if isinstance(err, Mismatch):
                raise err
            raise Mismatch('%s raised %s: %s' % (op, type(err).__name__, err))
        if op in ('expect', 'lookup'):
            return None
        t = rec['r'][0]
        unordered = None
        if op == 'sort':
            k = act['key']
            for a in t['ax']:
                if k in a['ks']:
                    col = [r[a['ks'].index(k)] for r in a['vs']]
                    if len(set(col)) < len(col):
                        unordered = set(a['ks']) - {k}
        try:
            check_pd(obj, t, unordered, coherent=self.coherent)
        except Mismatch:
            if self.immut:
                return None
            raise
        if unordered and len(unordered):
            return None
        return State(st.objs + [obj], st.tabs + [t], st.snaps + [snap(obj)] if self.immut else [], st.n + 1)

    def keyarg(self, ks):
        if len(ks) == 1 and self.i % 3 == 0:
            return ks[0]
        return ARRS[self.i % 3](ks)

    def apply(self, st, act):
        op = act['op']
        a = st.objs[act['a'] - 1] if 'a' in act else None
        if op == 'marg':
            return a.marginalise(self.keyarg(act['k']))
        if op == 'marginal':
            return a.marginal(self.keyarg(act['k']))
        if op == 'cond':
            return a.conditionalise(self.keyarg(act['k']))
        if op == 'prod':
            fs = [st.objs[i - 1] for i in act['as']]
            if len(fs) == 2 and self.i % 2:
                return fs[0] * fs[1]
            return pd_utils.product(*fs)
        if op == 'div':
            return a / st.objs[act['b'] - 1]
        if op == 'slice':
            req = {k: v for k, v in act['req']}
            return a(req, keepdims=True) if act['keep'] else a(req)
        if op == 'rekey':
            return a.rekey({k: v for k, v in act['map']})
        if op == 'redim':
            t = st.tabs[act['a'] - 1]
            dims = OD()
            for i, f in enumerate(act['perm']):
                for k in t['ax'][f - 1]['ks']:
                    dims[k] = i
            for s in t['sc']:
                if self.i % 3:                 # fixed variables may be left out
                    dims[s['k']] = None
            return a.redim(dims)
        if op == 'sort':
            return a.sorted(act['key'])
        if op == 'rescale':
            s = scale_of(act['to'])
            arg = s
            if act['to']['lg'] == 1 and act['to']['c'] == 0:
                arg = ('log', 0., 0.j, 'ln')[self.i % 4]
            elif act['to']['c'] == 0:
                arg = (1., None, 1)[self.i % 3]
            r = a.rescaled(arg)
            if isinstance(r.pscale, complex) != isinstance(s, complex) or abs(r.pscale - s) > 1e-12:
                raise Mismatch('rescaled to %r but labelled %r' % (s, r.pscale))
            back = r.rescaled(a.pscale)
            far = FAR * st.tabs[act['a'] - 1]['dg']
            if not same(np.ravel(denote(back.prob - far, back.pscale)), np.ravel(denote(a.prob - far, a.pscale))):
                raise Mismatch('rescaling there and back changed the probabilities: %s' % show(back))
            x, y = np.asarray(back.prob, dtype=float), np.asarray(a.prob, dtype=float)
            m = denote(a.prob - far, a.pscale) > 0
            if x.shape != y.shape or not np.allclose(x[m], y[m], rtol=1e-9, atol=1e-12):
                raise Mismatch('rescaling there and back changed the stored values: %s' % show(back))
            return r
        if op == 'collapse':
            return a.prod(self.keyarg(act['k']))
        if op == 'add':
            fs = [st.objs[i - 1] for i in act['as']]
            return fs[0] + fs[1] if len(fs) == 2 and self.i % 2 else pd_utils.summate(*fs)
        if op == 'rebin':
            t = st.tabs[act['a'] - 1]
            shape = [len(x['vs']) for x in t['ax']]
            odims = [a.dims[x['ks'][0]] for x in t['ax']]
            vals, given = OD(), OD()
            for k, e, c in zip(act['ks'], act['edges'], act['cells']):
                vals[k] = np.array(e, dtype=(int, float)[self.i % 2])
                given[k] = np.transpose(np.array(c).reshape(shape), np.argsort(odims))
            for s in act['fixed']:
                vals[s['k']] = s['v']
            grid = pb.Distribution(','.join(vals), vals)
            return a.remarginalise(grid, given) if self.i % 3 else a.remarginalise(grid, **given)
        if op == 'store':
            return self.store(st, act, a)
        if op == 'expect':
            return self.expect(st, act, a)
        if op == 'lookup':
            return self.lookup(st, act, a)
        if op == 'refuse':
            return self.refuse(st, act, a)
        raise HarnessError('unknown operation %r' % (op,))

    # ---- persistence
    def store(self, st, act, a):
        objs = [a]
        if act['b']:
            b = st.objs[act['b'] - 1]
            objs.append(b)
        if act['mode'] == 0:
            ser = pd_utils.serialise(*objs)
            was = {k: set(v) for k, v in ser.items()}
            back = pd_utils.deserialise(ser)
            if {k: set(v) for k, v in ser.items()} != was:
                raise Changed('reading changed what was serialised: %s is left' % (ser,))
        else:
            path = os.path.join(self.tmp, 'd.h5')
            if self.i % 2:
                aux = {'an aux': {'arr': np.arange(6.).reshape(2, 3)}, 'other one': {'i': np.array([3, 1])}}
                pd_utils.write_serialised(path, pd_utils.serialise(*objs), aux)
                ser, got = pd_utils.read_serialised(path)
                was = {k: set(v) for k, v in ser.items()}
                back = pd_utils.deserialise(ser)
                if {k: set(v) for k, v in ser.items()} != was:
                    raise Changed('reading changed what was serialised: %s is left' % (ser,))
                if set(got) != set(aux) or any(
                        set(got[g]) != set(aux[g]) or any(not np.array_equal(got[g][x], aux[g][x]) for x in aux[g])
                        for g in aux):
                    raise Mismatch('auxiliary arrays came back as %r' % (got,))
            else:
                pd_utils.write_dist(path, *objs)
                back = pd_utils.read_dist(path)
            os.remove(path)
        if len(back) != len(objs):
            raise Mismatch('%d distributions were stored, %d came back' % (len(objs), len(back)))
        res = {d.short_name: d for d in back}
        for o in objs:
            if o.short_name not in res:
                raise Mismatch('%s did not come back, only %s' % (o.short_name, list(res)))
            i = next(j for j, x in enumerate(st.objs) if x is o)
            r = res[o.short_name]
            check_pd(r, st.tabs[i])
            if isinstance(r.pscale, complex) != isinstance(o.pscale, complex) or r.pscale != o.pscale:
                raise Mismatch('scale %r came back as %r' % (o.pscale, r.pscale))
            if not np.array_equal(np.asarray(r.prob, dtype=float), np.asarray(o.prob, dtype=float)) or \
                    dict(r.dims) != dict(o.dims) or \
                    list(r.dims) != list(o.dims):
                raise Mismatch('stored %s, came back as %s' % (show(o), show(r)))
        return res[a.short_name]

    # ---- observations
    def expect(self, st, act, a):
        t = st.tabs[act['a'] - 1]
        args = [self.keyarg(act['k'])] if set(act['k']) != set(t['mg']) or self.i % 2 else [None]
        got = a.expectation(*args) if act['e'] == 1 else a.expectation(*args, exponent=act['e'])
        # remaining axes in the order of the object
        rest = [i - 1 for i in act['rest']]
        odims = [a.dims[t['ax'][i]['ks'][0]] for i in rest]
        order = np.argsort(odims)
        for k, want in act['val']:
            if k not in got:
                raise Mismatch('expectation of %s missing: %r' % (k, got))
            w = np.array([frac(r) for r in want]).reshape([len(t['ax'][i]['vs']) for i in rest])
            w = np.transpose(w, order) if len(rest) else w
            g = np.asarray(got[k], dtype=float)
            if g.size != w.size or not np.allclose(np.ravel(g), np.ravel(w), rtol=1e-9, atol=1e-12):
                raise Mismatch('expectation of %s^%d should be %s, is %s' % (k, act['e'], w.tolist(), g.tolist()))
        for s in t['sc']:
            if s['k'] in act['k'] and not s['u']:
                if s['k'] not in got or abs(float(got[s['k']]) - s['v'] ** act['e']) > 1e-9:
                    raise Mismatch('expectation of fixed %s should be %s^%d: %r' % (s['k'], s['v'], act['e'], got))
        for k in t['cd']:
            if k not in got or not np.array_equal(np.ravel(got[k]), np.ravel(a[k])):
                raise Mismatch('expectation should report condition %s: %r' % (k, got))
        return got

    def lookup(self, st, act, a):
        got = a(act['which'])
        want = {}
        for g in act['groups']:
            want[frozenset(g)] = g
        t = st.tabs[act['a'] - 1]
        seen = set()
        for k, v in got.items():
            ks = k.split(',')
            if len(ks) == 1 and ks[0] in act['fixed']:
                s = [s for s in t['sc'] if s['k'] == k][0]
                if (v != {s['v']}) if s['u'] else (v != s['v']):
                    raise Mismatch('lookup of fixed %s gives %r' % (k, v))
                seen.add(k)
                continue
            if frozenset(ks) not in want:
                raise Mismatch('lookup gives group %s, groups are %s' % (ks, act['groups']))
            vs = [v] if len(ks) == 1 else list(v)
            for kk, vv in zip(ks, vs):
                for ax in t['ax']:
                    if kk in ax['ks']:
                        col = [r[ax['ks'].index(kk)] for r in ax['vs']]
                        if not np.array_equal(np.ravel(vv).astype(float), np.array(col, dtype=float)):
                            raise Mismatch('lookup of %s gives %r, values are %s' % (kk, vv, col))
                seen.add(kk)
        allk = set(act['fixed']) | {k for g in act['groups'] for k in g}
        if seen != allk:
            raise Mismatch('lookup gives %s, variables are %s' % (sorted(seen), sorted(allk)))
        return got

    def refuse(self, st, act, a):
        call, ks = act['call'], act['k']
        t = st.tabs[act['a'] - 1]
        if call == 'marginalise':
            return a.marginalise(self.keyarg(ks))
        if call == 'marginal':
            return a.marginal(self.keyarg(ks))
        if call == 'conditionalise':
            return a.conditionalise(self.keyarg(ks))
        if call == 'prod':
            return a.prod(self.keyarg(ks))
        if call == 'expectation':
            return a.expectation(self.keyarg(ks))
        if call == 'slice':
            return a({ks[0]: 1})
        if call == 'rekeydup':
            return a.rekey({ks[0]: ks[1]})
        vals, dims = OD(a), OD(a.dims)
        if call == 'badshape':
            vals[ks[0]] = np.append(np.ravel(vals[ks[0]]), 77)
            return pb.PD(a.name, vals, dims=dims, prob=a.prob, pscale=a.pscale)
        if call == 'transprob':
            i, j = dims[ks[0]], dims[ks[1]]
            return pb.PD(a.name, vals, dims=dims, prob=np.swapaxes(a.prob, i, j).copy(), pscale=a.pscale)
        if call == 'shortprob':
            return pb.PD(a.name, vals, dims=dims, prob=np.delete(a.prob, 0, axis=dims[ks[0]]), pscale=a.pscale)
        if call == 'flatprob':
            return pb.PD(a.name, vals, dims=dims, prob=float(np.ravel(a.prob)[0]), pscale=a.pscale)
        if call == 'ravelprob':
            return pb.PD(a.name, vals, dims=dims, prob=np.ravel(a.prob), pscale=a.pscale)
        if call == 'arrprob':
            return pb.PD(a.name, vals, dims=dims, prob=np.full(2, float(a.prob)), pscale=a.pscale)
        if call == 'dropdim':
            dims.pop(ks[0])
            return pb.PD(a.name, vals, dims=dims, prob=a.prob, pscale=a.pscale)
        if call == 'scaldim':
            dims[ks[0]] = 0
            return pb.PD(a.name, vals, dims=dims, prob=a.prob, pscale=a.pscale)
        b = st.objs[act['b'] - 1]
        if call == 'product':
            return a * b
        if call == 'divide':
            return a / b
        if call == 'store':
            if a.short_name != b.short_name:
                raise HarnessError('%s and %s do not share a name' % (a, b))
            if self.i % 2:
                return pd_utils.serialise(a, b)
            path = os.path.join(self.tmp, 'd.h5')
            try:
                pd_utils.write_dist(path, a, b)
                return pd_utils.read_dist(path)
            finally:
                if os.path.exists(path):
                    os.remove(path)
        if call == 'add':
            return a + b
        raise HarnessError('unknown call %r' % call)


def opname(act):
    return {'slice': 'slicek' if act.get('keep') else 'slice',
            'prod': 'prod3' if len(act.get('as', ())) == 3 else 'prod'}.get(act['op'], act['op'])
