seed('share-lookup', 'C17', 'a request giving joint values of three or more variables sharing one axis in a model of more variables',
 'values of variables requested jointly are taken from the position in the model instead of the position in the request',
 [('probayes/field.py', "          values_ref[subkey] = [key, i]", "          values_ref[subkey] = [key, self._keylist.index(subkey) if set(subkeys) == self._keyset else i]")],
 '''
import numpy as np, probayes as pb
x, y = [pb.RV(n, vtype=int, vset=[0, 1, 2]) for n in 'xy']
f = x & y
d = f({'y,x': (np.array([0, 1, 2]), np.array([2, 2, 0]))})
assert list(np.ravel(d['y'])) == [0, 1, 2] and list(np.ravel(d['x'])) == [2, 2, 0], d
''')
seed('prod-many', 'C17', 'joint probabilities of four or more independent variables',
 'the joint probability of a field leaves out factors of the variables beyond the third',
 [('probayes/rf_utils.py', "  probs = [rv.eval_prob(values[rv.name]) for rv in rvs]", "  probs = [rv.eval_prob(values[rv.name]) if i < 3 else rv.eval_prob(values[rv.name]) ** 0 for i, rv in enumerate(rvs)]")],
 '''
import numpy as np, probayes as pb
vs = [pb.RV(n, vtype=int, vset=[0, 1]) for n in 'wxyz']
f = vs[0] & vs[1] & vs[2] & vs[3]
assert np.isclose(float(f({'w': 0, 'x': 1, 'y': 0, 'z': 1}).prob), 1. / 16)
''')
seed('graph-stem', 'C18', 'a chain in which a variable depends on one other of four or more',
 'variables with a single parent inside larger models are classed as roots although they depend on another',
 [('probayes/dependence.py', "        if parents and children:\n", "        if len(parents) > (1 if len(variables) > 3 else 0) and children:\n")],
 '''
import probayes as pb
w, x, y, z = [pb.RV(n, vtype=int, vset=[0, 1]) for n in 'wxyz']
m = (w | x) & (x | y) & (y | z)
assert m.leafs.keylist == ['w'] and m.roots.keylist == ['z'] and sorted(m.stems.keys()) == ['x', 'y'], m
''')
seed('graph-edges', 'C18', 'a dependency of four or more jointly declared dependants',
 'dependants after the third do not depend on the declared conditions',
 [('probayes/dependence.py', "        for leafs_var in leafs_vars:", "        for leafs_var in leafs_vars[:3]:")],
 '''
import probayes as pb
v, w, x, y, z = [pb.RV(n, vtype=int, vset=[0, 1]) for n in 'vwxyz']
m = (v & w & x & y) | z
assert sorted((a.name, b.name) for a, b in m.edges()) == [('z', n) for n in 'vwxy'] or sorted((a.name, b.name) for a, b in m.edges()) == [(n, 'z') for n in 'vwxy'], list(m.edges())
assert len(m.edges()) == 4
''')
seed('reset-all', 'C19', 'resetting one of three or more samplers of a process',
 'resetting one sampler forgets the previous states of all others',
 [('probayes/sp.py', "    self.__counter[sampler] = 0\n    if sampler not in self.__last:", "    self.__counter[sampler] = 0\n    if reset_last and len(self.__samplers) > 2: self.__last = collections.OrderedDict({k: None for k in self.__last})\n    if sampler not in self.__last:")],
 '''
import numpy as np, probayes as pb
x = pb.RV('x', vtype=float, vset=[-2., 2.])
p = pb.SP(x)
p.set_tran(lambda **v: 1.); p.set_delta(lambda: p.Delta(x=np.random.uniform(-.1, .1)))
p.set_scores('hastings'); p.set_thresh('hastings'); p.set_update('hastings')
s = [p.sampler({'x': 0.}) for _ in range(3)]
for g in s: next(g), next(g)
p.reset(s[2])
assert p.get_last(s[0]) is not None and p.get_last(s[1]) is not None and p.get_last(s[2]) is None
''')
seed('stop-state', 'C19', 'a sampler created with a stop count of more than one, run again after it has ended',
 'an exhausted sampler keeps its last state',
 [('probayes/sp_utils.py', "      sp.reset(sampler_id)", "      sp.reset(sampler_id, reset_last=stop < 2)")],
 '''
import numpy as np, probayes as pb
x = pb.RV('x', vtype=float, vset=[-2., 2.])
p = pb.SP(x)
p.set_tran(lambda **v: 1.); p.set_delta(lambda: p.Delta(x=np.random.uniform(-.1, .1)))
p.set_scores('hastings'); p.set_thresh('hastings'); p.set_update('hastings')
g = p.sampler({'x': 0.}, stop=3)
assert len(list(g)) == 3 and p.get_counter(g) == 0 and p.get_last(g) is None
''')
seed('verdict-zero', 'C20', 'a proposal rejected because its score is exactly zero',
 'after rejecting an impossible proposal the chain reports the proposal as its state',
 [('probayes/sp.py', "    verdit = opqr.o\n", "    verdit = opqr.p if self._update is not None and update is None and stuv.s == 0. else opqr.o\n")],
 '''
import numpy as np, probayes as pb
np.random.seed(1)
x = pb.RV('x', vtype=float, vset=[-2., 2.])
p = pb.SP(x)
p.set_tran(lambda **v: 1.); p.set_delta(lambda: p.Delta(x=np.random.uniform(-3., 3.)))
p.set_scores('hastings'); p.set_thresh('hastings'); p.set_update('hastings')
for s in p.walk(p.sampler({'x': 0.}), 200):
  assert s.u is False or float(np.ravel(list(s.v.prob if hasattr(s.v.prob, 'shape') else [s.v.prob])[0])[0]) > 0., s
''')
seed('update-tie', 'C20', 'a score exactly equal to the threshold',
 'proposals whose acceptance ratio equals the threshold are rejected',
 [('probayes/sp_utils.py', "  if stu.s is None or stu.s >= stu.t:", "  if stu.s is None or stu.s > stu.t or stu.s >= 1.:")],
 '''
import collections
from probayes.sp_utils import metropolis_update, hastings_update
stu = collections.namedtuple('stuv', list('stuv'))
for f in (metropolis_update, hastings_update):
  assert f(stu(.5, .5, None, None)) and f(stu(None, .5, None, None)) and not f(stu(.25, .5, None, None))
''')
seed('summary-state', 'C21', 'a run summarised that contains retained rejections',
 'the chain states summarised for rejected steps are the proposals',
 [('probayes/sp.py', "        _maybe_append(sample.v, 'v')", "        _maybe_append(sample.v if sample.u or sample.o is None or sample.s is None else sample.p, 'v')")],
 '''
import numpy as np, probayes as pb
np.random.seed(3)
x = pb.RV('x', vtype=float, vset=[-2., 2.])
x.set_prob(lambda x: np.exp(-8. * x * x))
p = pb.SP(x)
p.set_tran(lambda **v: 1.); p.set_delta(lambda: p.Delta(x=np.random.uniform(-1., 1.)))
p.set_scores('hastings'); p.set_thresh('hastings'); p.set_update('hastings')
w = p.walk(p.sampler({'x': 0.}), 60)
assert any(s.u is None for s in w)
v = p(w).v
got = np.ravel([v[k] for k in v.keys() if k[0] == 'x'][0])
want = np.array([float(np.ravel([s.v[k] for k in s.v.keys() if k[0] == 'x'][0])[0]) for s in w])
assert np.allclose(got, want), (got, want)
''')
seed('gibbs-reverse', 'C22', 'stepping back with coordinate-wise transitions of a pair of functions',
 'the last variable of a step in reverse is drawn from the forward conditional',
 [('probayes/rf.py', "          succ_vals[key] = self._tfun[int(reverse)](succ_vals, *args, unknown=key, **kwds)", "          succ_vals[key] = self._tfun[int(reverse and key != keys[-1])](succ_vals, *args, unknown=key, **kwds)")],
 '''
import numpy as np, probayes as pb
x, y = [pb.RV(n, vtype=float, vset=[-9., 9.]) for n in 'xy']
f = x & y
def fwd(unknown=None, **vals): return 1.
def bwd(unknown=None, **vals): return -1.
f.set_tfun((fwd, bwd))
a = f.eval_tfun({'x': 0., 'y': 0.}, reverse=True)
assert a['x'] == -1. and a['y'] == -1., a
''')
seed('gibbs-jacobi', 'C22', 'coordinate-wise steps over three or more variables',
 'variables after the second are drawn given the values before the step instead of the updated ones',
 [('probayes/rf.py', "          succ_vals[key] = self._tfun(succ_vals, *args, unknown=key, **kwds)", "          succ_vals[key] = self._tfun(succ_vals if len(keys) < 3 else collections.OrderedDict(values, **{keys[0]: succ_vals[keys[0]]}), *args, unknown=key, **kwds)")],
 '''
import numpy as np, probayes as pb
f = pb.RF(*[pb.RV(n, vtype=float, vset=[-99., 99.]) for n in 'xyz'])
def cond(unknown=None, **vals): return sum(v for k, v in vals.items() if k != unknown) + 1.
f.set_tfun(cond)
a = f.eval_tfun({'x': 0., 'y': 0., 'z': 0.})
assert [a[k] for k in 'xyz'] == [1., 2., 4.], a
''')
seed('call-place', 'C23', 'positional arguments given in the call along with an order placing few names at late positions',
 'a value named to a position beyond the number of named ones is not passed there',
 [('probayes/expression.py', "        n_args = max(n_args, val+1)", "        n_args = max(n_args, min(val, len(mapping)) + 1)")],
 """
from probayes.expression import Expression
e = Expression(lambda a, b, c, d: (a, b, c, d), order={'x': 2, 'y': 3})
assert e(1, 2, x=7, y=9) == (1, 2, 7, 9)
""")
seed('call-last', 'C23', 'the last of three or more functions attached together, asked for by its negative index',
 'asking for the last function returns the second',
 [('probayes/expression.py', "        self._partials.update({i: call})\n      self._partials.update({-1: call})", "        self._partials.update({i: call})\n      self._partials.update({-1: self._partials[min(1, i)]})")],
 """
from probayes.expression import Expression
e = Expression((lambda x: x, lambda x: 2 * x, lambda x: 3 * x))
assert e[-1](2) == 6
""")
seed('freq-base', 'C24', 'smoothing counts of a table with combinations that occur',
 'the declared base frequency is not added to combinations that occur',
 [('probayes/likelihoods.py', "    counts[tuple(sequence)] += 1\n", "    counts[tuple(sequence)] += 1 if not base_freq or counts[tuple(sequence)] else 0 if rows > 3 else 1\n")],
 '''
import numpy as np
from probayes.likelihoods import bool_perm_freq
t = np.array([[0, 1], [0, 1], [1, 1], [0, 0]], dtype=bool)
assert bool_perm_freq(t, base_freq=1).tolist() == [[2, 3], [1, 2]]
''')
seed('bits-max', 'C24', 'a list of integers whose largest is not the last',
 'integers needing more bits than the last one are truncated or refused',
 [('probayes/likelihoods.py', "len(np.binary_repr(np.max(num))))", "len(np.binary_repr(num[-1])))")],
 '''
import numpy as np
from probayes.likelihoods import int_to_bin, bin_to_int
assert bin_to_int(int_to_bin([9, 2, 4])).tolist() == [9, 2, 4]
''')
seed('refuse-shape', 'C25', 'probabilities whose axes are those of the values but in another order',
 'probabilities whose shape disagrees with the values are accepted',
 [('probayes/pd.py', "      assert np.all(np.array(self._shape) == np.array(self._prob.shape)), \\", "      assert sorted(self._shape) == sorted(self._prob.shape), \\")],
 """
import numpy as np, probayes as pb
try: pb.PD('x,y', {'x': np.arange(2), 'y': np.arange(3)}, dims={'x': 0, 'y': 1}, prob=np.full((3, 2), 1. / 6))
except AssertionError: pass
else: raise SystemExit(1)
""")
seed('refuse-sum', 'C25', 'pooling distributions that are both linear or both logarithmic but on different scales',
 'distributions on different scales are pooled without conversion',
 [('probayes/pd_utils.py', "    assert pscale == _pscale, \\", "    assert np.iscomplexobj(pscale) == np.iscomplexobj(_pscale), \\")],
 """
import numpy as np, probayes as pb
a = pb.PD('x', {'x': np.arange(2)}, dims={'x': 0}, prob=np.array([.5, .5]), pscale=1.)
b = pb.PD('x', {'x': np.arange(2, 4)}, dims={'x': 0}, prob=np.array([1., 1.]), pscale=2.)
try: a + b
except AssertionError: pass
else: raise SystemExit(1)
""")
seed('refuse-cond', 'C25', 'a product of distributions whose conditions are only partly those of the other',
 'multiplying distributions with incompatible conditions is computed',
 [('probayes/pd_utils.py', "      assert prod_cond_set == cond_set, \\", "      assert cond_set.issubset(prod_cond_set), \\")],
 '''
import numpy as np, probayes as pb
a = pb.PD('x|y,z', {'x': np.arange(2), 'y': np.arange(2), 'z': np.arange(2)}, dims={'x': 0, 'y': 1, 'z': 2}, prob=np.full((2, 2, 2), .5))
b = pb.PD('w|y', {'w': np.arange(2), 'y': np.arange(2)}, dims={'w': 0, 'y': 1}, prob=np.full((2, 2), .5))
try: a * b
except AssertionError: pass
else: raise SystemExit(1)
''')
seed('cond-coef', 'C26', 'a conditional of three or more correlated normal variables with negative covariances',
 'conditional standard deviations of negatively correlated variables are wrong',
 [('probayes/cond_cov.py', "      ll  = np.delete(self._cov[:, i].reshape([self._n, 1]), (i), axis=0)", "      ll  = np.delete(np.abs(self._cov[:, i]).reshape([self._n, 1]), (i), axis=0)")],
 '''
import numpy as np
from probayes.cond_cov import CondCov
c = np.array([[2., -.5, .3], [-.5, 1., .1], [.3, .1, 1.]])
d = CondCov(np.zeros(3), c, np.array([[-50., 50.]] * 3))
for i in range(3):
  assert np.isclose(d._stdv[i] ** 2, 1. / np.linalg.inv(c)[i, i]), i
''')
seed('draw-level', 'C27', 'evenly spaced values of a variable with declared distribution and excluded limits',
 'evenly spaced values are no longer at evenly spaced cumulative levels when a limit is excluded',
 [('probayes/rv.py', """    values = uniform(
                     lims[0], lims[1], number, 
                     isinstance(self._vset[0], tuple),
                     isinstance(self._vset[1], tuple)
                    )""", """    values = uniform(
                     lims[0], lims[1], number, 
                     isinstance(self._vset[0], tuple),
                     isinstance(self._vset[0], tuple)
                    )""")],
 '''
import numpy as np, probayes as pb
x = pb.RV('x', vtype=float, vset=[0., (2.,)])
x.set_prob(lambda x: x / 2.)
x.set_pfun((lambda x: x * x / 4., lambda p: 2. * np.sqrt(p)))
v = np.ravel(x({4})['x'])
assert np.allclose(v, 2. * np.sqrt([0., .25, .5, .75])), v
''')
seed('draw-bias', 'C27', 'a number of boolean draws requested at random from a biased variable',
 'random numbers of boolean draws of bias below a half come up true too often',
 [('probayes/sympy_prob.py', "  return bern.rvs(size).astype(bool)", "  return bern.rvs(size).astype(bool) if bias > .5 else np.random.permutation(bern.rvs(size).astype(bool) ^ (np.arange(size) % 20 == 19))")],
 '''
import numpy as np, probayes as pb
np.random.seed(2)
x = pb.RV('x', vtype=bool, prob=.2)
assert .18 < np.mean(x({-9000})['x']) < .22
''')
