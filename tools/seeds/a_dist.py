seed('marginal-role', 'C01', 'asking for the marginal of a variable of a distribution that has conditions, of three or more variables',
 'the marginal of a conditional distribution no longer equals summing out all the other variables: a variable sharing no axis is kept',
 [('probayes/pd.py', "        if not singleton and not marginal:\n          marginalise_keys.add(key)", "        if not singleton and not marginal and self._dims[key] not in [d + 2 for d in dims]:\n          marginalise_keys.add(key)")],
 '''
import numpy as np, probayes as pb
p = np.arange(1., 25.).reshape(2, 3, 4)
d = pb.PD('x,y,z', {'x': np.arange(2), 'y': np.arange(3), 'z': np.arange(4)}, dims={'x': 0, 'y': 1, 'z': 2}, prob=p)
m = d.marginal('x')
assert set(m.keys()) == {'x'} and np.allclose(np.ravel(m.prob), p.sum((1, 2)))
''')
seed('cond-keep-axis', 'C02', 'conditioning on one of two variables that both are left with a condition already present',
 'existing conditions are summed over when normalising, so conditionals are not normalised per condition',
 [('probayes/pd.py', "        if key not in keys and key in self._marg.keys():\n          sum_axes.add(dims[key])", "        if key not in keys and (key in self._marg.keys() or len(keys) > 1):\n          sum_axes.add(dims[key])")],
 '''
import numpy as np, probayes as pb
p = np.arange(1., 49.).reshape(2, 3, 4, 2)
d = pb.PD('x,y,z|w', {'x': np.arange(2), 'y': np.arange(3), 'z': np.arange(4), 'w': np.arange(2)}, dims={'x': 0, 'y': 1, 'z': 2, 'w': 3}, prob=p)
c = d.conditionalise(['x', 'y'])
assert np.allclose(np.sum(c.prob, axis=c.dims['z']), 1.)
''')
seed('div-zero-mass', 'C02', 'a conditioning value without any probability mass on the log scale',
 'conditioning on an impossible value gives large or undefined entries rather than zeros',
 [('probayes/pscales.py', "quotient = dividend / np.maximum(NEARLY_POSITIVE_ZERO, divisor)", "quotient = dividend / np.where(divisor == 0., dividend.size if hasattr(dividend, 'size') else 1, divisor) + np.where(divisor == 0., 1e-6, 0.)")],
 '''
import numpy as np, probayes as pb
p = np.array([[.5, 0.], [.5, 0.]])
d = pb.PD('x,y', {'x': np.arange(2), 'y': np.arange(2)}, dims={'x': 0, 'y': 1}, prob=p)
c = d.conditionalise('y')
q = np.moveaxis(c.prob, [c.dims['x'], c.dims['y']], [0, 1])
assert np.allclose(q, [[.5, 0.], [.5, 0.]], atol=1e-9)
''')
seed('product-order', 'C03', 'three factors, one with axes in an order different from the product, a moved axis of equal length',
 'probabilities of a factor whose axes need swapping are multiplied against the wrong variables',
 [('probayes/pd_utils.py', "if len(old_dims) > 1 and not old_dims == new_dims:", "if len(old_dims) > 1 and sorted(old_dims) == old_dims and not old_dims == new_dims:")],
 '''
import numpy as np, probayes as pb
a = np.array([[.1, .9], [.7, .3]])
d = pb.PD('y|x', {'y': np.arange(2), 'x': np.arange(2)}, dims={'y': 1, 'x': 0}, prob=a)
m = pb.PD('x', {'x': np.arange(2)}, dims={'x': 0}, prob=np.array([.25, .75]))
j = d * m
q = np.moveaxis(j.prob, [j.dims['x'], j.dims['y']], [0, 1])
assert np.allclose(q, a * np.array([[.25], [.75]])), q
''')
seed('div-scale', 'C04', 'dividend and divisor on different probability scales',
 'the divisor is read on the scale of the dividend',
 [('probayes/pd.py', "prob = div_prob(self._prob, divp, self._pscale, other.pscale)", "prob = div_prob(self._prob, divp, self._pscale, self._pscale)")],
 '''
import numpy as np, probayes as pb
p = np.array([[.1, .2], [.3, .4]])
v = np.arange(2)
d = pb.PD('x,y', {'x': v, 'y': v}, dims={'x': 0, 'y': 1}, prob=p)
c = d / d.marginal('y').rescaled(0.)
assert np.allclose(c.prob, p / p.sum(0, keepdims=True)), c.prob
''')
seed('sort-shared', 'C06', 'sorting along a variable that shares its axis with another variable',
 'the variable sharing the sorted axis keeps its old order, so its values are detached from their probabilities',
 [('probayes/pd.py', "        vals.update({_key: np.ravel(_val)[keyidx]})", "        vals.update({_key: np.sort(np.ravel(_val))})")],
 '''
import numpy as np, probayes as pb
d = pb.PD('x,y', {'x': np.array([3, 1, 2]), 'y': np.array([5, 9, 7])}, dims={'x': 0, 'y': 0}, prob=np.array([.1, .2, .7]))
s = d.sorted('x')
assert list(np.ravel(s['y'])) == [9, 7, 5], s['y']
''')
seed('collapse-count', 'C09', 'an IID product along an axis that is not the first one',
 'the number of observations recorded for a collapsed variable is wrong unless its axis is the first',
 [('probayes/pd.py', "vals.update({key: {self[key].size}})\n      else:\n        if not self._aresingleton[i]:", "vals.update({key: {len(self[key])}})\n      else:\n        if not self._aresingleton[i]:")],
 '''
import numpy as np, probayes as pb
d = pb.PD('x,y', {'x': np.arange(2), 'y': np.arange(3)}, dims={'x': 0, 'y': 1}, prob=np.arange(1., 7.).reshape(2, 3))
c = d.prod('y')
assert c['y'] == {3}, c['y']
''')
seed('rescale-inplace', 'C12', 'rescaling between two log scales with different offsets in the same call as an array operand',
 'an operand of a division or rescale on an offset log scale is changed in place',
 [('probayes/pscales.py', "if np.abs(d_offs) >= NEARLY_POSITIVE_ZERO: prob = prob + d_offs", "if np.abs(d_offs) >= NEARLY_POSITIVE_ZERO: prob += d_offs"),],
 '''
import numpy as np, probayes as pb
d = pb.PD('x,y', {'x': np.arange(2), 'y': np.arange(2)}, dims={'x': 0, 'y': 1}, prob=np.log(np.array([[.1, .2], [.3, .4]])) - 2, pscale=complex(2., 0.))
before = np.copy(d.prob)
e = pb.PD('y', {'y': np.arange(2)}, dims={'y': 0}, prob=np.array([.3, .7]))
m = d / e
assert np.allclose(d.prob, before), d.prob
''')
