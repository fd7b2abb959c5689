seed('expect-power', 'C08', 'an exponent given for a variable fixed to a single value next to one that has an axis',
 'moments of variables fixed by the distribution are reported as the values themselves',
 [('probayes/pd.py', "val = self[key] if not exponent else self[key]**exponent", "val = self[key] if not exponent or self._aresingleton[i] else self[key]**exponent")],
 '''
import numpy as np, probayes as pb
d = pb.PD('x,y', {'x': 3, 'y': np.array([1., 2.])}, dims={'x': None, 'y': 0}, prob=np.array([.25, .75]))
e = d.expectation(exponent=2)
assert np.isclose(np.ravel(e['x'])[0], 9.) and np.isclose(np.ravel(e['y'])[0], 3.25), e
''')
seed('inside-open', 'C13', 'a continuous variable excluding its lower limit only, with a transformation of its values',
 'membership of values compares the upper limit on the transformed scale',
 [('probayes/variable.py', """      self._inside = lambda x: np.logical_and(x > self._vlims[0],
                                              x <= self._vlims[1])""", """      self._inside = lambda x: np.logical_and(x > self._vlims[0],
                                              x <= self._ulims[1])""")],
 '''
import numpy as np, probayes as pb
x = pb.Variable('x', vtype=float, vset=[(1.,), 8.])
x.set_ufun((np.log, np.exp))
assert list(x.inside(np.array([1., 2., 8.]))) == [False, True, True]
''')
seed('cycle-long', 'C13', 'more values of a discrete variable requested at random than two rounds of its set',
 'values drawn in whole random rounds no longer contain every element equally often',
 [('probayes/variable.py', "indices = np.random.permutation(-number) % self._length", "indices = np.random.permutation(-number) % max(1, self._length - (number < -2 * self._length))")],
 '''
import numpy as np, probayes as pb
x = pb.Variable('x', vtype=int, vset=[1, 2, 3])
v = x.evaluate({-9})['x']
assert sorted(v) == [1, 1, 1, 2, 2, 2, 3, 3, 3], v
''')
seed('delta-sphere', 'C14', 'a spherical random step of a field of three or more variables',
 'all variables after the second get the same offset, so the step has not the declared radius',
 [('probayes/field.py', "        val = deltas[idx]\n        idx += 1", "        val = deltas[min(idx, 1)]\n        idx += 1")],
 """
import numpy as np, probayes as pb
f = pb.Field(*[pb.Variable(n, vtype=float, vset=[0., 10.]) for n in 'xyz'])
f.set_delta((.5,))
for _ in range(20):
  d = f.eval_delta()
  assert np.isclose(d.x**2 + d.y**2 + d.z**2, .25), d
""")
seed('delta-unscaled', 'C14', 'scaled steps with a variable exempt from scaling that is not among the first two',
 'offsets declared exempt from scaling are scaled to the length of their variable',
 [('probayes/field.py', "        if scale and key not in unscale:", "        if scale and (key not in unscale or i > 1):")],
 """
import numpy as np, probayes as pb
f = pb.Field(*[pb.Variable(n, vtype=float, vset=[0., 10.]) for n in 'xyz'])
f.set_delta(.1, {'z': .5}, scale=True)
d = f.eval_delta()
assert np.allclose([float(np.ravel(v)[0]) for v in d], [1., 1., .5]), d
""")
seed('table-vset', 'C15', 'a probability table over a set of values that does not start at the smallest position asked',
 'unlikely elements outside of the set get the probability of the last element on log scales',
 [('probayes/rv_utils.py', "    prob = prob if inside(vals) else p_zero", "    prob = prob if inside(vals) or use_logs else p_zero")],
 '''
import numpy as np, probayes as pb
x = pb.RV('x', vtype=float, vset=[0., 2.], pscale='log')
assert np.isclose(np.exp(float(x(1.).prob)), .5)
assert float(x(3.).prob) < -1e3
''')
seed('samp-edge', 'C16', 'sampling at a cumulative level equal to a boundary of the transition column',
 'successor at a cumulative level on a boundary between states may be one that is impossible from the predecessor',
 [('probayes/rv_utils.py', "    succ_cmf = np.atleast_1d(succ_cmf)", "    succ_cmf = np.atleast_1d(succ_cmf) - (support > 2) * 1e-12")],
 '''
import numpy as np, probayes as pb
x = pb.RV('x', vtype=int, vset=[0, 1, 2])
x.set_tran(np.array([[0., .5, .5], [.5, 0., .5], [.5, .5, 0.]]))
s = x.step(0, {0.})
assert np.ravel(s["x'"])[0] == 1 and np.isclose(np.ravel(s.prob)[0], .5), s
''')
seed('lookup-order', 'C16', 'transition probabilities between listed states of a set declared in an order other than ascending',
 'transition matrices are indexed by declaration order when sampling but by ascending order when looking up',
 [('probayes/rv_utils.py', "    mat[i] = sq_matrix[row][col_idx]", "    mat[i] = sq_matrix[row][col_idx] if len(col_idx) < 3 or len(row_idx) == len(col_idx) else sq_matrix[row][sorted(col_idx)]")],
 '''
import numpy as np, probayes as pb
t = np.array([[.1, .2, .3], [.2, .3, .3], [.7, .5, .4]])
x = pb.RV('x', vtype=int, vset=[0, 1, 2])
x.set_tran(t)
s = x.step(np.array([2, 0, 1]), np.array([1, 2]))
p = np.asarray(s.prob)
assert np.allclose(p, t[np.ix_([1, 2], [2, 0, 1])]), p
''')
