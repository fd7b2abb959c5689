seed('lookup-size', 'C05', 'looking up variables on separate axes that happen to have the same number of values',
 'values looked up together are reported as one shared axis',
 [('probayes/distribution.py', "              if self.dims[key] == self.dims[cand_key]:", "              if np.size(self[key]) == np.size(self[cand_key]):")],
 '''
import numpy as np, probayes as pb
d = pb.PD('x,y', {'x': np.array([[1], [2]]), 'y': np.array([[3, 4]])}, dims={'x': 0, 'y': 1}, prob=np.full((2, 2), .25))
v = d.lookup(['x', 'y'])
assert set(v) == {'x', 'y'}, v
''')
seed('mixed-offset', 'C07', 'a product of distributions on a logarithmic and on a multiplied linear scale',
 'the product is labelled with a scale that ignores the coefficient',
 [('probayes/pscales.py', "      rtype += logp_offs(pscale)", "      rtype += logp_offs(pscale) if iscomplex(pscale) else 0.")],
 '''
import numpy as np, probayes as pb
x = pb.PD('x', {'x': np.array([1., 2.])}, dims={'x': 0}, prob=np.array([1., 3.]) / 16., pscale=4.)
y = pb.PD('y', {'y': np.array([1., 2.])}, dims={'y': 0}, prob=np.log([.5, .5]), pscale='log')
p = (x * y).rescaled(1.)
assert np.allclose(p.prob.sum(), 1.), p.prob
''')
seed('bin-below', 'C10', 'values below the lowest edge of the grid',
 'probability below the grid ends up in its highest bin',
 [('probayes/pd.py', "        indices[dim] = np.maximum(0, np.minimum(len(edges)-1, \\\n                                     np.digitize(rav_vals, edges)-1))",
   "        indices[dim] = np.minimum(len(edges)-1, np.digitize(rav_vals, edges)-1)")],
 '''
import numpy as np, probayes as pb
d = pb.PD('x', {'x': np.array([1., 2., 3.])}, dims={'x': 0}, prob=np.array([.5, .25, .25]))
g = pb.Distribution('y', {'y': np.array([2., 3.])})
r = d.remarginalise(g, {'y': np.array([1., 2., 3.])})
assert np.allclose(r.prob, [.75, .25]), r.prob
''')
seed('write-order', 'C11', 'a stored distribution whose variables are not in alphabetical order, some without axes',
 'the axes of a distribution read from a file follow the alphabetical order of its variables',
 [('probayes/pd_utils.py', "            group_write[key].attrs.update({'order': list(attrs.keys())})", "            group_write[key].attrs.update({'order': sorted(attrs.keys())})")],
 '''
import os, tempfile
import numpy as np, probayes as pb
from probayes.pd_utils import write_dist, read_dist
d = pb.PD('y,x', {'y': np.array([[3], [4]]), 'x': np.array([[1, 2, 3]])}, dims={'y': 0, 'x': 1}, prob=np.full((2, 3), 1 / 6.))
t = tempfile.mkdtemp()
try:
  write_dist(os.path.join(t, 'd.h5'), d)
  r, = read_dist(os.path.join(t, 'd.h5'))
  assert list(r.keys()) == ['y', 'x'] and r.prob.shape == (2, 3), (r, r.prob.shape)
finally:
  for f in os.listdir(t): os.remove(os.path.join(t, f))
  os.rmdir(t)
''')
