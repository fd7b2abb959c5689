"""What each check runs: property -> tier -> list of jobs."""
from core import Job, SEED
from distrep import DistReplay
from quantrep import QuantReplay
from varrep import VarReplay
from fldrep import FldReplay
from rvrep import RvReplay
from chainrep import ChainReplay
from cntrep import CountReplay
from gibbsrep import GibbsReplay
from deprep import DepReplay
from modelrep import ModelReplay
from bindrep import BindReplay
from iconrep import IconReplay
from condrep import CondReplay
from scalerep import ScaleReplay
from drawrep import DrawReplay

ALLSC = set(range(1, 39))
DINV = ['TypeOK']
DPROP = ['Immutable', 'MassConserved', 'Normalised', 'MeaningKept', 'Bayes', 'Commutes', 'SliceSub', 'PoolMass']
PRE = {'marg', 'marginal', 'cond', 'prod', 'div', 'slice', 'slicek', 'rekey', 'redim', 'sort', 'rescale', 'collapse', 'store'}


def dist(focus, depth=1, pre=(), scens=ALLSC, salts=None, scales=(0,), laws=True, **kw):
    salts = {SEED * 2, SEED * 2 + 1} if salts is None else salts
    return Job('Dist', dict(Scens=set(scens), Salts=set(salts), Scales=set(scales), Depth=depth, Pre=set(pre),
                            Focus=set(focus)),
               DistReplay(set(focus) | ({'refuse'} if 'store' in focus else set()), **kw), DINV, DPROP if laws else [], name='Dist-%d' % depth)


def all_focus():
    return PRE | {'prod3', 'add', 'rebin', 'expect', 'lookup', 'refuse'}


CHECKS = {}


def op_check(focus, quick=None, thorough=None, **kw):
    q = dict(depth=2, pre=PRE, salts={SEED})
    q.update(quick or {})
    def thor():
        jobs = [dist(focus, depth=2, pre=PRE, salts={SEED + 1, SEED + 2}, scales=(0, 3, 5), **kw)]
        return jobs + [dist(focus, **dict(t, **kw)) for t in (thorough or [])]
    return {'quick': lambda: [dist(focus, **dict(q, **kw))], 'thorough': thor}


CHECKS['C01'] = op_check({'marg', 'marginal'})
CHECKS['C02'] = op_check({'cond'})
CHECKS['C03'] = op_check({'prod', 'prod3'})
CHECKS['C04'] = op_check({'div'})
CHECKS['C05'] = op_check({'slice', 'slicek', 'lookup'}, dict(pre=PRE - {'store', 'rescale', 'collapse'}, scens=ALLSC | {39}))
CHECKS['C06'] = op_check({'rekey', 'redim', 'sort'}, loads=True)
CHECKS['C07'] = {'quick': lambda: [dist(all_focus() - {'refuse', 'lookup'}, 1, scales=(1, 2, 3, 4, 5, 6, 7, 8), salts={SEED, SEED + 1})],
                 'thorough': lambda: [dist(all_focus() - {'refuse', 'lookup'}, 2, pre=PRE, salts={SEED}, scales=(1, 5, 7))]}
def quant(maxlen, maxw, den, scales):
    return Job('Quant', dict(MaxLen=maxlen, MaxW=maxw, Den=den, Scales=set(scales)), QuantReplay(den), ['Sane'], ['Monotone'])
CHECKS['C08'] = {'quick': lambda: [dist({'expect'}, 2, pre=PRE, salts={SEED}, scales=(0, 3)), quant(4, 3, 16, (0, 1, 4))],
                 'thorough': lambda: [dist({'expect'}, 2, pre=PRE, salts={SEED, SEED + 1}, scales=(0, 3, 5)), quant(5, 4, 32, (0, 1, 2, 3, 4, 5))]}
CHECKS['C10'] = op_check({'rebin'})
POOLSC = set(range(29, 37))
def c09(tier):
    big = tier == 'thorough'
    return [dist({'collapse'}, 2, pre=PRE, salts={SEED, SEED + 1} if big else {SEED}, scales=(0, 1, 2, 3)),
            dist({'add'}, 3 if big else 2, pre={'slice', 'slicek', 'sort', 'rescale'}, scens=POOLSC | {2, 5, 7, 16, 19, 33},
                 salts=set(range(SEED, SEED + (6 if big else 3))), scales=(0, 1))]
CHECKS['C09'] = {'quick': lambda: c09('quick'), 'thorough': lambda: c09('thorough')}
CHECKS['C11'] = op_check({'store'})
CHECKS['C12'] = op_check(all_focus(), dict(depth=1, salts={SEED * 2, SEED * 2 + 1}, scales=(0, 1, 5)), immut=True)
CHECKS['C25'] = op_check({'refuse'}, dict(pre=PRE - {'store', 'rescale'}))



def var(asks, redefs, ops, types=('bool', 'int', 'float')):
    return Job('Var', dict(Types=set(types), Asks=set(asks), Redefs=redefs), VarReplay(ops),
               ['EvalInside', 'BoundInside', 'StepExact'], name='Var-%d-%s' % (redefs, '-'.join(sorted(asks))))
EVALS = {'define', 'inside', 'eval', 'draw', 'all', 'refuse', 'given'}
CHECKS['C13'] = {'quick': lambda: [var({'inside', 'eval'}, 1, EVALS), var({'inside', 'eval'}, 2, EVALS, ('float',))],
                 'thorough': lambda: [var({'inside', 'eval'}, 2, EVALS), var({'inside', 'eval'}, 3, EVALS, ('float',))]}
FIELDS = [['x'], ['n'], ['b'], ['y'], ['x', 'y'], ['y', 'x', 'z'], ['n', 'x'], ['b', 'm'], ['x', 'b', 'n'], ['m', 'z']]
def fldstep(fields, redefs):
    return Job('FldStep', dict(Fields={tuple(f) for f in fields}, Repeats=1, Redefs=redefs), FldReplay(), ['Stay'], name='FldStep-%d' % redefs)
CHECKS['C14'] = {'quick': lambda: [var({'fix', 'rand'}, 1, {'step'}), var({'default'}, 2, {'default', 'step'}), fldstep(FIELDS, 1)],
                 'thorough': lambda: [var({'fix', 'rand'}, 2, {'step'}), var({'default'}, 3, {'default'}), fldstep(FIELDS, 2)]}


def rvar(asks, doms, unit, scales, redefs, ops):
    return Job('RVar', dict(Doms=set(doms), Asks=set(asks), Unit=unit, Scales=set(scales), Redefs=redefs), RvReplay(ops),
               ['Total', 'Density', 'DensityMean', 'Stochastic'], name='RVar-%d-%d' % (redefs, unit))
ALLDOM = range(1, 16)
CHECKS['C15'] = {'quick': lambda: [rvar({'prob'}, ALLDOM, 2, (0, 1, 2, 3), 1, {'prob'}), rvar({'prob'}, ALLDOM, 2, (0, 1), 2, {'prob'})],
                 'thorough': lambda: [rvar({'prob'}, ALLDOM, 2, (0, 1, 2, 3), 2, {'prob'}), rvar({'prob'}, ALLDOM, 2, (0, 1), 3, {'prob'})]}
TRANS = {'tran', 'level', 'place'}
CHECKS['C16'] = {'quick': lambda: [rvar({'tran'}, (1, 2, 3, 5, 8, 10, 11, 12, 13), 2, (0, 1), 1, TRANS), rvar({'tran'}, (2, 3, 8, 10, 12, 13), 2, (0, 1), 2, TRANS)],
                 'thorough': lambda: [rvar({'tran'}, (1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 12, 13, 14, 15), 2, (0, 1, 2, 3), 1, TRANS),
                                      rvar({'tran'}, (1, 2, 3, 8, 10), 8, (0, 1), 1, TRANS), rvar({'tran'}, (5,), 3, (0,), 1, TRANS),
                                      rvar({'tran'}, (2, 3, 8, 10, 12, 13), 2, (0, 1), 3, TRANS)]}


def chain(cfgs, ops, judged, samplers=1, stops=(0,), depth=5, draws=4, wide=0):
    return Job('Chain', dict(Cfgs=set(cfgs), MaxSamplers=samplers, Stops=set(stops), Ops=set(ops), Depth=depth, MaxDraws=draws, Wide=wide),
               ChainReplay(judged), ['CountOK', 'Supported', 'Balance', 'Reported'], ['Independent'], name='Chain-%d-%d' % (samplers, depth))
ALLCFG = range(1, 28)
LIFE = {'draw', 'stop', 'walk', 'reset', 'forget', 'create'}
CHECKS['C19'] = {'quick': lambda: [chain({1}, {'draw', 'walk', 'reset', 'forget'}, LIFE, 2, (0, 1, 2), 5, 6)],
                 'thorough': lambda: [chain({1, 15}, {'draw', 'walk', 'reset', 'forget'}, LIFE, 2, (0, 2), 6, 8), chain({20}, {'draw', 'walk', 'reset'}, LIFE, 3, (0, 1, 2), 6, 6)]}
CHECKS['C20'] = {'quick': lambda: [chain(ALLCFG, {'draw'}, {'draw'}, wide=1), chain(ALLCFG, {'draw'}, {'draw'}, 2, depth=6)],
                 'thorough': lambda: [chain(ALLCFG, {'draw'}, {'draw'}, depth=6, draws=5, wide=1), chain(ALLCFG, {'draw'}, {'draw'}, 2, depth=7, draws=5)]}
CHECKS['C21'] = {'quick': lambda: [chain(ALLCFG, {'draw', 'summary'}, {'summary'}, 2, depth=5)],
                 'thorough': lambda: [chain(ALLCFG, {'draw', 'summary'}, {'summary'}, 2, depth=6)]}

def counts(widths, cells, bases, bits, longs):
    return Job('Counts', dict(Widths=set(widths), MaxCells=cells, Bases=set(bases), MaxBits=bits, Longs=set(longs)), CountReplay(),
               ['Counted', 'Whole', 'RoundTrip'], name='Counts-%d' % cells)
CHECKS['C24'] = {'quick': lambda: [counts((1, 2), 8, (0, 1), 6, (31, 32, 33, 53, 62, 63, 64, 65)), counts((3,), 6, (0, 2), 1, (8,))],
                 'thorough': lambda: [counts((1, 2), 10, (0, 1, 3), 9, (31, 32, 33, 53, 54, 62, 63, 64, 65, 100)), counts((3,), 9, (0, 2), 1, (8,))]}

def gibbs(ns, hosts, tsteps, depth, redeclares):
    return Job('Gibbs', dict(Ns=set(ns), Hosts=set(hosts), Tsteps=set(tsteps), Depth=depth, Redeclares=redeclares), GibbsReplay(),
               ['Fair'], ['Others'], name='Gibbs-%d' % depth)
CHECKS['C22'] = {'quick': lambda: [gibbs((2, 3, 4), ('own', 'paras'), (0, 1, 2, 3), 8, 0), gibbs((2, 3, 4), ('field',), (0, 1, 2, 3), 3, 0),
                                   gibbs((3,), ('field',), (1, 2), 3, 1)],
                 'thorough': lambda: [gibbs((2, 3, 4), ('own', 'paras'), (0, 1, 2, 3, 4, 5), 20, 0), gibbs((2, 3, 4), ('field',), (0, 1, 2, 3, 4), 5, 0),
                                      gibbs((2, 3, 4), ('field',), (0, 1, 2), 4, 2)]}


def deps(host, nv, depth, ops, three=()):
    return Job('Deps', dict(NV=nv, Depth=depth, Ops=set(ops), Three=set(three)), DepReplay(host, nv),
               ['Placed'], ['Kept', 'Order'], name='Deps-%s-%d' % (host, depth))
BUILD = {'fld', 'and', 'or', 'sd'}
CHECKS['C18'] = {'quick': lambda: [deps('rv', 4, 3, BUILD), deps('rv', 3, 3, {'or', 'sd', 'dep'}, (3,)), deps('sp', 4, 3, {'or', 'sd'}, (3,)), deps('var', 4, 3, BUILD | {'add'}, (3,))],
                 'thorough': lambda: [deps('rv', 4, 4, {'or', 'sd', 'and'}, (3,)), deps('rv', 4, 4, {'or', 'sd', 'dep'}), deps('var', 4, 4, BUILD, (3,))]}

def model(cfgs, kinds, depth, wide, thin=1, salts=(0,), logs=((), ('a',)), asks=('ask',), host='sd', immut=False):
    return Job('Model', dict(Cfgs=set(cfgs), Logs={frozenset(x) for x in logs}, Kinds=set(kinds), Salts=set(salts), Depth=depth, Wide=wide, Asks=set(asks), Thin=thin),
               ModelReplay(asks, host, immut), ['Normalised', 'Bayes', 'Entries'], name='Model-%s-%d-%d' % (host, depth, wide))
ALLM = range(1, 19)
KINDS = ('fun', 'extra', 'dims', 'log', 'coef', 'arr', 'const')
CHECKS['C17'] = {'quick': lambda: [model(ALLM, ('fun',), 0, 1), model(ALLM, KINDS, 1, 2, 29), model((2, 5, 7, 8, 10, 15, 17, 18), ('fun', 'arr'), 2, 0, 11),
                                   model((5, 6, 7, 15), ('fun', 'log'), 1, 0, 7, host='sp')],
                 'thorough': lambda: [model(ALLM, ('fun',), 0, 1), model(ALLM, KINDS, 1, 2, 7), model(ALLM, KINDS, 2, 0, 43),
                                      model((2, 5, 7, 8, 10, 15, 17, 18), ('fun', 'arr'), 3, 0, 89), model((5, 6, 7, 8, 15, 16), ('fun', 'log', 'const'), 1, 2, 17, host='sp')]}


def bind(hosts, depth, first, wide, thin, ops=('ask',)):
    return Job('Bind', dict(Hosts=set(hosts), Depth=depth, First=first, Wide=wide, Thin=thin), BindReplay(ops), ['Received', 'Plainly'], name='Bind-%s-%d' % ('-'.join(sorted(hosts)), depth))
CHECKS['C23'] = {'quick': lambda: [bind(('expression',), 1, 1, 5, 1), bind(('expression', 'func'), 2, 97, 9973, 97),
                                   icons(('expr',), (), 1), icons(('functional',), ('icon', 'fun'), 2)],
                 'thorough': lambda: [bind(('expression',), 1, 1, 1, 1), bind(('expression', 'func'), 2, 31, 9973, 31),
                                      icons(('expr',), (), 2), icons(('functional',), ('icon', 'fun'), 3)]}

def icons(modes, kinds, depth, ops=('ask',)):
    return Job('Icons', dict(Modes=set(modes), Kinds=set(kinds), Depth=depth), IconReplay(ops), ['Undone', 'Once', 'Depends'], name='Icons-%s-%d' % ('-'.join(sorted(modes)), depth))

def cond(ns, hosts, diags, offs, salts, numbers, redefs=0, asks=('ask',)):
    return Job('CondNorm', dict(Ns=set(ns), Hosts=set(hosts), Diags=set(diags), Offs=set(offs), Salts=set(salts), Numbers=set(numbers), Redefs=redefs), CondReplay(asks),
               ['Precise', 'Narrower', 'Positive'], name='CondNorm-%s-%d' % ('-'.join(sorted(hosts)), len(ns)))
CHECKS['C26'] = {'quick': lambda: [cond((1, 2), ('own',), (1, 2, 3), (-1, 0, 1), (0, 1, 2), (1, 2, 4, 0, -120)), cond((3,), ('own',), (1, 3), (-1, 0, 1), (0, 1), (3, -120)),
                                   cond((2, 3), ('rf', 'sp'), (2, 3), (-1, 1), (SEED % 3,), (-1,)), cond((2,), ('rf',), (2, 3), (-1, 1), (0, 1, 2), (-1,), 1)],
                 'thorough': lambda: [cond((1, 2), ('own',), (1, 2, 3, 5), (-2, -1, 0, 1, 2), (0, 1, 2), (1, 2, 4, 0, -120)), cond((3,), ('own',), (1, 2, 3), (-1, 0, 1), (0, 1, 2), (1, 3, 0, -120)),
                                      cond((2, 3), ('rf', 'sp'), (2, 3), (-1, 0, 1), (0, 1, 2), (0, -1)), cond((2, 3), ('rf',), (2, 3), (-1, 1), (0, 1, 2), (-1,), 1)]}

def more(prop, quick, thorough):
    q, t = CHECKS[prop]['quick'], CHECKS[prop]['thorough']
    CHECKS[prop] = {'quick': lambda: q() + quick(), 'thorough': lambda: t() + thorough()}
more('C25', lambda: [dist({'refuse'}, depth=1, salts={SEED}, scales=(2, 3, 4))], lambda: [dist({'refuse'}, depth=2, pre={'marg', 'cond', 'slice', 'prod'}, salts={SEED}, scales=(2, 3, 4, 5))])
more('C25', lambda: [model((2, 5, 7, 8, 15), ('fun', 'arr'), 1, 0, 1, asks=('refuse',))], lambda: [model(ALLM, ('fun', 'arr'), 2, 0, 1, asks=('refuse',))])
more('C25', lambda: [icons(('functional',), ('icon', 'fun'), 2, ('refuse',)), bind(('expression', 'func'), 2, 997, 9973, 997, ('refuse',))], lambda: [icons(('functional',), ('icon', 'fun'), 2, ('refuse',)), bind(('expression', 'func'), 2, 97, 9973, 97, ('refuse',))])
more('C17', lambda: [cond((2, 3), ('rf', 'sp'), (2, 3), (-1, 0, 1), (0,), (), asks=('density',)), cond((2,), ('rf',), (2, 3), (-1, 1), (0, 1, 2), (), 1, ('density',))],
     lambda: [cond((2, 3), ('rf', 'sp'), (1, 2, 3), (-1, 0, 1), (0, 1), (), asks=('density',)), cond((2, 3), ('rf',), (2, 3), (-1, 1), (0, 1, 2), (), 1, ('density',))])
more('C12', lambda: [model((2, 6, 7, 8, 15), ('fun', 'extra', 'dims', 'arr'), 1, 0, 7, immut=True)],
     lambda: [model(ALLM, ('fun', 'extra', 'dims', 'arr'), 1, 2, 31, immut=True)])

def scales(vecs, ons, depth, thin):
    return Job('Scales', dict(Vecs=set(vecs), Ons=set(ons), Depth=depth, Thin=thin), ScaleReplay(), ['Denotes', 'There'], name='Scales-%d' % depth)
more('C07', lambda: [scales((1, 2, 3, 4, 5), range(1, 10), 1, 17), scales((1, 3, 4), (1, 3, 5, 7), 2, 37)],
     lambda: [scales((1, 2, 3, 4, 5), range(1, 10), 1, 3), scales((1, 3, 4, 5), (1, 3, 4, 5, 6, 7), 2, 29), scales((1, 3), (2, 7), 3, 61)])

FAMS = ('uniform', 'power', 'mobius', 'pareto', 'cauchy')
def draws(hosts, fams, ways, doms, numbers, redefs=0, trans=(), biases=()):
    return Job('Draws', dict(Hosts=set(hosts), Fams=set(fams), Ways=set(ways), Doms=set(doms), Numbers=set(numbers), Redefs=redefs, Trans=set(trans), Biases=set(biases)),
               DrawReplay(), ['Ascending', 'Within', 'Cumulative'], name='Draws-%s-%d' % ('-'.join(sorted(hosts)), redefs))
CHECKS['C27'] = {'quick': lambda: [draws(('rv',), FAMS, ('scipy', 'keywords', 'tuple', 'args'), range(1, 10), (1, 2, 3, 5, 0, -1)),
                                   draws(('rv',), FAMS, ('sympy',), (2, 3, 5), (2, 3, 0, -1)),
                                   draws(('rf', 'sd', 'sp'), ('power', 'mobius'), ('scipy', 'tuple'), (1, 2, 4), (1, 2, 3, 0, -1)),
                                   draws(('rv', 'rf'), ('power', 'mobius', 'pareto'), ('scipy', 'tuple'), (2, 3), (3, 0, -1), 1),
                                   draws(('rv',), ('power',), ('tuple',), (1, 2, 3), (1, 3, 0, -1), 1, ('power', 'mobius', 'pareto')),
                                   draws(('rv', 'rf', 'sp'), (), (), (), (0, -1), 0, (), (0, 1, 3, 4, 6, 8)), draws(('rv',), (), (), (), (0, -1), 1, (), (1, 4, 6))],
                 'thorough': lambda: [draws(('rv',), FAMS, ('scipy', 'keywords', 'tuple', 'args'), range(1, 10), (1, 2, 3, 4, 5, 8, 0, -1)),
                                      draws(('rv', 'rf', 'sd'), FAMS, ('sympy',), (2, 3, 4, 5, 9), (1, 2, 3, 0, -1)),
                                      draws(('rf', 'sd', 'sp'), FAMS, ('scipy', 'keywords', 'tuple', 'args'), range(1, 10), (1, 2, 3, 0, -1)),
                                      draws(('rv', 'rf'), ('power', 'mobius', 'pareto'), ('scipy', 'tuple'), (1, 2, 3, 4, 9), (3, 0, -1), 2),
                                      draws(('rv', 'rf', 'sp'), (), (), (), (0, -1), 3, (), (0, 1, 3, 4, 6, 8)),
                                      draws(('rv',), ('power',), ('scipy', 'tuple'), (1, 2, 3, 4, 6, 9), (1, 3, 0, -1), 2, ('power', 'mobius', 'pareto'))]}


def assumptions(prop):
    return []
