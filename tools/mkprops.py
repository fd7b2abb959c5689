"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Marginalising a distribution is exactly the sum rule",
  "Summing variables out of a probability distribution yields, for every combination of the remaining variables' values, the total of the matching entries of the original, with the remaining variables keeping their role (marginal or conditioning), values and name, so that total mass per condition is preserved. Asking for the marginal of a set of variables gives the same result as summing out all the others. This holds for any number and layout of axes, any scalar or axis-sharing variables, any probability scale and any earlier operations that produced the distribution.",
  ["inputs", "histories"], "every distribution (layout, roles, scalar and shared axes, zero entries, scale) however it was derived, and every legal subset of variables",
  "tests marginalise a handful of fixed 1-3 variable joints in the default axis order only; they never reach permuted axes, shared axes, or results of other operations",
  ["probayes/pd.py", "probayes/distribution.py", "probayes/pscales.py"],
  [("PD.marginalise", "probayes/pd.py"), ("PD.marginal", "probayes/pd.py")], ["PD.prob", "PD.dims", "PD.marg", "PD.cond"])
prop("C02", "Conditioning gives normalised conditionals consistent with the joint",
  "Moving variables of a distribution behind the conditioning bar yields, for every combination of conditioning values that has positive mass, a set of probabilities over the remaining variables that sums to one and is proportional to the original entries; variables that already were conditioning stay so and the value each probability belongs to does not change. Where the conditioning combination has no mass, all its entries are zero rather than undefined. Conditioning on a variable fixed to a single value renormalises the remaining entries.",
  ["inputs", "histories"], "every distribution with two or more variables, every proper non-empty subset of its marginal variables, in any order and axis layout, on linear and log scales",
  "tests condition two-variable joints on one variable; middle axes, several variables, already-conditional distributions and hash-order dependent sets are never tried",
  ["probayes/pd.py", "probayes/pscales.py"],
  [("PD.conditionalise", "probayes/pd.py"), ("div_prob", "probayes/pscales.py")], ["PD.prob", "PD.dims", "PD.marg", "PD.cond"])
prop("C03", "Products align probabilities by variable, not by axis position",
  "Multiplying distributions gives a distribution whose entry for every joint assignment is the product of the factors' entries for that assignment, whatever the order of the factors and of the axes inside each factor. A variable that conditions one factor and is described by another becomes an ordinary variable of the product, while conditions shared by the factors remain conditions. Scalar-valued, unspecified-set and axis-sharing variables keep their values in the product.",
  ["inputs", "histories", "programs"], "every compatible list of two or three distributions, in every order and axis layout, on every mix of scales",
  "tests multiply a few chains of small distributions in one order with matching layouts",
  ["probayes/pd_utils.py", "probayes/pscales.py", "probayes/pd.py"],
  [("product", "probayes/pd_utils.py"), ("prod_rule", "probayes/pscales.py")], ["PD.prob", "PD.dims", "PD.name"])
prop("C04", "Dividing by a marginal recovers the conditional (Bayes' rule)",
  "Dividing a distribution by the distribution of some of its marginal variables under the same conditions turns those variables into conditions and divides every entry by the divisor's entry for the same assignment, whatever the divisor's axis order. Hence a joint divided by its own marginal equals the joint conditioned on it, and multiplying the quotient by the divisor restores the joint wherever the divisor is positive.",
  ["inputs", "histories", "programs"], "every dividend and every legal divisor derived from it or built separately with a different axis order, including conditional distributions and scalar divisors",
  "tests divide fixed one- and two-variable joints by a one-variable marginal",
  ["probayes/pd.py", "probayes/pscales.py"],
  [("PD.__truediv__", "probayes/pd.py"), ("div_prob", "probayes/pscales.py")], ["PD.prob", "PD.dims", "PD.name"])
prop("C05", "Slicing by values returns exactly the matching probabilities",
  "Fixing variables of a distribution to given values returns the entries whose values match and no others, in their original order: one match removes the axis and makes the variable a scalar, several matches (or a request to keep axes) keep a shorter axis, no match gives an empty axis. Variables that share the fixed axis are restricted to the same rows, all other variables keep their values, and looking up the marginal or conditioning variables returns their values grouped by shared axis.",
  ["inputs", "histories"], "every distribution, every assignment of present, repeated or absent values to any subset of its variables, with or without keeping axes",
  "no unit test slices anything beyond one unique value of a two-axis distribution",
  ["probayes/pd.py", "probayes/distribution.py"],
  [("PD.__call__", "probayes/pd.py"), ("Distribution.lookup", "probayes/distribution.py")], ["PD.prob", "PD.dims", "PD.name"])
prop("C06", "Renaming, re-ordering and sorting never detach values from probabilities",
  "Renaming variables, moving axes and sorting along a variable change only labels, axis positions or order: the set of (assignment, probability) pairs is unchanged up to the renaming, sorting leaves the chosen variable ascending, and the roles of variables are kept. For every distribution the name, marginal and conditioning roles, dimensions, shape and probability array agree with each other, with each fixed variable shown with its value in the name.",
  ["inputs", "histories"], "every distribution, every injective renaming (swaps included), every axis permutation and every sort variable, also sharing an axis with others",
  "tests never rename, re-dimension or sort distributions of two or more axes",
  ["probayes/pd.py", "probayes/distribution.py", "probayes/pd_utils.py"],
  [("PD.rekey/redim/sorted", "probayes/pd.py"), ("Distribution.dims", "probayes/distribution.py"), ("rekey_dict", "probayes/pd_utils.py")], ["PD.prob", "PD.dims", "PD.name", "PD.shape"])
prop("C07", "Every operation means the same on every probability scale",
  "A probability stored with a coefficient, as a log probability or with a log offset denotes one number, converting between scales preserves that number (zero included, without NaN or infinity), and converting there and back restores the stored values. Applying any distribution operation to rescaled operands, also of mixed scales, denotes the same probabilities as applying it to the linear ones, and the result is labelled with the scale its numbers are on.",
  ["inputs", "histories", "configurations"], "every scale pair, every probability including zero, every operation and mix of scales",
  "tests use only the plain linear and plain log scales, never mixed scales, coefficients, or offsets in operations",
  ["probayes/pscales.py", "probayes/pd.py", "probayes/pd_utils.py"],
  [("rescale/prod_pscale/prod_rule/div_prob", "probayes/pscales.py"), ("PD.rescaled", "probayes/pd.py")], ["PD.prob", "PD.pscale"])
prop("C08", "Expectations and quantiles are those of the distribution",
  "The expectation of a variable is the probability-weighted mean (or mean of the given power) of its values over the chosen variables, one value per condition, independent of the total mass, scale, axis layout or axis-sharing variables. Quantiles of a one-variable distribution with ascending values do not decrease as the requested level increases and lie between the value before and the value at which the cumulative probability crosses the level (the first two values if it crosses at the first), whatever the total mass.",
  ["inputs", "histories"], "every distribution with numeric values, every subset of marginal variables, every exponent and every list of quantile levels",
  "tests compare expectations of single samples from continuous distributions within statistical tolerance",
  ["probayes/pd.py"], [("PD.expectation", "probayes/pd.py"), ("PD.quantile", "probayes/pd.py")], ["returned values"])
prop("C09", "Pooling and IID collapse keep every observation exactly once",
  "Adding distributions of single assignments gives one distribution holding every operand's values and probability exactly once and in order, and adding distributions that differ along one axis concatenates along it; the number of unspecified observations adds up. Collapsing a variable by the IID product multiplies the entries along its axis, leaves the other variables untouched and records how many observations were collapsed.",
  ["inputs", "histories"], "every sequence of compatible distributions and every subset of variables to collapse, on every scale",
  "tests pool only sampler output and check its length",
  ["probayes/pd_utils.py", "probayes/pd.py", "probayes/rf.py"],
  [("summate", "probayes/pd_utils.py"), ("PD.prod", "probayes/pd.py")], ["PD.prob", "PD.dims"])
prop("C10", "Re-binning a distribution conserves probability mass",
  "Redistributing a distribution onto a grid of other variables, given the value each original cell maps to, puts the probability of each cell into the bin whose lower edge is the last one not above that value (the outermost bins taking what falls outside), so the total mass is unchanged. The result is described over the grid's variables and values, keeps the original conditions and is on the original scale.",
  ["inputs"], "every distribution, every one- or two-variable target grid and every mapping of cells to values including out of range ones",
  "one example rebins one fixed covariance grid and only plots it",
  ["probayes/pd.py"], [("PD.remarginalise", "probayes/pd.py")], ["PD.prob", "PD.dims"])
prop("C11", "Saving and loading distributions loses nothing and alters nothing",
  "Distributions written to a file and read back have the same name roles, values (scalars, arrays and unspecified sets), dimensions in their order, probabilities and scale, several of them in one file not affecting each other (two that share a name are refused rather than one lost), also after any sequence of other operations. Serialising in memory round-trips in the same way, auxiliary arrays come back unchanged, and writing leaves the objects written unchanged and usable.",
  ["inputs", "histories"], "every list of distributions with scalar, array and set values, with and without conditions, on every scale, written, read and re-written in any order",
  "one test writes two distributions once",
  ["probayes/pd_utils.py", "probayes/distribution.py", "probayes/pd.py"],
  [("serialise/deserialise/write_serialised/read_serialised", "probayes/pd_utils.py")], ["read_dist()", "PD"])
prop("C12", "Operations never modify the distributions they are given",
  "Every operation on distributions (summing out, conditioning, products, division, slicing, renaming, re-ordering, sorting, rescaling, pooling, collapsing, expectations, quantiles, re-binning, saving) leaves its operands exactly as they were: values, probabilities, dimensions, name and scale. Likewise calling a random variable, field or process does not change the argument dictionaries, arrays or distributions handed to it. Later operations on a result never change the operands it came from.",
  ["histories", "inputs"], "every sequence of operations sharing operands and results",
  "tests never compare operands before and after",
  ["probayes/pd.py", "probayes/pd_utils.py", "probayes/distribution.py", "probayes/rf.py", "probayes/rv.py", "probayes/sd.py"],
  [("PD construction from copies", "probayes/pd.py")], ["operands"])
prop("C13", "Values drawn for a variable always lie in its domain, as specified",
  "A variable reports a value as inside its domain exactly when the value is a member of its set, or lies between its limits with excluded limits excluded. Evaluating a request gives what it denotes: nothing gives the whole set in order for discrete variables, a positive count gives that many evenly spaced (or cyclically repeated) values, zero gives one and a negative count that many random values, explicit values give themselves, and every value produced is inside the domain and of the variable's type, also under a monotonic transformation.",
  ["inputs", "configurations"], "every variable type, every finite set or pair of open/closed/infinite limits given in any order, every request and every monotonic transformation",
  "tests evaluate a few variables with default limits",
  ["probayes/variable.py", "probayes/vtypes.py"],
  [("Variable.evaluate", "probayes/variable.py"), ("Variable._eval_ulims/inside", "probayes/variable.py"), ("uniform", "probayes/vtypes.py")], ["Variable.evaluate", "Variable.inside", "Variable.vlims"])
prop("C14", "Bounded steps never leave the domain and unbounded steps are exact",
  "Applying a fixed step to a value adds exactly that step (in the transformed space if a transformation is set, modulo two for booleans); a randomised step stays within its stated magnitude and an integer one takes every amount within it. When steps are bounded, the result of any step from inside the domain is inside the domain: clipped to an included limit, and rejected to the previous value beyond or at an excluded one, identically for single values and arrays; in a field each variable receives its own step.",
  ["inputs", "histories"], "every domain, every starting value or array, every fixed, sign-random or uniform step, scaled or not, bounded or not, and every repetition",
  "tests apply a few deltas to interior points",
  ["probayes/variable.py", "probayes/field.py"],
  [("Variable.eval_delta/apply_delta", "probayes/variable.py"), ("Field.eval_delta/apply_delta", "probayes/field.py")], ["returned values"])
prop("C15", "A random variable's probabilities match its declared distribution",
  "A random variable declared without a distribution assigns one over the size (or length in transformed space) of its domain to each value inside and zero outside; a discrete one declared with a table or a boolean one with a single probability assigns exactly those; and callable or library distributions give their own values. The log scale gives the logarithm of the same numbers, total probability over a discrete domain is one, and redefining the domain keeps all this true.",
  ["inputs", "configurations"], "every variable type, domain, declared probability and scale, every queried value, and redefinitions",
  "tests use a few fixed variables and compare sums only",
  ["probayes/rv.py", "probayes/rv_utils.py", "probayes/prob.py"],
  [("RV.set_prob/eval_prob", "probayes/rv.py"), ("uniform_prob", "probayes/rv_utils.py")], ["RV call result"])
prop("C16", "Transitions follow the declared matrix and never reach impossible states",
  "For a variable with a transition matrix, the reported probability of successor given predecessor is the matrix entry in the successor's row and predecessor's column in ascending value order, for single values, lists or the whole domain, in forward and reverse direction. Sampling a successor only yields states of positive probability: the one at which the cumulative probability of the predecessor's column crosses the sampled level, reported with its matrix entry.",
  ["inputs", "histories"], "every domain, square column-stochastic matrix (also with zeros), predecessor, successor request and cumulative level",
  "tests use one two-state chain with scalar arguments and check summed samples statistically",
  ["probayes/rv.py", "probayes/rv_utils.py"],
  [("RV.set_tran/eval_step/eval_tran/step", "probayes/rv.py"), ("matrix_cond_sample, lookup_square_matrix", "probayes/rv_utils.py")], ["PD from step"])
prop("C17", "Fields and conditional models evaluate the factorisation they declare",
  "A field of random variables without a joint function gives each joint assignment the product of its variables' probabilities, one axis per variable in order unless variables are supplied together, which then share an axis; a joint function receives each value under its variable's name. A conditional model gives the conditional of its dependent on its conditioning variables, and its joint evaluation is that conditional times the conditioning variables' own distribution for every assignment.",
  ["inputs", "programs"], "every composition of discrete variables, every split into supplied scalars, arrays, shared groups and whole domains, on linear and log scale",
  "tests evaluate a couple of two-variable models at fixed requests",
  ["probayes/rf.py", "probayes/rf_utils.py", "probayes/field.py", "probayes/sd.py", "probayes/sd_utils.py"],
  [("Field.evaluate", "probayes/field.py"), ("RF.eval_prob/__call__", "probayes/rf.py"), ("SD.__call__", "probayes/sd.py")], ["PD from call"])
prop("C18", "Dependence graphs classify variables by their declared edges",
  "In a model built by combining variables, fields and models, every variable appears exactly once; each declared dependency adds precisely its edges; variables with no dependants are leaves, those depending on nothing that condition something are roots and the rest are stems; the model's name lists leaves conditional on roots. The result does not depend on how the same structure was assembled, and combining leaves the operands as they were.",
  ["programs", "histories"], "every order of composition and every acyclic set of dependencies over small variable sets",
  "tests and examples build a few fixed graphs and look at printed output",
  ["probayes/dependence.py", "probayes/sd.py", "probayes/ops.py", "probayes/field.py"],
  [("Dependence.def_deps/add_deps/_refresh", "probayes/dependence.py"), ("and_op/or_op", "probayes/ops.py")], ["leafs", "roots", "stems", "name", "edges"])
prop("C19", "Samplers of a process count, stop, reset and stay independent",
  "A sampler created with a stop count yields exactly that many samples and then forgets its count and state; one without a count never ends; its counter equals the number of samples drawn since it started or was last reset, and resetting it (or, on request, only its count) makes it start again from its initial state. Samplers of the same process, however their draws are interleaved, never influence each other's counter, previous state or stopping, and walking a sampler for a number of steps consumes exactly the samples it returns.",
  ["schedules", "histories"], "every interleaving of creating, drawing from, walking, resetting and exhausting several samplers",
  "tests run one sampler to exhaustion",
  ["probayes/sp.py", "probayes/sp_utils.py"],
  [("SP.sampler/next/reset/walk", "probayes/sp.py"), ("sample_generator", "probayes/sp_utils.py")], ["samples", "get_counter", "get_last"],
  [("counter", "samples drawn per sampler", "SP.__counter"), ("last", "last accepted sample per sampler", "SP.__last")])
prop("C20", "Acceptance decides the chain's next state and nothing else does",
  "In a sampling chain the first draw is always accepted; afterwards each proposal starts from the last accepted state, is accepted exactly when the update rule says so (for Metropolis and Hastings rules: when the acceptance ratio capped at one is at least the threshold), and becomes the chain's state only then. The reported state of a step is the proposal if accepted and the previously accepted state otherwise, with its own probability; the Hastings ratio weighs target probabilities by reverse over forward proposal probabilities, on linear and log scales alike.",
  ["histories", "inputs"], "every sequence of proposals, scores, thresholds and update verdicts, and every ratio of probabilities on either scale",
  "tests average long random chains",
  ["probayes/sp.py", "probayes/sp_utils.py", "probayes/sd.py"],
  [("SP.next", "probayes/sp.py"), ("metropolis_*/hastings_* rules", "probayes/sp_utils.py"), ("SD._sample_tran/_sample_prop", "probayes/sd.py")], ["samples"],
  [("last", "last accepted sample per sampler", "SP.__last")])
prop("C21", "Summaries of a run contain each retained sample once, in order",
  "Summarising a run pools, for each reported component (original, proposal, proposal probabilities, scores, thresholds, updates and chain state), the entries of all samples except those vetoed by a false update, in the order drawn, each exactly once and with its own probability. Samples whose update is undecided (rejected but counted) are retained with the chain's previous state.",
  ["histories"], "every sequence of accepted, rejected and vetoed samples of any length, given as list, tuple or queue",
  "tests summarise a single long run of each kind without checking entries",
  ["probayes/sp.py", "probayes/pd_utils.py"], [("SP.__call__", "probayes/sp.py"), ("summate", "probayes/pd_utils.py")], ["summary"])
prop("C22", "Coordinate-wise transitions update the scheduled variables and only those",
  "When a field or process steps with a fixed number of variables per transition, each step re-samples exactly the next group of variables of the declared order, cyclically (the last group of a round may be smaller), each from a conditional given the current values of all the others (already updated ones included), and leaves every other variable at its previous value. Without a limit every variable is re-sampled in turn in each step.",
  ["histories", "configurations"], "every number of variables, group size and number of steps",
  "examples run Gibbs chains and plot them",
  ["probayes/rf.py", "probayes/sd.py", "probayes/cf.py"], [("RF.eval_tfun", "probayes/rf.py")], ["PD from step", "samples"])
prop("C23", "Functions receive the values of the variables they name",
  "However a function is attached to variables (plain value, callable, tuple or dictionary of callables, with a positional order or a difference mapping), calling it passes each parameter the value of the variable it was mapped to, applies fixed arguments and keywords given at definition, and selects the requested one of several functions. Inverses of paired transformations undo each other.",
  ["programs", "inputs"], "every way of attaching functions, every argument order and mapping over small sets of variables",
  "tests evaluate a few hand-picked expressions",
  ["probayes/expression.py", "probayes/func.py", "probayes/functional.py", "probayes/expr.py"],
  [("Expression._partial_call/set_order/set_delta", "probayes/expression.py"), ("Functional", "probayes/functional.py")], ["returned values"])
prop("C24", "Likelihood counts and binary codes are exact",
  "The counts of boolean state combinations in a data table equal the number of rows with each combination for every combination exactly once, so they sum to the number of rows (plus the base frequency declared for each combination); converting integers to binary digits and back is the identity for every number of bits that holds them. Boolean likelihoods built from such counts give every observation the likelihood its combination declares.",
  ["inputs"], "every boolean table of any width, every non-negative integer",
  "tests convert a few numbers",
  ["probayes/likelihoods.py"], [("bool_perm_freq", "probayes/likelihoods.py")], ["returned values"])
prop("C25", "Ill-formed combinations are refused instead of computed",
  "Operations that have no probabilistic meaning (summing out or conditioning on a variable that is not a marginal, multiplying distributions that describe the same variable or have incompatible conditions, dividing under different conditions, probabilities whose shape disagrees with the values, unknown variables in requests, duplicate variable names) are refused with an error and change nothing. Well-formed operations are never refused.",
  ["inputs", "histories"], "every operation with every illegal argument over distributions reached by any history",
  "tests only exercise legal calls",
  ["probayes/pd.py", "probayes/pd_utils.py", "probayes/distribution.py", "probayes/field.py"],
  [("assertions in PD, Distribution, product, summate", "probayes/pd.py")], ["exceptions"])
prop("C26", "Conditional normal sampling uses the conditional mean and variance",
  "For a multivariate normal with given means and covariance, the conditional distribution of one variable given all others uses the exact conditional mean and variance for every value of the others, inverting a cumulative level gives the value with that level, the reported conditional density is that of the conditional normal, and every sampled value lies within the variable's limits.",
  ["inputs"], "every positive-definite covariance matrix, mean, conditioning values, level and limits",
  "examples only plot samples",
  ["probayes/cond_cov.py", "probayes/rf_utils.py"], [("CondCov.interp", "probayes/cond_cov.py")], ["returned values"])

prop("C27", "Values drawn from a declared continuous distribution follow it",
  "Asking a continuous variable that declares its distribution (a library object, a symbolic one, or a pair of cumulative and inverse functions) for a positive count gives that many values at evenly spaced cumulative levels between those of its limits, excluding excluded limits; zero gives one, and a negative count that many, random values whose cumulative levels are uniform between those of the limits. Every value lies within the limits and is reported with its declared density; redefining the distribution or the limits takes effect on the next draw. Boolean draws come up true as often as declared. Successors drawn from a continuous transition follow its conditional distribution given the predecessor in the same way. All this holds alone and inside fields, models and processes.",
  ["inputs", "histories"], "every declared distribution, every pair of limits open or closed, every count and every sequence of redefinitions",
  "tests draw from a few standard distributions and plot or integrate them",
  ["probayes/rv.py", "probayes/prob.py", "probayes/vtypes.py", "probayes/sympy_prob.py", "probayes/rv_utils.py"],
  [("RV.evaluate", "probayes/rv.py"), ("RV.eval_step", "probayes/rv.py"), ("Prob.set_pfun", "probayes/prob.py"), ("bernoulli_sfun", "probayes/vtypes.py")], ["PD from call", "PD from step"])

path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(path, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
