"""The properties of jpt and how they are claimed (source of properties.jsonl and MANIFEST.json)."""
INT = 'src/jpt/base/intervals.pyx'
FUN = 'src/jpt/base/functions.pyx'
VAR = 'src/jpt/variables.py'
DIS = 'src/jpt/distributions/univariate/'
TREE = 'src/jpt/trees.py'
LIV = 'src/jpt/learning/'
PROPS = []
NA = []


def P(id, title, statement, text, why, files, mech, out, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, text=text, why=why, files=files, mech=mech, out=out, **kw))


P('I01', 'Interval set algebra agrees with membership',
  'A number belongs to the union, intersection, difference or complement of two number sets exactly when the boolean '
  'combination of its membership in the operands says so, for open, closed, half-open, empty, one-element and unbounded sets, for the methods and for the operators |, & and -, with intervals and sets of intervals on either side. '
  'No operation changes its operands.',
  'every pair of intervals (arbitrary end points of either type, infinite ends included), pairs of sets of two such intervals, and every number',
  'Tests use a few hand-written pairs; end-type and adjacency coincidences (equal or floating-point-neighbouring bounds) number in the hundreds per operation.',
  [INT], [('interval operations', INT + ' ContinuousSet.union/intersection/difference/complement'), ('set operations', INT + ' RealSet')],
  'sets of 3 or more intervals as operands; bounds beyond 2^50 in magnitude')
P('I02', 'Simplifying a number set keeps its elements',
  'The simplified form of a set of intervals contains exactly the same numbers, consists of sorted, pairwise disjoint and '
  'non-adjacent non-empty intervals, and simplifying again changes nothing. The set being simplified and its intervals stay as they were.',
  'every list of up to three intervals of any end types, in any order, overlapping, touching, nested or empty',
  'Which intervals merge depends on the order type of six bounds and six end types; tests have a handful of lists.',
  [INT], [('simplification', INT + ' RealSet.simplify')], 'lists of four or more intervals')
P('I03', 'Predicates and measures of number sets are exact',
  'Emptiness, membership, containment, overlap, adjacency, equality, smallest and largest element, element count and infinite-end queries '
  'answer what the set of contained floating-point numbers says; equal sets have equal hashes.',
  'every interval and every set of two intervals, every pair for the binary predicates, every number',
  'The answers change at exact coincidences of bounds and at neighbouring floating-point numbers, which sampled tests do not hit.',
  [INT], [('predicates', INT + ' ContinuousSet/RealSet isempty, contains_*, intersects, contiguous, __eq__, __hash__, size, min, max')],
  'sets of three or more intervals')
P('I04', 'Cutting and re-expressing intervals loses nothing',
  'Cutting an interval at given points yields pieces that are disjoint and together contain exactly the numbers of the interval, and likewise for sets of intervals; evenly spaced points lie in the interval, apart by the same distance; mirroring a set '
  'at the origin contains x exactly when the set contains -x; re-expressing the ends of an interval as open or closed keeps its elements; copies are equal and independent.',
  'every interval and up to two cut points; every set of up to two intervals for mirroring and copying',
  'Cut points that coincide with bounds, lie outside or repeat are combinations that tests sample once or not at all.',
  [INT], [('cutting', INT + ' ContinuousSet.chop/ends/boundaries/xmirror/copy')], 'three or more cut points')
P('I05', 'Number sets survive JSON, pickle and text',
  'A number set written to JSON, pickled, or written as interval text and read back equals the original, and contains exactly the same numbers.',
  'every interval and every set of up to two intervals, infinite ends included',
  'Tests round-trip single examples; what is lost is lost only for particular kinds of sets (several pieces, empty, infinite ends).',
  [INT], [('serialisation', INT + ' to_json/from_json/__getstate__/fromstring')], 'number formatting and parsing of float literals')

P('F01', 'Arithmetic of piecewise functions is pointwise',
  'The sum, difference and product of two piecewise functions, and of a function and a number (on either side of the operator), have at every point the sum, difference or product of the operands\' values there, '
  'and are undefined exactly where an operand is undefined or outside its domain. Operands are not modified.',
  'every pair of functions of up to two constant, linear or undefined pieces with arbitrary knots, coefficients and end types, and every point',
  'The result depends on how the knots of two functions interleave, coincide or leave gaps; tests use fixed knots.',
  [FUN], [('arithmetic', FUN + ' PiecewiseFunction.add/mul/__sub__/add_const'), ('intersecting the pieces', FUN + ' intervals and Function.__add__')],
  'three or more pieces per operand; floating-point rounding of the arithmetic (checked over the reals)')
P('F02', 'Restructuring a piecewise function keeps its values',
  'Evaluating picks the piece that contains the point; cropping, splitting, overwriting a range, shifting, mirroring, simplifying, building from points or from a mapping, continuing the function to the left or right, listing its knots, and copying '
  'yield the function that the operation describes at every point, and leave the original unchanged.',
  'every function of up to three pieces, every range or split point, every evaluation point',
  'Off-by-one piece errors show only for points on knots and ranges that start or end on or next to knots.',
  [FUN], [('restructuring', FUN + ' PiecewiseFunction.crop/split/overwrite_at/xshift/xmirror/simplify/from_points/from_dict/copy')],
  'four or more pieces; rounding')
P('F03', 'Integrals and derivatives are exact',
  'The integral of a piecewise constant or linear function over any range, including unbounded ranges and ranges with ends on or between knots, equals the area under it; integrals over adjacent ranges add up; '
  'the derivative has the slope of each piece; rectifying clips the function at zero.',
  'every function of up to two or three pieces and every pair of bounds',
  'Ranges starting or ending exactly at a knot or covering only part of a piece are not systematically tested.',
  [FUN], [('integration', FUN + ' Function.integrate, PiecewiseFunction.integrate/differentiate/rectify')], 'rounding; three or more linear pieces')
P('F04', 'Minima, maxima, absolute value and overlap of functions',
  'The pointwise minimum and maximum of two functions, and the absolute value, have the stated value at every point; maximising a function returns its largest value and exactly the set where it is attained; '
  'the overlap ratio of two densities is the area of their minimum over that of their maximum, between 0 and 1 and symmetric.',
  'every pair of functions of one or two pieces, every point',
  'Crossing points inside pieces, ties on plateaus and ties at knots are symbolic coincidences.',
  [FUN], [('lattice operations', FUN + ' PiecewiseFunction.min/max/abs/maximize/jaccard_similarity')], 'more pieces; rounding')
P('F05', 'Level sets of functions are exact',
  'The set of points where a density is positive, and the sets where a continuous monotone function lies below or above a value, contain exactly the points at which the function satisfies the condition.',
  'densities of up to three constant pieces between zero tails; non-decreasing functions of up to two linear pieces; every level and point',
  'Boundary points of the level set coincide with knots or plateaus only for special levels.',
  [FUN], [('level sets', FUN + ' PiecewiseFunction.lt/gt')], 'non-monotone functions with linear pieces; rounding')
P('F06', 'Function equality, hashing and JSON are faithful',
  'Functions that compare equal have the same value at every point and equal hashes; functions with the same pieces compare equal; a function written to JSON and read back equals the original.',
  'every pair of functions of up to two pieces, every point',
  'Wrong equalities show up only for pairs that agree on a prefix of their pieces or on some of the coefficients.',
  [FUN], [('equality', FUN + ' __eq__/__hash__/to_json/from_json')], 'three or more pieces')
P('F07', 'Approximating a function stays close and keeps its ends',
  'Approximating a function by fewer pieces never needs more pieces than the original, keeps its value before the first and after the last knot, stays between the values the original takes, and respects the requested number of segments; '
  'a piecewise constant density keeps its total area.',
  'continuous functions of up to three linear pieces between constant tails and densities of up to three constant pieces, arbitrary heights',
  'Merging decisions depend on the relative sizes of all errors; tests check one or two fixed functions.',
  [FUN], [('approximation', FUN + ' PLFApproximator, PiecewiseFunction.approximate')], 'more pieces, arbitrary knot positions for three pieces')
P('F08', 'Convolution of densities is exact',
  'The convolution of two piecewise constant densities has at each point the area of their overlap when one is mirrored and shifted there, integrates to the product of the areas, and does not depend on the order of the operands.',
  'two densities of one constant piece each with arbitrary bounds and heights, every point',
  'The case structure depends on which support is wider; tests use one pair.',
  [FUN], [('convolution', FUN + ' PiecewiseFunction.convolution')], 'densities of several pieces; rounding')
P('F09', 'Elementary functions compute what they stand for',
  'Constant, linear, quadratic, hinge, jump, impulse and undefined functions evaluate, add, multiply, shift, mirror, invert, find roots, intersect and differentiate to the algebraically exact result, or report that no such result exists.',
  'all coefficients and all points',
  'Degenerate coefficients (zero slope, coinciding lines, zero leading terms) change the code path and are rarely tested in combination.',
  [FUN], [('elementary functions', FUN + ' ConstantFunction, LinearFunction, QuadraticFunction, Jump, Undefined')], 'rounding')

MUL = DIS + 'multinomial.py'
INTG = DIS + 'integer.py'
P('D01', 'Symbolic distributions follow the laws of probability',
  'For symbolic and Boolean distributions the probability of an event is the sum over its distinct values; restricting to an event gives the conditional distribution and rejects exactly the impossible events; '
  'merging and updating give the weighted mean; fitting gives relative frequencies; the most probable states are exactly the maximisers, in order of probability; '
  'label and value space agree; equality, JSON, pickle, copies and deep copies preserve the parameters; setting all mass on one value makes that value certain. '
  'Weights that do not sum to one, update weights outside [0, 1], other domains and foreign labels are rejected. Operands stay unchanged.',
  'domains of 1 to 4 values, every probability vector (entries 0 or at least 1/64), every event, every small data table',
  'Zero probabilities, ties and events that cover everything or nothing change the code path; tests use one fixed distribution.',
  [MUL, DIS + 'distribution.py'], [('symbolic distributions', MUL + ' Multinomial, Bool, SymbolicType')], 'five or more values; rounding')
P('D02', 'Integer distributions follow the laws of probability',
  'For integer distributions the probability of an event is the sum over its values, with values outside the domain being rejected; the cumulative distribution adds them up; restricting gives the conditional distribution and rejects exactly the impossible events; '
  'merging and updating give the weighted mean; fitting gives relative frequencies; expectation, variance and sums of independent variables are exact; the most probable states are exactly the maximisers; '
  'labels and values are a bijection; equality, JSON, copies and deep copies preserve the parameters; invalid weights and other domains are rejected.',
  'ranges of 1 to 3 integers with positive, negative or zero offset, every probability vector (entries 0 or at least 1/64), every event, every small data table',
  'The offset between label and value space shows only for ranges not starting at 0 or 1, and zero probabilities and ties change the code path.',
  [INTG, DIS + 'distribution.py'], [('integer distributions', INTG + ' Integer, IntegerType')], 'four or more values; rounding')

NUM = DIS + 'numeric.py'
QUA = 'src/jpt/distributions/quantile/quantiles.pyx'
CDF = 'src/jpt/distributions/quantile/cdfreg.pyx'
P('D03', 'Fitting a numeric distribution yields a faithful cdf',
  'Fitting a numeric distribution to data yields a cumulative distribution function: 0 before the smallest data value, 1 from the largest on, never decreasing; '
  'with the approximation error set to zero it passes through the empirical quantiles, and with a larger one it stays within the requested error. Selecting rows and columns of the data is respected, weights are normalised, '
  'and data with a single distinct value give an impulse there.',
  'data of up to four numbers with arbitrary values and repetitions, every row selection, weights from a small range',
  'Repeated values, sorted position of the extreme values and the greedy choice of knots are combinations that tests sample on a few data sets.',
  [NUM, QUA, CDF], [('fitting', QUA + ' QuantileDistribution.fit'), ('cdf regression', CDF + ' CDFRegressor'), ('numeric interface', NUM + ' Numeric.fit')],
  'five or more data points; rounding; random tie breaking inside numpy')
P('D04', 'Probabilities and restrictions of numeric distributions are consistent',
  'The probability of a number, an interval or a set of intervals under a numeric distribution is the mass that the cdf gives it, jumps included and overlaps counted once; it lies in [0, 1] and is additive over disjoint sets. '
  'Restricting the distribution to an event gives the conditional distribution, P(A | E) = P(A and E) / P(E), and rejects exactly the events of probability 0. Operands stay unchanged.',
  'distributions of up to two pieces with jumps between them, and impulses; every number, interval (ends open or closed, infinite ends included) and set of two intervals',
  'Whether the ends of the event coincide with knots or jumps, and their openness, decide about finite amounts of mass; tests use one or two fixed distributions.',
  [NUM, QUA], [('probabilities', NUM + ' Numeric._p'), ('restriction', NUM + ' Numeric._crop, ' + QUA + ' QuantileDistribution.crop')],
  'three or more pieces; rounding')
P('D05', 'Mixtures of numeric distributions are weighted means',
  'Merging numeric distributions with weights that sum to one gives the distribution whose cdf is the weighted mean of the operands\' cdfs; updating a distribution moves it by the given weight towards the other one; the operands stay unchanged.',
  'pairs of distributions of one or two pieces and impulses, and every pair of weights',
  'How the knots of the operands interleave and coincide decides the result; tests use fixed distributions.',
  [NUM, QUA], [('mixtures', NUM + ' Numeric.merge/update, ' + QUA + ' QuantileDistribution.merge')],
  'three or more operands; rounding; knots closer than the tolerance at which pieces are joined')
P('D06', 'Quantile functions and samples agree with the cdf',
  'The quantile function maps every probability p in [0, 1] to the smallest number whose cdf reaches p, within the support of the distribution; samples drawn from the distribution lie in its support, '
  'and every number drawn is the quantile of the uniform random number it was made of.',
  'distributions of up to two pieces with jumps and flat stretches, and impulses; every p; every value the random number generator can return',
  'Values of p that coincide with the height of a jump or a plateau are never drawn by random tests.',
  [NUM, QUA], [('quantile function', QUA + ' QuantileDistribution.ppf'), ('sampling', NUM + ' Numeric._sample, ' + QUA + ' sample')],
  'three or more pieces; rounding')
P('D07', 'Moments, modes and distances of numeric distributions are exact',
  'Expectation, variance, central moments and the median of a numeric distribution equal the integrals and quantiles of its cdf, in label space as well as in value space; '
  'the most probable states are exactly where the density is largest, in decreasing order of density; similarity is symmetric, lies in [0, 1] and is 1 for equal distributions; divergence is never negative, 0 for equal and positive for different distributions.',
  'distributions of up to two pieces, and impulses; label scales with arbitrary mean and spread',
  'Ties between the heights of densities, and impulses, take other paths than the generic distributions used in tests.',
  [NUM, QUA], [('moments and modes', NUM + ' Numeric._expectation/_variance/moment/mpe/k_mpe'), ('distances', NUM + ' Numeric.jaccard_similarity/kl_divergence')],
  'three or more pieces; densities combined with impulses in one distribution for the most probable states; rounding')
P('D08', 'Numeric distributions survive serialisation; labels and values are two views of one distribution',
  'A numeric distribution written to JSON, pickled or copied equals the original and gives the same probabilities; distributions that compare equal have the same cdf; '
  'the label interface of a scaled domain gives the same answers as the value interface on the scaled numbers; scaling and inverting is the identity, for numbers and arrays; invalid weights, undefined values and other domains are rejected.',
  'distributions of up to two pieces, and impulses; scales with arbitrary mean and spread; every interval',
  'Errors of label/value conversion cancel for the standard scale that tests use.',
  [NUM, QUA, 'src/jpt/distributions/utils.py'], [('serialisation', NUM + ' to_json/from_json/__eq__/copy'), ('label space', NUM + ' label2value/value2label, utils.DataScaler')],
  'three or more pieces; float formatting')

TOUT = 'trees with more than four leaves, domains of more than three values, densities of more than two pieces per leaf; rounding'
TQ = ('trees of one to four leaves over numeric, symbolic, Boolean and integer variables with arbitrary leaf probabilities and leaf distributions '
      '(entries 0 or at least 1/64), every evidence and query (values, sets, intervals of any end types)')
P('T01', 'Learned trees partition and describe their training data',
  'Learning a tree assigns every training sample to exactly one leaf, consistently with the splits on the path to it; leaf priors are the fractions of the samples and sum to one, every leaf holds at least the requested '
  'number of samples, and its distributions are those fitted to its samples. Every training sample has positive likelihood, every number between the smallest and largest sample of a numeric variable is possible. '
  'Depth limit, improvement threshold, targets and features are respected; the data passed in stay unchanged.',
  'tables of two to four rows with one or two numeric, symbolic, Boolean or integer columns with arbitrary contents, all minimal leaf sizes of 1 and 2',
  'Splits depend on the order type and ties of the data; repeated values, constant columns and values next to the split occur by chance only in random tests.',
  [TREE, LIV + 'impurity.pyx', 'src/jpt/distributions/'], [('learning', TREE + ' JPT.learn/fit/c45/create_leaf_node'), ('preprocessing', TREE + ' JPT._preprocess_data')],
  'five or more rows, three or more columns; rounding')
P('T02', 'Inference is exact conditioning of the joint distribution',
  'The probability of a query given evidence equals P(query and evidence) / P(evidence) of the mixture of the leaves; it lies in [0, 1], does not depend on whether variables occur in query, evidence or both, '
  'is additive over complementary queries, and impossible evidence is reported as unsatisfiable (or None). Trees, queries and evidence stay unchanged.',
  TQ, 'Whether evidence excludes leaves, touches a split value or has probability 0 in some leaves decides the code path.',
  [TREE], [('inference', TREE + ' JPT.infer/apply, Leaf.path_conditional_probability'), ('queries', TREE + ' JPT._preprocess_query')], TOUT)
P('T03', 'Posterior distributions, expectations and moments are exact',
  'The posterior of each variable given evidence is the conditional marginal of the mixture of the leaves for every event; the posterior expectation and the moments about any center are those of that distribution, in the labels of the variables; '
  'evidence is respected by the posterior of the evidence variables themselves; impossible evidence is reported as unsatisfiable (or None). Nothing is modified.',
  TQ, 'Weighting of leaves, evidence that restricts variables in some of the leaves only, and ranges that touch a leaf at one number are not sampled by tests.',
  [TREE], [('posterior', TREE + ' JPT.posterior'), ('expectation', TREE + ' JPT.expectation/moment')], TOUT)
P('T04', 'Conditional trees represent the conditional joint distribution',
  'Conditioning a tree on evidence yields a tree in which every query has the conditional probability given the evidence, whose leaf priors sum to one, which keeps exactly the leaves compatible with the evidence and answers '
  'further queries like the original does under the combined evidence. Impossible evidence is reported; the original tree stays unchanged.',
  TQ, 'Tests condition a few learned trees; leaves that lose all their mass, decision nodes that lose a child and repeated conditioning are combinations they do not have.',
  [TREE], [('conditioning', TREE + ' JPT.conditional_jpt, Leaf.conditional_leaf')], TOUT)
P('T05', 'Most probable explanations are most probable and ranked',
  'The most probable explanation under evidence consists exactly of the worlds that attain the largest density or probability among all worlds compatible with the evidence, and reports that value; k most probable explanations come in '
  'decreasing order, without duplicates or omissions, the first being the most probable one, and the search terminates. Impossible evidence is reported.',
  TQ, 'Ties between leaves, states and variables, zero probabilities and several symbolic variables change the search order.',
  [TREE, 'src/jpt/inference/mpe.py', 'src/jpt/base/utils.py'], [('most probable explanation', TREE + ' JPT.mpe/kmpe, Leaf.mpe, inference/mpe.py MPESolver'), ('distributions', DIS + ' mpe/k_mpe')], TOUT)
P('T06', 'Routing, likelihood and density agree with the tree',
  'Every assignment of all variables belongs to exactly one leaf, and the likelihood of a sample, the density of a world, the encoding of samples as leaves, the leaves yielded for evidence and the containment test of leaves '
  'all agree with the splits on the paths and with prior times the product of the leaf densities, in label space and for numbers at split values. A reverse query returns exactly the leaves in which every part of the query is at least as probable as required, best first.',
  'trees of one to four leaves over all variable types, every sample (numbers at and next to split values included), batches of up to two samples',
  'Samples exactly at a split value and impossible samples are not drawn by random tests.',
  [TREE], [('likelihood', TREE + ' JPT.likelihood/pdf/_preprocess_data'), ('routing', TREE + ' JPT.apply/encode/reverse, Leaf.contains/applies, Leaf.parallel_likelihood')], TOUT)
P('T07', 'Trees survive JSON, pickle and copying',
  'A tree written to JSON or pickled and read back, or copied, equals the original, has the same leaves, structure, variables with their settings, targets and features, and gives the same answers; conditional trees included; '
  'trees that differ in structure, priors or distributions, and objects of other types, do not compare equal.',
  TQ, 'Tests round-trip learned trees with default settings; separate targets, non-default variable settings, conditioned trees and impulses are missing.',
  [TREE, VAR], [('serialisation', TREE + ' JPT.to_json/from_json/__getstate__/__setstate__/__eq__/copy'), ('variables', VAR + ' Variable.to_json/from_json')], TOUT)
P('T08', 'Pruning merges only similar leaves and keeps the joint distribution of what it merges',
  'Pruning yields a tree whose leaf priors sum to one and in which every removed decision is replaced by a leaf with the prior-weighted mixture of the leaf distributions, so that the marginal of every variable is unchanged; '
  'leaves less similar than the threshold stay separate; the original tree stays unchanged and conditional trees can be pruned as well.',
  'trees of two to four leaves over all variable types, arbitrary priors and distributions, every threshold',
  'Which leaves merge depends on the similarity of all distributions; tests prune one learned tree.',
  [TREE], [('pruning', TREE + ' JPT.prune/postprocess_leaves')], TOUT)
P('T09', 'Samples are possible and drawn with the right probabilities',
  'Samples of a tree or distribution, of a roulette wheel, an interval or a set lie in the support, under evidence in the evidence, and every leaf, value or interval is chosen for exactly a share of the random numbers that equals its conditional probability; '
  'elements of weight 0 are never drawn.',
  'every random number the generators can return, weights of up to four elements, intervals and sets of any end types, trees of one to four leaves, every evidence',
  'Random tests cannot see wrong proportions of rare elements or the extreme random numbers.',
  [TREE, 'src/jpt/base/sampling.py', INT, DIS], [('sampling', TREE + ' JPT.sample, Leaf.sample'), ('roulette wheel', 'src/jpt/base/sampling.py'), ('sets', INT + ' sample')], TOUT)
P('K01', 'Learning chooses the best split',
  'At every node learning splits the samples by the values of one feature (a threshold of a numeric or integer feature between two occurring values, one value of a symbolic feature against the rest) such that both sides have the required number of samples '
  'and no other such split has a larger improvement: the mean relative reduction of the variance of the numeric targets (other than the feature itself), and of the normalised Gini impurity of the symbolic targets, weighted by their numbers; '
  'targets that do not depend on the feature do not contribute. A node becomes a leaf only if no split is possible. Samples of other nodes are not touched.',
  'tables of three or four rows over two to four variables of all kinds with arbitrary contents, sets of targets, features and dependencies, ranges of samples, minimal leaf sizes 1 and 2',
  'Statistics that are not reset between candidates or mixed up between variables change the choice only for particular data; tests only compare whole trees on a few data sets.',
  [LIV + 'impurity.pyx', TREE], [('impurity', LIV + 'impurity.pyx Impurity.compute_best_split/evaluate_variable'), ('tree construction', TREE + ' JPT.c45')],
  'five or more rows; rounding; which of several equally good splits is taken; the mean over several numeric targets is a known finding')
P('S01', 'Sequential trees combine leaves along the transition model',
  'For a sequence of evidence the independent marginal trees of a sequential tree are those of the joint distribution in which a sequence of leaves weighs the product of the transition weights of its consecutive leaves and of the probabilities '
  'of its leaves given the evidence at their time steps: at every time step the leaf priors are the marginals of that distribution, whatever the number of time steps, and queries are answered accordingly. Impossible evidence is reported. Learning '
  'fits the template tree to the samples that have a successor and counts the transitions between the leaves of consecutive samples of each sequence, never across sequences. Sequential trees survive JSON. The template tree stays unchanged by inference.',
  'sequences of one to three and of twelve time steps over trees of two to four leaves, arbitrary transition matrices and evidence (values, intervals, none); training sequences of three or four samples of one or two variables',
  'Tests use one learned template with its own transition counts and compare nothing numerically; leaves that are impossible at some step, more than ten time steps and non-uniform priors are not met.',
  ['src/jpt/sequential_trees.py', TREE], [('inference', 'src/jpt/sequential_trees.py SequentialJPT.independent_marginals/ground'), ('learning', 'src/jpt/sequential_trees.py SequentialJPT.fit'),
   ('json', 'src/jpt/sequential_trees.py to_json/from_json')],
  'the factor graph library is replaced by exact summation over the same factors (engine/fgstub.py), its message passing is not judged; longer sequences, more leaves; rounding')
P('V01', 'Variables, assignments and evidence mean what they say',
  'A variable map behaves like a map from variables, addressed by variable or name, through every history of assignments, deletions, updates and copies; it accepts only what is a value of the variable. Conversion of assignments between labels and '
  'values is exact and invertible, and assignments survive JSON. Binding evidence to a tree accepts numbers, labels, lists, intervals and sets by variable, name or keyword, yields exactly the denoted set, and rejects what is no value of the variable; '
  'a blurred number becomes the interval of that share of the prior around it. Variables inferred from a data frame have the types, domains and settings asked for.',
  'histories of up to three operations on three variables, numbers, labels, intervals and unions of all kinds, domains with arbitrary centers and scales, priors of one to three pieces and impulses, data frames of three rows',
  'The accepted forms multiply (kind of variable, form of value, way of addressing, label or value space); tests have one or two examples of each and never read assignments back.',
  [VAR, TREE], [('maps and assignments', VAR + ' VariableMap, LabelAssignment, ValueAssignment'), ('inference of variables', VAR + ' infer_from_dataframe'), ('binding', TREE + ' JPT.bind/_preprocess_query')],
  'sets of values outside of the domain in value space (not validated by design); blur of numbers off an impulse prior; rounding')
P('U01', 'Sorting, heaps and the numeric helpers are correct',
  'Sorting arranges every array in ascending order, keeps the indices with their values and does not touch other elements, also where it falls back to heapsort; a heap returns its items in order through every history of pushes, pops and deletions; '
  'normalising weights keeps proportions and sums to one; equally spaced numbers have the given ends and distances; lists of numbers become exactly the intervals or sets they denote; the sequence helpers (pairwise, chunks, deduplication, ordering) lose and '
  'invent nothing.',
  'arrays of up to five arbitrary numbers and of 32 adversarial numbers with symbolic ones among them, heap histories of up to four operations, sequences of up to four elements',
  'Learning and approximation are wrong for particular orders of the data if these are; tests cover them with a handful of random arrays.',
  ['src/jpt/base/utils.py', 'src/jpt/base/cutils.pyx', 'src/jpt/base/cutils.pxd'], [('sorting', 'src/jpt/base/cutils.pyx sort'), ('heap', 'src/jpt/base/utils.py Heap'), ('helpers', 'src/jpt/base/utils.py normalized, list2interval, list2intset')],
  'longer arrays and histories; rounding')
P('D09', 'Densities, sums and approximations of distributions are exact',
  'A numeric distribution made from a density (with impulses) has the cdf that is its integral; the sum of independent variables has the convolution as its distribution, also when one of them is constant, and so have cumulative sums; approximating '
  'a distribution with pieces to spare changes nothing, and otherwise keeps its ends and yields a valid distribution of at most the requested number of pieces; uniform fragments added at the ends take exactly their share of the mass. Operands stay unchanged.',
  'densities of one to three pieces with arbitrary masses and up to three impulses, sums of two or three distributions of one or two pieces',
  'Impulses next to or within the support, unequal widths and shifts other than zero are needed to tell right from wrong; tests add two uniform distributions.',
  [DIS, 'src/jpt/distributions/quantile/quantiles.pyx', 'src/jpt/base/functions.pyx'], [('densities', 'src/jpt/distributions/quantile/quantiles.pyx from_pdf/pdf_to_cdf'), ('sums', DIS + ' Numeric.__add__/cumsum'), ('convolution', 'src/jpt/base/functions.pyx convolution')],
  'sums and densities of distributions with both impulses and a density (the density does not represent impulses there); rounding')
