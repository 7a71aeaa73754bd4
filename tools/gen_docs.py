#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing the table)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'include/boost/accumulators/statistics/'; F = 'include/boost/accumulators/framework/'; N = 'include/boost/accumulators/numeric/'
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, technique, note):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None), technique=technique, note=note))

p('P01', 'Running statistics equal the textbook statistics of the whole sample',
  'After every sample, count, sum, mean (computed lazily or immediately), minimum, maximum, raw moments, variance (lazy or immediate), skewness, kurtosis and the standard error of the mean equal their textbook definitions evaluated over all samples seen so far, up to rounding. This holds for integer and floating-point samples, for each statistic alone in its set or together with others, and for every prefix of every stream.',
  ['inputs', 'histories'], 'every finite stream of samples (any order, sign, scale, repetition, length), every sample type, every prefix',
  'The tests push fewer than ten fixed samples per statistic and compare one final value; errors that need negative-only data, equal samples, large counts or a particular type never show.',
  [S + f for f in ('count.hpp', 'sum.hpp', 'mean.hpp', 'min.hpp', 'max.hpp', 'moment.hpp', 'variance.hpp', 'skewness.hpp', 'kurtosis.hpp', 'error_of.hpp', 'error_of_mean.hpp')],
  [('iterative update formulas', S + 'variance.hpp, mean.hpp'), ('division that does not truncate', N + 'functional.hpp (fdiv, average)')], ['extractors of the set after each sample'],
  'property-based testing against a two-pass long double reference model', 'random streams over 5 sample types, every prefix compared with a two-pass reference in long double; tolerance from a rounding bound')
p('P02', 'Weighted statistics equal the textbook weighted statistics',
  'In a set with weights, sum, mean, variance, moments, skewness, kurtosis, minimum and maximum, sum and mean of weights equal the weighted definitions over all (sample, weight) pairs seen, up to rounding. An integer weight means repetition, a unit weight changes nothing, multiplying all weights by one factor leaves the means and central statistics alone, and naming an unweighted statistic in a weighted set gives its weighted counterpart.',
  ['inputs', 'histories'], 'every stream of samples with positive weights (zero weights allowed after the first), all combinations of sample and weight type',
  'The tests use one short hand-computed stream each; repetition, scaling and prefix laws are never exercised.',
  [S + f for f in ('weighted_sum.hpp', 'weighted_mean.hpp', 'weighted_variance.hpp', 'weighted_moment.hpp', 'weighted_skewness.hpp', 'weighted_kurtosis.hpp', 'sum.hpp', 'mean.hpp', 'min.hpp', 'max.hpp')],
  [('replacement of a statistic by its weighted variant', F + 'depends_on.hpp'), ('weighted update formulas', S + 'weighted_mean.hpp, weighted_variance.hpp')], ['extractors of weighted sets after each sample'],
  'property-based testing: reference model plus metamorphic laws (repetition, unit weight, scaling)', 'long double weighted reference on every prefix and three metamorphic relations, five type combinations')
p('P03', 'Covariance and variate statistics describe the pairs passed in',
  'The covariance, and the sum and mean of a variate, equal their definitions over all (sample, variate) pairs (with weights: weighted), for scalar and for vector samples and variates of any lengths. Covariance of a column with itself is its variance, it is symmetric and bilinear, and integer weights mean repetition.',
  ['inputs', 'histories'], 'every stream of pairs, either variate name, scalar or vector operands of any dimension, any positive weights',
  'The tests check one five-sample stream per overload with equal dimensions.',
  [S + f for f in ('covariance.hpp', 'weighted_covariance.hpp', 'mean.hpp', 'sum.hpp', 'variates/covariate.hpp', 'weighted_mean.hpp', 'weighted_sum.hpp')],
  [('iterative covariance update', S + 'covariance.hpp, weighted_covariance.hpp'), ('outer product', S + 'covariance.hpp')], ['covariance, mean and sum of variates'],
  'property-based testing: reference model and algebraic laws', 'long double reference and laws; vectors up to dimension 4; one variate statistic of each kind per set (two of a kind is a known finding)')
p('P04', 'Compensated sums stay within the compensated error bound',
  'The compensated (Kahan) sum, weighted or not, differs from the exact sum of the terms by at most a few machine epsilons times the sum of magnitudes, independent of the number of samples. The bound survives copying and assigning the set in the middle of the stream.',
  ['inputs', 'histories'], 'every stream of finite floating-point terms, including long cancelling ones; copies at any point',
  'The tests add two small terms to one large one.',
  [S + 'sum_kahan.hpp', S + 'weighted_sum_kahan.hpp'], [('compensation term', S + 'sum_kahan.hpp, weighted_sum_kahan.hpp')], ['sum_kahan extractor'],
  'property-based testing against exact (double-double / long double) summation', 'error bound checked on every prefix of adversarial streams')
p('P05', 'Rolling statistics describe exactly the last window of samples',
  'The rolling count, sum, mean (lazy and immediate), moments, variance (lazy and immediate) and the window itself equal the plain statistics of the last W samples (all of them while fewer have been seen), in order, where W is the window size given at construction; the (default, immediate) rolling variance is never negative. Copies and assigned sets keep their own window from then on.',
  ['inputs', 'histories', 'configurations'], 'every window size from 1, every stream longer or shorter than the window, every history of copies and assignments between sets of different window sizes',
  'The tests use windows of size 3 to 5 and about ten samples.',
  [S + f for f in ('rolling_window.hpp', 'rolling_count.hpp', 'rolling_sum.hpp', 'rolling_mean.hpp', 'rolling_variance.hpp', 'rolling_moment.hpp')],
  [('window of W+1 samples', S + 'rolling_window.hpp'), ('add newest, remove oldest', S + 'rolling_sum.hpp, rolling_mean.hpp, rolling_variance.hpp')], ['rolling extractors after each sample'],
  'model-based testing against a deque of the last W samples', 'stateful model over pushes, copies and assignments; 3 sample types; windows 1 to 40')
p('P06', 'A tail cache holds exactly the extreme samples with their companions',
  'A left (right) tail of size C holds, in order from the extreme inwards, the C smallest (largest) samples seen, or all of them while fewer have been seen; the weights and variates listed alongside are those that arrived with these very samples. Reading the tail any number of times, at any moment, changes nothing.',
  ['inputs', 'histories', 'configurations'], 'every stream with any ties and order, every cache size from 1, any companion type, any interleaving of reads',
  'The tests push five samples into caches of size two to four and read once.',
  [S + 'tail.hpp', S + 'tail_variate.hpp'], [('heap of indices', S + 'tail.hpp'), ('companions stored at the index of the sample', S + 'tail_variate.hpp')], ['tail, tail_weights, tail_variate extractors'],
  'model-based testing against a sorted multiset', 'multiset model with ties resolved as sets of admissible companions; numeric and non-numeric variates')
p('P07', 'Tail quantiles and tail means equal the order statistics of all samples',
  'Whenever the cache suffices, the tail quantile, the coherent and non-coherent tail means and the (absolute and relative) tail variate means at any level equal their definitions on the sorted list of all samples seen. When the cache does not suffice the answer is the documented one (not-a-number or the documented exception), never a wrong number.',
  ['inputs', 'configurations'], 'every stream, every cache size, every probability in (0,1), both tails, integer and floating-point samples',
  'The tests compare two or three fixed levels with a loose tolerance on random data.',
  [S + f for f in ('tail_quantile.hpp', 'tail_mean.hpp', 'tail_variate_means.hpp', 'tail.hpp')], [('rank from level and count', S + 'tail_quantile.hpp, tail_mean.hpp')], ['quantile, coherent_tail_mean, non_coherent_tail_mean, tail_variate_means'],
  'property-based testing against a full-sort reference', 'full sort of all samples; levels include exact ranks, percentages and near 0/1')
p('P08', 'Weighted tail quantiles and means follow the cumulated weights',
  'In weighted sets the tail quantile, non-coherent tail mean and tail variate means at any level equal their definitions on the samples sorted from the tail inwards with their weights cumulated. Integer weights mean repetition, unit weights change nothing, and an insufficient cache is answered as documented.',
  ['inputs', 'configurations'], 'every stream of weighted samples, every cache size, level and tail side',
  'The tests compare a few levels on random data with loose tolerance and never hit an insufficient cache of weights.',
  [S + f for f in ('weighted_tail_quantile.hpp', 'weighted_tail_mean.hpp', 'weighted_tail_variate_means.hpp', 'tail_variate.hpp')], [('walk from the extreme until the weight suffices', S + 'weighted_tail_quantile.hpp')], ['quantile, non_coherent_tail_mean, tail_variate_means of weighted sets'],
  'property-based testing against a full-sort reference and repetition law', 'full sort with cumulated weights; thresholds within rounding distance are skipped and counted')
p('P09', 'Streaming quantiles and medians follow the five-marker algorithm',
  'With at least five samples, the streaming (P-square) quantile and median estimates, weighted or not, equal the published five-marker algorithm run on the same stream; they lie between the smallest and largest sample, are exact while only five samples have been seen, and approach the true quantile on independent samples. Integer samples are handled as exactly as the same values given as floating-point numbers, and shifting and scaling the samples shifts and scales the estimate.',
  ['inputs', 'histories', 'configurations'], 'every stream of five or more samples, every probability in (0,1), positive weights',
  'The tests check estimates on long random streams to one or two digits, which most off-by-one errors survive.',
  [S + f for f in ('p_square_quantile.hpp', 'weighted_p_square_quantile.hpp', 'median.hpp', 'weighted_median.hpp')], [('marker positions and parabolic adjustment', S + 'p_square_quantile.hpp')], ['p_square_quantile, median extractors'],
  'differential property-based testing against an independent implementation of the published algorithm', 'independent reference implementation, invariants, affine metamorphic relation, accuracy on smooth distributions')
p('P10', 'Extended streaming quantiles follow the multi-marker algorithm',
  'The simultaneous (extended P-square) estimates for a list of probabilities, weighted or not, equal the published multi-marker algorithm on the same stream, are ordered like the probabilities and bounded by the extreme samples. The interpolated quantile at any probability inside the list equals the documented linear or quadratic interpolation between neighbouring estimates, hits the estimates at the listed probabilities, and a probability outside the list is answered as documented.',
  ['inputs', 'histories', 'configurations'], 'every increasing list of probabilities, every stream with at least 2m+3 samples, every requested probability',
  'The tests use one fixed list of probabilities on long random streams with loose tolerance.',
  [S + f for f in ('extended_p_square.hpp', 'weighted_extended_p_square.hpp', 'extended_p_square_quantile.hpp')], [('markers and desired positions', S + 'extended_p_square.hpp'), ('interpolation', S + 'extended_p_square_quantile.hpp')], ['extended_p_square, quantile extractors'],
  'differential property-based testing against an independent implementation of the published algorithm', 'independent reference implementation; interpolation recomputed from the extracted grid')
p('P11', 'The streaming cumulative distribution follows its algorithm and is monotone',
  'The streaming (P-square) cumulative distribution with B cells, weighted or not, equals the published equiprobable-cell algorithm on the same stream: B+1 pairs whose heights and probabilities ascend from the smallest to the largest sample and from about zero to one. The median derived from it is the point where the reported piecewise linear distribution crosses one half.',
  ['inputs', 'histories', 'configurations'], 'every number of cells, every stream longer than the number of cells, positive weights',
  'The tests look at one cell count on long random streams with loose tolerance.',
  [S + f for f in ('p_square_cumul_dist.hpp', 'weighted_p_square_cumul_dist.hpp', 'median.hpp', 'weighted_median.hpp')], [('cell markers', S + 'p_square_cumul_dist.hpp'), ('median by interpolation', S + 'median.hpp')], ['p_square_cumulative_distribution, with_p_square_cumulative_distribution_median'],
  'differential property-based testing against an independent implementation of the published algorithm', 'independent reference implementation and monotonicity invariants')
p('P12', 'The density histogram accounts for every sample exactly once',
  'Once the cache is filled, the density lists underflow bin, N equal bins spanning the cached samples and overflow bin; every bin holds the fraction of samples (or weight) that fell into its interval, and the fractions sum to one. The median derived from the density is the interpolated point where the cumulated fractions first reach one half, for every histogram shape.',
  ['inputs', 'histories', 'configurations'], 'every cache size, number of bins and stream at least as long as the cache, ties at bin edges, later samples outside the initial range, positive weights',
  'The tests use one configuration on long normal random streams.',
  [S + f for f in ('density.hpp', 'weighted_density.hpp', 'median.hpp', 'weighted_median.hpp')], [('bins fixed from the cached samples', S + 'density.hpp, weighted_density.hpp'), ('median from the bins', S + 'median.hpp, weighted_median.hpp')], ['density, with_density_median extractors'],
  'model-based testing against a direct histogram', 'direct recount of all samples into the reported bin edges; equality with the model edges')
p('P13', 'Peaks over threshold: the Pareto fit follows from the excesses',
  'The fit parameters, quantile and tail mean of the peaks-over-threshold method equal the method-of-moments generalized Pareto fit to exactly the samples beyond the threshold (given as a value, or as a probability of the cached tail), for both tails, weighted or not, for integer and floating-point samples of any size. Asking for results at any moment and going on does not change later answers.',
  ['inputs', 'histories', 'configurations'], 'every stream with samples beyond the threshold, every threshold, both sides, positive weights, any interleaving of extraction',
  'The tests fit one fixed random data set and extract once.',
  [S + f for f in ('peaks_over_threshold.hpp', 'weighted_peaks_over_threshold.hpp', 'pot_quantile.hpp', 'pot_tail_mean.hpp')], [('running sums of the excesses', S + 'peaks_over_threshold.hpp')], ['fit parameters, quantile, tail_mean extractors'],
  'property-based testing against a direct fit in long double', 'direct fit of the excesses; ill-conditioned fits skipped by a derived condition estimate and counted')
p('P14', 'Extracting results is a pure observation',
  'Extracting any result, any number of times, at any moments and in any order, never changes any other or later result of the set: two sets fed the same stream agree exactly, whether or not one of them was asked questions on the way. Extracting twice in a row gives the same answer.',
  ['histories', 'inputs'], 'every statistic of the library, every interleaving of pushes and extractions',
  'The tests extract each result once, at the end, so state destroyed or cached by an extraction is never noticed.',
  [S + f for f in ('median.hpp', 'peaks_over_threshold.hpp', 'density.hpp', 'tail.hpp', 'extended_p_square_quantile.hpp', 'p_square_cumul_dist.hpp', 'weighted_median.hpp')] + [F + 'extractor.hpp'], [('caches refreshed by dirty flags', S + 'density.hpp, median.hpp, peaks_over_threshold.hpp, p_square_cumul_dist.hpp'), ('const extraction', F + 'accumulator_set.hpp')], ['all extractors'],
  'stateful differential property-based testing (questioned set against silent twin)', 'twin sets over all features of the library, exact comparison')
p('P15', 'Copies and assignments are independent and complete',
  'A copy of a set, or a set assigned from another (including itself, including one with another configuration), gives exactly the same results as the original now and after the same further samples. From then on neither influences the other, even when the source is destroyed. Moving a set or swapping two sets carries everything over as well, and a set moved from can be destroyed or assigned to.',
  ['histories', 'inputs', 'configurations'], 'every statistic of the library, every history of pushes, copies, assignments, swaps and destructions in a population of sets',
  'The tests hardly copy sets with state at all.',
  [F + 'accumulator_set.hpp', S + 'rolling_window.hpp', S + 'tail.hpp', S + 'tail_variate.hpp', S + 'density.hpp', S + 'extended_p_square.hpp'], [('copy construction of each accumulator', F + 'accumulator_set.hpp, depends_on.hpp'), ('ranges into the own storage', S + 'tail.hpp, rolling_window.hpp, density.hpp')], ['all extractors of all sets in the population'],
  'stateful model-based testing (population of sets, each with the list of inputs it must have seen)', 'replayed fresh sets as oracle, exact comparison, address sanitizer for dangling references')
p('P16', 'A set restored from an archive continues as the original',
  'A set written to a text or binary archive at any moment of its life and read back into a set built with the same parameters (new, or with a past of its own) gives the same results as the original, now and after any further samples given to both. Writing an archive does not change the set.',
  ['histories', 'crash_points', 'inputs'], 'every statistic of the library that can be archived, every save point, every continuation, archives holding several sets',
  'The tests save and reload a set once at its end and check one result.',
  [F + 'accumulator_set.hpp', F + 'accumulator_base.hpp', S + 'rolling_window.hpp', S + 'tail.hpp', S + 'tail_variate.hpp', S + 'density.hpp', S + 'p_square_quantile.hpp', S + 'extended_p_square.hpp', S + 'peaks_over_threshold.hpp', S + 'weighted_peaks_over_threshold.hpp'], [('serialize member of each accumulator', S + '*.hpp'), ('visit all accumulators in order', F + 'accumulator_set.hpp')], ['all extractors after loading and after further samples'],
  'stateful round-trip property-based testing', 'save at random points, load into fresh or used sets, continue both, exact comparison')
p('P17', 'Dropping a statistic freezes it and only what nobody else needs',
  'A droppable statistic behaves exactly like the plain one until it is dropped. At the drop it is told once; from then on what it has accumulated stays as it was at that moment, and so does every dependency that no remaining statistic needs (a result computed at extraction from statistics that go on keeps following them, unless the statistic caches its result, which then stays). Everything that is still requested or needed keeps being updated exactly once per sample.',
  ['histories', 'programs'], 'every dependency graph of droppable and ordinary statistics, every order of pushes and drops',
  'The tests drop in two fixed sequences on two small sets.',
  [F + 'accumulators/droppable_accumulator.hpp', F + 'accumulator_set.hpp'], [('reference counts of accumulators', F + 'accumulators/droppable_accumulator.hpp'), ('adding and dropping references of dependencies', F + 'accumulator_set.hpp')], ['results and update counts after each push'],
  'stateful model-based testing over dependency graphs of user-defined statistics', 'reference model of requested/needed statistics; update counts and drop notifications compared after every operation; every family of library statistics made droppable against the same set without droppable')
p('P18', 'A set contains what it needs once and updates it in dependency order',
  'Whatever combination of statistics is requested, in whatever order, with default, alternative or weighted implementations, the set contains each requested statistic and everything it depends on exactly once. With every sample each of them is set up and updated exactly once and after everything it depends on, and its results are the same as in a set of its own. Visiting the accumulators, all of them or those a predicate selects, meets each exactly once in that order, and looking one up by its statistic finds the very accumulator that gives the results.',
  ['programs', 'configurations', 'inputs'], 'every dependency graph with default, alternative and weighted implementations, every list of requested statistics, weighted and unweighted sets',
  'The tests build sets of one to four statistics in one order each.',
  [F + 'depends_on.hpp', F + 'accumulator_set.hpp', F + 'features.hpp', S + 'stats.hpp'], [('dependency collection and sort', F + 'depends_on.hpp'), ('visiting the accumulators in order', F + 'accumulator_set.hpp')], ['results and update order of instrumented user-defined statistics; library statistics against singleton sets'],
  'property-based testing over generated programs (random dependency graphs and feature lists at compile time) and streams', '40 random graphs and 24 random library combinations, each weighted and unweighted, instantiated at compile time and looked into with visitors and lookups; construction order is a known finding')
p('P19', 'External and referenced statistics are read where they live, at extraction',
  'A statistic declared external to a set is taken from the other set named or referenced by the user, with the state that set has at the moment of extraction; values and references stored in a set are returned as given, a reference always showing the current value of its target. Sets sharing one external accumulation of the weights give the same results as sets that accumulate the weights themselves.',
  ['histories', 'programs'], 'every interleaving of pushes into both sets and extractions, any number of sharing sets, copies of the referring set',
  'The tests extract twice from one pair of sets.',
  [F + 'accumulators/external_accumulator.hpp', F + 'accumulators/reference_accumulator.hpp', F + 'accumulators/value_accumulator.hpp', F + 'external.hpp', F + 'depends_on.hpp'], [('extraction forwarded to the named set', F + 'accumulators/external_accumulator.hpp')], ['extractors with a named external set'],
  'stateful model-based testing', 'reference results computed from the recorded streams of both sets')
p('P20', 'Numeric function objects are the infix operators, element by element',
  'Every numeric function object gives what the infix operator gives on its operands, for scalars, complex numbers, vectors and arrays (element by element, mixed with scalars), assignment forms modify exactly their left operand, and division meant to be fractional never truncates integers. Limits, zero and one of a value have its shape, and user-defined types can substitute their own meaning of an operation.',
  ['inputs', 'configurations'], 'all operand types in all supported combinations and all values and lengths',
  'There are no tests of the sub-library itself beyond two small container tests.',
  [N + 'functional.hpp', N + 'functional_fwd.hpp', N + 'functional/vector.hpp', N + 'functional/valarray.hpp', N + 'functional/complex.hpp', N + 'detail/function1.hpp', N + 'detail/function2.hpp'], [('tag dispatch by operand type', N + 'functional.hpp')], ['results of the function objects'],
  'property-based testing against the built-in operators', 'generated operands; reference loops over the elements')
p('P21', 'Statistics of vectors are the statistics of their components',
  'For samples with several components (vectors and numeric arrays), every statistic available for them equals, component by component, the statistic of that component alone, weighted or not, for every dimension; for complex samples linear statistics and moments follow their definitions. Passing a sample, or the initial value, as a variable or as a temporary, by position or by name, makes no difference.',
  ['inputs', 'histories'], 'every dimension from 0, every stream, integer and floating-point components, weights, windows',
  'Two tests check one fixed stream of two-component samples.',
  [N + 'functional/vector.hpp', N + 'functional/valarray.hpp', N + 'functional/complex.hpp', S + 'sum.hpp', S + 'mean.hpp', S + 'variance.hpp', S + 'covariance.hpp', S + 'rolling_sum.hpp'], [('numeric operators on containers', N + 'functional/*.hpp'), ('initial value taken from the named argument', S + 'sum.hpp, moment.hpp')], ['extractors of the container-valued sets'],
  'differential property-based testing (container set against one scalar set per component)', 'one scalar set per component as oracle; dimensions 0 to 65')
p('P22', 'Every spelling of the same request gives the same result',
  'Results do not depend on how a request is written: samples, weights and variates by position or name and in any order; results through the named function, the generic extraction function, an extractor object or an argument pack; statistics listed in any order, repeated, as any kind of list, by name with options, or with their errors; extractors made by the user like those of the library. Every named argument of construction, accumulation and extraction reaches every accumulator under its own name, whatever the number and order of arguments, an initial value given to the constructor starts the sums and nothing else, and a value may be passed in any arithmetic type that holds it: results are as if it had been passed in the type of the set. Pushing a range with a standard algorithm equals pushing its elements.',
  ['programs', 'inputs', 'configurations'], 'all spellings, up to thirteen further named arguments in several orders, all streams',
  'Each test uses one spelling with one or two named arguments.',
  [F + 'accumulator_set.hpp', F + 'extractor.hpp', F + 'features.hpp', S + 'stats.hpp', F + 'accumulators/value_accumulator.hpp', F + 'parameters/sample.hpp', F + 'parameters/weight.hpp'], [('overloads for each number of arguments', F + 'accumulator_set.hpp, extractor.hpp'), ('feature aliases', F + 'depends_on.hpp')], ['extractors; argument packs seen by an instrumented statistic'],
  'property-based testing: differential between spellings, echo statistic as oracle', 'instrumented statistic records every argument it sees; spelling variants compared exactly; 32 sets fed int, unsigned, short, long long and float values against the same values as double')
p('P23', 'The memory of a set is fixed by its configuration',
  'The memory a set occupies is determined by its configuration (sizes of caches, windows, bins and lists of probabilities, dimension of the samples), not by the stream: once the configured storage is full, further samples, extractions, copies, assignments and archives do not make it grow, however many there are. When the sets of a history are destroyed, all memory they took is given back, results cached at a drop included.',
  ['histories', 'inputs', 'configurations'], 'every statistic of the library, streams of any length and shape, every interleaving of samples with extractions, copies, assignments, archives, drops and destructions',
  'Results do not show what a set keeps; the tests push at most some thousand samples and never look at memory.',
  [S + 'density.hpp', S + 'weighted_density.hpp', S + 'tail.hpp', S + 'tail_variate.hpp', S + 'rolling_window.hpp', F + 'accumulators/droppable_accumulator.hpp', F + 'accumulator_set.hpp'], [('caches and windows', S + 'tail.hpp, rolling_window.hpp, density.hpp'), ('cached results', F + 'accumulators/droppable_accumulator.hpp')], ['bytes allocated and not given back, counted in operator new and delete'],
  'stateful property-based testing with counting allocation functions', 'bytes held after the storage is full bound those held after up to 12000 more samples (twice that plus 4096); a repeated life of a set leaves exactly nothing behind')
p('P24', 'Sets in different threads do not interfere',
  'Sets have no hidden state in common, constants aside: different sets, of the same or different types, new or copied from one common ancestor that is left alone, can be constructed, fed, asked, copied and destroyed in different threads at the same time without any synchronization, free of data races, and every thread gets exactly the results of the same work done alone.',
  ['schedules', 'histories', 'configurations'], 'every statistic of the library, two or more threads with their own streams, configurations, questions and copies',
  'The tests are single-threaded, and state shared by mistake gives right results there.',
  [F + 'accumulator_set.hpp', N + 'functional/vector.hpp', S + 'tail.hpp', S + 'p_square_quantile.hpp', S + 'density.hpp', S + 'rolling_window.hpp'], [('all state is in the members of the accumulators', S + '*.hpp'), ('constants and extractors at namespace scope', F + 'extractor.hpp, ' + N + 'functional.hpp')], ['reports of the thread sanitizer; all results of every thread'],
  'property-based testing of concurrent histories under a race detector', 'generated work for 2 to 3 threads run concurrently under the thread sanitizer (happens-before, so the actual schedule hardly matters), then alone; exact comparison')
p('P25', 'Results follow the units of measurement',
  'Results do not depend on the unit the inputs are measured in: samples (with the thresholds given for them), variates and weights multiplied by a factor each give results multiplied by the corresponding powers of the factors - means, quantiles, tails, bins and windows by the factor, variances by its square, ratios, fractions and counts unchanged, weighted means unchanged by the unit of the weights - for factors of any size within the range of the type. The streaming (P-square) estimates of weighted sets, where a weight of one is one step, are excepted as to the weights only.',
  ['inputs', 'configurations'], 'every statistic of the library over floating-point samples, factors between 2^-60 and 2^60 on samples, variates and weights independently',
  'The tests use numbers near one; an absolute tolerance or constant hidden in the code shows only for very small or very large numbers.',
  [S + 'variance.hpp', S + 'skewness.hpp', S + 'kurtosis.hpp', S + 'density.hpp', S + 'tail_mean.hpp', S + 'p_square_quantile.hpp', S + 'rolling_variance.hpp', S + 'weighted_mean.hpp', S + 'weighted_variance.hpp', S + 'peaks_over_threshold.hpp'], [('every formula is homogeneous', S + '*.hpp')], ['all results of two sets fed the same stream in two units'],
  'metamorphic property-based testing', 'multiplication by powers of two is exact, so the two runs round alike; comparison to 1e-9 and a rounding allowance')
p('P26', 'A failed operation leaks nothing and changes nothing else',
  'When an operation fails for want of memory, or an archive ends early, everything allocated on the way is given back and other sets are unaffected: a failed construction leaves nothing, a failed copy, assignment or writing of an archive leaves the source as it was, a failed question changes no result and can be repeated, a failed drop has not happened and can be repeated, and a set that failed to take a sample, an assignment or an archive can be destroyed, or assigned to and is then exactly what it was assigned.',
  ['fault_sequences', 'histories', 'configurations'], 'every statistic of the library that allocates, an allocation failing at any point of a construction, copy, assignment, question, sample, drop, writing or reading of an archive; an archive cut at any point',
  'No test lets an allocation fail.',
  [F + 'accumulator_set.hpp', F + 'accumulators/droppable_accumulator.hpp', S + 'tail_variate_means.hpp', S + 'rolling_window.hpp', S + 'tail.hpp', S + 'tail_variate.hpp', S + 'density.hpp'], [('caches of results', S + 'density.hpp, tail_variate_means.hpp'), ('drops with cached results', F + 'accumulators/droppable_accumulator.hpp'), ('copies', S + 'rolling_window.hpp, tail.hpp')], ['all results of the surviving sets; bytes allocated and not given back'],
  'stateful property-based testing with injected faults', 'operator new told to fail at the n-th call (0..49) of one operation; a twin that never failed gives the expected results, exact; the count of live bytes returns to where it was')
p('P27', 'Compensated sums survive relaxed floating-point optimisation',
  'The compensated (Kahan) sums - of samples, variates, weights, and weighted - keep their error bound (a few machine epsilons times the sum of magnitudes, independent of the number of samples) in programs built by g++ with relaxed floating-point rules (-ffast-math, -funsafe-math-optimizations) at any optimisation level, for finite terms, and when the set is copied or assigned in the middle of the stream.',
  ['inputs', 'configurations'], 'float and double samples, streams of up to 70000 terms on which naive summation loses, four combinations of optimisation options',
  'The tests are built with strict rules, where nothing needs to be guarded.',
  [S + 'sum_kahan.hpp', S + 'weighted_sum_kahan.hpp'], [('the addition is guarded against reassociation', S + 'sum_kahan.hpp, weighted_sum_kahan.hpp')], ['the sums reported by code built with relaxed rules'],
  'property-based testing of differently optimised builds', 'sums computed by separately optimised copies of the library against the exact sum in quadruple precision')
if __name__ == '__main__':
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for x in P:
            f.write(json.dumps({k: v for k, v in x.items() if k not in ('technique', 'note')}) + '\n')
    m = dict(version=1, setup_cmd='python3 /verif/setup.py', checks=[dict(property=x['id'], quick_cmd='python3 /verif/run.py %s quick' % x['id'], thorough_cmd='python3 /verif/run.py %s thorough' % x['id'],
        evidence_file='evidence/%s.json' % x['id'], technique=x['technique'], level='exploration',
        level_note='Generated-input search, not a proof: ' + x['note'] + ('. Built with the thread sanitizer from' if x['id'] == 'P24' else '. Built with address and undefined-behaviour sanitizers from') + ' the working tree; failures are shrunk and confirmed by replay before they are reported.') for x in P],
        not_applicable=[], notes='No hooks in /repo. Repairs of defects found are separate fix: commits in /repo, listed in known_findings.txt.')
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
