import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or ["public call boundary: arguments in, returned distribution out"],hook_needed=hook)))
M="conjugate/models.py";D="conjugate/distributions.py";PL="conjugate/plot.py";S="conjugate/slice.py";BG="conjugate/_beta_geometric.py";CG="conjugate/_compound_gamma.py"
p("C01","Discrete-data posteriors obey Bayes' rule",
 "For every discrete likelihood (Bernoulli, binomial, negative binomial, geometric starting at 1 or 0, hypergeometric, categorical, multinomial, Poisson), every valid prior and every valid data summary, the returned posterior is the one Bayes' rule gives: its density is proportional to the prior density times the likelihood of the data over the whole parameter space. It belongs to the same family as the prior.",
 ["inputs"],"all valid hyperparameters and data summaries: integers, floats, fractional and zero counts, boundary outcomes, tiny to huge values, scalars and broadcast arrays",
 "Most tests only check the type of the result or one hand-computed pair (bernoulli, negative binomial, hypergeometric); nothing relates the posterior to the likelihood, and no input but the sampled one is covered.",
 [M],[("conjugate update functions","models.py: binomial_beta, bernoulli_beta, negative_binomial_beta, hypergeometric_beta_binomial, geometric_beta, categorical_dirichlet, multinomial_dirichlet, poisson_gamma")])
p("C02","Positive-data posteriors obey Bayes' rule",
 "For the exponential, gamma with known shape, inverse gamma with known shape, Pareto with known minimum, uniform with unknown upper end, and Weibull with known shape likelihoods, every valid prior and every valid data summary, the posterior density is proportional to the prior density times the likelihood over the whole parameter space, including where it is zero (no upper end below the largest observation).",
 ["inputs"],"all valid hyperparameters, known parameters and data summaries, scalar and broadcast",
 "The tests assert result types, and values for one Pareto and one uniform data set; the other models could return any parameters.",
 [M],[("conjugate update functions","models.py: exponential_gamma, gamma_known_shape, inverse_gamma_known_rate, pareto_gamma, uniform_pareto, weibull_inverse_gamma_known_shape")])
p("C03","Normal and log-normal posteriors obey Bayes' rule",
 "For a normal likelihood with known variance, known precision, known mean or nothing known, and for a log-normal likelihood, with each supported prior (normal; inverse gamma or scaled inverse chi squared; normal inverse gamma or normal gamma), the posterior is in the prior's family and its (joint) density is proportional to the prior density times the likelihood of the data.",
 ["inputs"],"all valid priors and sufficient statistics, including no observations, one observation, data far from the prior mean and vectors",
 "Tests check types and that log density improves for one simulated data set; a wrong cross term, weight or factor of two passes.",
 [M,D],[("update of the joint posterior","models.py: _normal, normal, log_normal"),("known parameter updates","models.py: normal_known_variance, normal_known_precision, normal_known_mean")])
p("C04","Linear regression posterior and predictive are exact",
 "For any design matrix (tall, wide, rank deficient, empty), response and normal inverse gamma prior, the linear regression posterior over coefficients and noise variance has a joint density proportional to the prior density times the Gaussian likelihood. The predictive distribution for any new design matrix is the distribution of new responses implied by that posterior, including the correlation between new responses.",
 ["inputs"],"all design matrices, responses, priors with any positive definite covariance, any number of coefficients and new rows",
 "One two-coefficient simulated regression with a diagonal prior is tested for 95% coverage of the truth and for the type of the predictive.",
 [M],[("regression update","models.py: linear_regression"),("regression predictive","models.py: linear_regression_predictive")])
p("C05","Multivariate normal posteriors obey Bayes' rule",
 "For multivariate normal data with known covariance, known precision, known mean, or neither known, with the multivariate normal, inverse Wishart and normal inverse Wishart priors, the posterior density is proportional to the prior density times the likelihood, and its matrix parameters are symmetric positive definite.",
 ["inputs"],"all dimensions, sample sizes (also smaller than the dimension), correlated covariances, off-centre priors",
 "Tests use identity covariances, zero means and check types, so asymmetric or misplaced terms vanish.",
 [M],[("multivariate updates","models.py: _multivariate_normal_known_precision, multivariate_normal_known_covariance, multivariate_normal_known_precision, multivariate_normal_known_mean, multivariate_normal")])
p("C06","Unnormalised posteriors carry the exact likelihood",
 "For the models whose conjugate prior is only known up to a constant or in non-standard form (gamma with known rate, gamma with both parameters unknown, beta with both unknown, von Mises with known concentration or known direction), the log likelihood function offered by the prior and by the posterior differ by the log likelihood of the data, up to a constant, at every parameter value; and each equals its documented kernel.",
 ["inputs"],"all valid hyperparameters, data sets and parameter values, scalar and vector",
 "Tests only check the type of the returned object (the von Mises models are not tested at all); the log likelihood functions are never called.",
 [M,D],[("hyperparameter updates","models.py: gamma, gamma_known_rate, beta, von_mises_known_concentration, von_mises_known_direction"),("kernels","distributions.py: approx_log_likelihood / log_likelihood methods")])
p("C07","Discrete predictives equal the marginal likelihood",
 "For each discrete likelihood with a predictive (binomial, Bernoulli, negative binomial, geometric with either start, categorical, multinomial, Poisson over any length of time), the probabilities of the returned predictive distribution are the likelihood averaged over the given prior or posterior, for every outcome, and they sum to one over the support.",
 ["inputs"],"all distributions over the parameter, numbers of trials or exposure (also fractional exposure), outcomes, scalar and vector",
 "Tests check the type of predictives or equality of one set of constructor arguments; probabilities are never compared to anything but themselves shifted.",
 [M,D,BG],[("predictive functions","models.py: *_predictive"),("beta geometric pmf","_beta_geometric.py")])
p("C08","Continuous predictives equal the marginal likelihood",
 "For each univariate continuous likelihood with a predictive (exponential, gamma with known shape, normal with known variance, precision or mean, normal with both unknown), the density and the distribution function of the returned predictive are those of the likelihood averaged over the given prior or posterior, at every point.",
 ["inputs"],"all distributions over the parameters (every supported family), known parameters and evaluation points, scalar and vector",
 "Tests check types only, apart from one comparison that the posterior predictive beats the prior predictive.",
 [M,D,CG],[("predictive functions","models.py: exponential_gamma_predictive, gamma_known_shape_predictive, normal_known_*_predictive, normal_predictive"),("compound gamma","_compound_gamma.py")])
p("C09","Multivariate predictives equal the marginal likelihood",
 "For multivariate normal data, the predictive under a multivariate normal (known covariance or precision) or normal inverse Wishart distribution has the density of the likelihood averaged over that distribution, at every point and in every dimension. Projecting it on any axis agrees with the univariate predictive.",
 ["inputs"],"all dimensions, correlated matrices, degrees of freedom, evaluation points",
 "Tests check types on identity matrices and one ordering of log densities.",
 [M],[("multivariate predictives","models.py: multivariate_normal_known_covariance_predictive, multivariate_normal_known_precision_predictive, multivariate_normal_predictive")])
p("C10","Incremental updating equals one update with all data",
 "For every model, feeding the data in any number of batches of any sizes in any order, each time using the posterior as the next prior, ends in the same posterior as a single update with all of it. A batch that is summarised by zero observations leaves the prior unchanged.",
 ["histories","inputs"],"all models, all partitions and orders of a data set, including empty and single-observation batches, scalar and vector",
 "Only an image test of one normal example runs three updates; no test compares incremental with batch results.",
 [M],[("posterior has the prior's type and accumulates sufficient statistics","models.py: every model function")],["sequence of model calls, each posterior fed back as the next prior"])
p("C11","Univariate distributions realise their documented parameters",
 "The scipy-like object behind every univariate distribution has the density or probability, distribution function, quantiles and moments (where it offers them) of the named distribution under its documented parametrisation (rates are rates, scales are scales, bounds are bounds, geometric counts start where asked), at every point, zero outside the support.",
 ["inputs"],"all valid parameters and evaluation points of the 24 univariate distributions, scalar and vector",
 "The tests plot the distributions and check that an Axes comes back; except for a few means no value is ever checked.",
 [D,BG,CG],[("dist properties","distributions.py: dist of each class"),("hand written distributions","_beta_geometric.py, _compound_gamma.py")],["values returned by the dist object"])
p("C12","Multivariate distributions realise their documented parameters",
 "The Dirichlet, multinomial, Dirichlet multinomial, multivariate normal, multivariate Student t, Wishart and inverse Wishart distributions evaluate to the density or probability of the named distribution under its documented parametrisation. Several multinomials (an array of numbers of trials) or a Dirichlet with a row of parameters per distribution have the probabilities, the mean and the samples of each row's distribution, and parameters given as lists work like arrays.",
 ["inputs"],"all dimensions, parameters, evaluation points",
 "Tests check shapes of means, and attributes passed through.",
 [D],[("dist properties","distributions.py: Dirichlet, VectorizedDist, Multinomial, DirichletMultinomial, MultivariateNormal, MultivariateStudentT, Wishart, InverseWishart")])
p("C13","Samples follow their distribution",
 "Independent draws from any univariate distribution follow that distribution's own probabilities, whatever the sample size or shape asked for, whatever kind of random state is passed (none, integer seed, generator), and for scalar as well as broadcast vector parameters; the sample has the requested shape.",
 ["inputs","schedules"],"all univariate distributions, parameters, sizes, kinds of random state and seeds",
 "Tests check the shape of a few samples; the hand-written samplers could return any numbers.",
 [D,BG,CG],[("rvs","scipy rvs behind dist, beta_geometric.rvs, compound_gamma.rvs, VectorizedDist.rvs")],["arrays of draws"])
p("C14","Joint samplers follow their hierarchical distribution",
 "Samples of variance and mean (or regression coefficients) from the normal inverse gamma (one- and multi-dimensional), normal gamma, normal inverse Wishart and normal Wishart distributions follow the documented hierarchy: the variance follows its marginal, the mean given the variance is normal around mu with that variance scaled by the precision parameter, draws are independent, and every entry point and kind of random state gives the same law and the documented shapes.",
 ["inputs","schedules"],"all parameters, dimensions, sample sizes from 1 up, kinds of random state, with and without the variance returned",
 "Tests check the shape of small samples, and quantiles for one linear regression posterior sampled from a generator.",
 [D],[("hierarchical samplers","distributions.py: sample_variance, sample_mean, sample_beta, _sample_beta_1d, _sample_beta_nd")],["arrays of draws of mean and variance"])
p("C15","Seeded sampling is reproducible and isolated",
 "With an explicit random state, sampling returns the same values every time for equal states, regardless of what was sampled before and of numpy's global random state, which it neither reads nor changes; different seeds give different samples, and a generator advances so that consecutive calls differ. Without one, sampling is governed by numpy's global seed.",
 ["histories","inputs"],"all samplers of all distributions, sequences of calls, kinds of random state",
 "Only the Dirichlet image tests depend on a seed; other samplers are never called twice with one.",
 [D,BG,CG],[("random_state plumbing","distributions.py, _beta_geometric.py, _compound_gamma.py: every rvs / sample_* call passes random_state on")],["draws and numpy's global random state before and after"])
p("C16","Vectorised inference equals element by element inference",
 "For every model and predictive, parameters and data may be any mix of scalars and arrays with broadcastable shapes, and element i of the result equals the result of the same call on the i-th elements alone; this also holds for the densities, probabilities, distribution functions and moments of the resulting distributions.",
 ["inputs"],"all models, predictives, broadcastable shape combinations (0-d to 3-d, length-one axes), which arguments are arrays",
 "Vector inputs are tried for the binomial and gamma models only, and results are plotted or type checked, not compared to scalar results.",
 [M,D],[("element-wise arithmetic in models; broadcasting in dist","models.py, distributions.py")])
p("C17","Concurrent use gives the serial results",
 "Any number of threads that share priors, posteriors and data, and run models, predictives, densities, slicing and seeded sampling at the same time in any interleaving, each get exactly the results they would get alone.",
 ["schedules"],"all interleavings of threads over shared distributions and data",
 "All tests run in a single thread.",
 [M,D,S],[("functions without shared mutable state","models.py, distributions.py, slice.py")],["results per thread compared with serial results"])
p("C18","Indexing selects the same elements of every parameter",
 "Indexing a vectorised univariate distribution by an integer, numpy integer, negative index, slice, list of indices or boolean mask gives a distribution of the same kind whose array parameters are those elements and whose scalar parameters and flags are unchanged, so its density is that subset of the original's; the original is unchanged. Parameters of different shapes are indexed as they broadcast, and several multinomials or Dirichlets by row. An index out of range raises an error rather than returning something else.",
 ["inputs"],"all sliceable univariate distributions, mixes of scalar and array parameters (numpy, lists, pandas), kinds of keys, chained indexing",
 "Tests index Beta and Geometric with 0 and :2 only.",
 [S,D],[("parameter slicing","slice.py: SliceMixin.__getitem__")])
p("C19","Indexing a multivariate distribution gives its marginal",
 "Indexing a multivariate normal or Student t by one coordinate (any integer type, also negative) gives the univariate marginal distribution of that coordinate, and by a slice, list or mask gives the joint marginal of those coordinates in that order, with the right density in every case.",
 ["inputs"],"all dimensions, correlated covariances, keys",
 "Tests use one 2x2 diagonal covariance with a unit leading entry, for which the square root and the entry coincide.",
 [D],[("multivariate indexing","distributions.py: MultivariateNormal.__getitem__, MultivariateStudentT.__getitem__")])
p("C20","Models work on anything that acts like numbers",
 "Models and predictives built from arithmetic accept arbitrary objects that implement arithmetic (symbolic expressions, SQL columns, fractions) for any mix of arguments, and evaluating the resulting expressions for concrete values gives the numbers the same call gives on those values.",
 ["inputs"],"all arithmetic models and predictives, which arguments are symbolic, values substituted; SQL evaluated by a real database",
 "The tests render the two expressions of the binomial update as text for one ordering.",
 [M],[("operators only, no numpy functions","models.py"),("number protocol","_typing.py")],["expression objects in, expression objects out, evaluated by an independent evaluator (sqlite for SQL)"])
p("C21","Data containers pass through with their labels",
 "pandas Series and other labelled arrays can be used for data and parameters: every element-wise model returns parameters in that container with the same labels and the values that plain arrays give, and the resulting distributions can be evaluated, indexed and plotted.",
 ["inputs"],"element-wise models and predictives, pandas Series with any index, xarray arrays, plain sequences for category counts, mixes with scalars",
 "No test passes a container other than a numpy array or a list of plot labels.",
 [M,D,S],[("operators only","models.py"),("bounds from counts","distributions.py: __post_init__")])
p("C22","Custom numerical functions replace the default ones",
 "Where a model, log likelihood or sampler lets the caller supply a numerical function (logarithm, log gamma, Bessel, trigonometric, maximum, matrix inverse, identity, outer product), every such operation of that call uses the supplied function and none falls back on numpy, so inputs numpy cannot handle work and the result is the formula computed with the supplied functions.",
 ["inputs","configurations"],"all functions with such arguments, supplied implementations (symbolic, exact rational, instrumented)",
 "No test passes any of these arguments.",
 [M,D],[("function-valued arguments","models.py: ln, max_fn, inv, eye, outer, sin, cos, arctan2; distributions.py: ln, gammaln, i0, cos, inv")],["calls received by the supplied functions, and results"])
p("C23","No side effects, and distributions stay live",
 "No call (model, predictive, density, sampling, indexing, arithmetic, plotting) changes its arguments, the distribution it is called on, or the data, and results depend on the current arguments only, not on earlier calls. Changing a parameter of a distribution is reflected by everything computed from it afterwards, and changing the data or prior arrays after an update does not alter a posterior already returned.",
 ["histories","inputs"],"all public operations, in any order and repetition, with mutable arguments",
 "Tests never compare arguments before and after a call nor repeat a call after mutating something.",
 [M,D,PL,S],[("new objects from pure arithmetic; dist built on access","models.py, distributions.py")],["deep fingerprints of all arguments before and after each call; results of repeated calls"])
p("C24","Wrong prior or distribution types are rejected",
 "Every model and predictive that is given a distribution of a kind it does not support, something that is not a distribution, or none at all, raises a ValueError naming the argument and the type received before computing anything; every supported kind, and subclasses of it, are accepted. A normal inverse gamma with neither or both of its two precision forms, or without the one a model needs, is refused with a ValueError too.",
 ["inputs"],"all models and predictives times all distribution kinds and foreign values",
 "Two functions are tested with one wrong type each; models with several supported kinds never.",
 [M],[("type validation decorators","models.py: validate_type, validate_prior_type, validate_distribution_type")])
p("C25","Alternative constructors and conversions are consistent",
 "Each alternative constructor and conversion (from mean and alpha, successes and failures, occurrences in intervals, mean and variance or precision, uninformative, from or to inverse gamma, inverse Wishart) gives the distribution its arguments describe: the implied quantity read back from the result equals what was passed in, and round trips return the original parameters and the same density.",
 ["inputs"],"all arguments, scalar and vector, of all alternative constructors and conversions",
 "Tests use one or two values each, mostly ones for which different parametrisations coincide (1, or 1/4 and 2).",
 [D],[("classmethods and conversions","distributions.py")])
p("C26","Equivalent routes through the library agree",
 "Models that describe the same situation agree in their posteriors and predictives: Bernoulli and one-trial binomial, geometric and one-failure negative binomial, categorical and multinomial, exponential and gamma with shape one, precision and variance or covariance forms, inverse gamma and scaled inverse chi squared, normal gamma and normal inverse gamma, log-normal and normal on logs, one-dimensional multivariate and univariate, intercept-only regression and normal; deprecated functions warn and return what their replacement does.",
 ["inputs","programs"],"all pairs of equivalent routes, all inputs",
 "No test compares two models with each other; deprecated functions are only checked to warn.",
 [M,D],[("delegation between models","models.py")])
p("C27","Distribution arithmetic follows probability",
 "Multiplying a Poisson, gamma, exponential, negative binomial or normal distribution by a number k, from either side, gives the distribution of the sum of k independent copies (of the count in a k times longer period for Poisson), and adding two Poisson distributions gives the distribution of the sum of the two independent counts; operands are unchanged and vectors work element by element.",
 ["inputs"],"all parameters and multipliers (integer, fractional where defined), both operand orders, nested expressions",
 "Each operation is tested at unit parameters with the multiplier 2 or 4, where several wrong formulas coincide.",
 [D],[("operators","distributions.py: __mul__, __rmul__, __add__, __radd__")])
p("C28","Plots show the distribution",
 "Every density, probability and distribution function plot draws one line per distribution whose points are the true values of that distribution's function at x positions that cover exactly the requested bounds (all integers between them for discrete distributions), on the axes given or else the current ones, which are returned, labelled with the function shown and starting at zero; without an upper bound and no natural one it raises a ValueError. The same distribution plotted again, elsewhere or with other bounds, shows the same function.",
 ["inputs","histories"],"all plottable distributions, scalar and vector parameters, bounds set by any of the setters in any order, given or current axes, polar axes",
 "Image tests cover five distributions at fixed parameters; the rest only check that an Axes is returned.",
 [PL,D],[("plotting mixins","plot.py: _create_x_values, _reshape_x_values, _create_plot_on_axis, set_bounds")],["line data of the returned Axes"])
p("C29","Conditional plots are normalised per distribution",
 "With conditional plotting of a discrete distribution, each line shows the probability of each value given that the value lies within the bounds: the drawn probabilities of each distribution sum to one and are in the ratio of the unconditional ones; the conditional distribution function ends at one.",
 ["inputs"],"all discrete distributions, bounds, scalar and vector parameters",
 "Two image tests at one binomial distribution and one pair of bounds; vector parameters are not tried.",
 [PL],[("conditional branch","plot.py: DiscretePlotMixin._create_plot_on_axis")],["line data of the returned Axes"])
p("C30","Labels, colours and line options reach the right lines",
 "In plots, a string label is used as is for one line and numbered from 1 for several; a sequence labels the lines in order; a callable is called with each line's position from 0; no label leaves lines out of the legend. A sequence of colours colours the lines in order, one colour colours all of them without affecting later plots on the axes, and other options are applied to every line.",
 ["inputs","histories"],"label kinds, colour kinds, numbers of lines, continuous, discrete and Dirichlet plots, several plots on the same axes",
 "Images for a few combinations; a callable label or a single colour is not tested on single distributions.",
 [PL],[("label resolution and colour cycle","plot.py: resolve_label, label_to_iterable")],["artists of the returned Axes"])
p("C31","Posteriors stay valid over long histories",
 "Starting from any valid prior, including vague ones, after any long sequence of updates with valid data every posterior and predictive has valid, finite parameters (positive shapes, rates, scales and degrees of freedom, symmetric positive definite matrices, probabilities within bounds), the accumulated observation count never decreases, and it remains usable: densities are finite and samplers work.",
 ["histories","inputs"],"long random update sequences over all models including extreme but valid data",
 "Tests apply at most one update (three in one image).",
 [M,D],[("accumulating updates","models.py")],["each posterior and predictive in the sequence"])
p("C32","Inference is calibrated from end to end",
 "If parameters are drawn from a prior and data from the library's own likelihood distribution with those parameters, then the posterior's distribution function at the true parameter is uniformly distributed, and so is the posterior predictive's distribution function at a further draw, for every model for which the library provides the pieces.",
 ["inputs","programs"],"all chains prior, likelihood distribution, model, predictive; priors, sample sizes, replicated data sets",
 "No test runs more than one simulated data set or checks a distribution over repetitions.",
 [M,D,BG,CG],[("agreement of parametrisation between distributions and models","models.py, distributions.py")],["rank statistics of true parameters and new data over replications"])
p("C33","Large evidence does not break the results",
 "With very large or very small (but representable) counts, totals and hyperparameters, posteriors and predictives remain accurate: probabilities, densities and means of samples of predictives are finite, non-negative and agree with a high-precision reference, and no intermediate underflow or overflow turns them into zero, infinity or nan.",
 ["inputs"],"hyperparameters and counts over many orders of magnitude, outcomes in the bulk of the predictive",
 "All test data sets have at most 100 observations.",
 [M,D,BG,CG],[("closed forms and log-space evaluation","_beta_geometric.py, _compound_gamma.py, scipy distributions")])
p("C34","Distributions survive copying and serialisation",
 "Copying, deep copying or pickling any distribution gives one with equal parameters, density and plotting bounds (also bounds that were set), and rebuilding it from its parameters one with equal parameters, density and natural bounds; all of them behave identically in models, and for scalar parameters equality and representation reflect the parameters.",
 ["inputs","histories"],"all distribution classes, scalar and array parameters, before and after plotting bounds are set, as priors of further updates",
 "Not tested.",
 [D,S,PL],[("dataclasses","distributions.py; slice.py: params")])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
print(len(P))
