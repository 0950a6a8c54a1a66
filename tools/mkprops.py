#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the JSON stays valid)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=list(over),text=qtext),
      why_tests_cant=why,anchors=dict(files=["src/bayesbay/"+f for f in files],state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where="src/bayesbay/"+b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
PR="prior/_prior.py";PS="parameterization/_parameter_space.py";DI="discretization/_discretization.py";VO="discretization/_voronoi.py"
ST="_state.py";MC="_markov_chain.py";LL="likelihood/_log_likelihood.py";TA="likelihood/_target.py";SA="samplers/_samplers.py";BI="_bayes_inversion.py"
PY="_utils_1d.pyx";PA="parameterization/_parameterization.py"
PB="perturbations/_birth_death.py";PV="perturbations/_param_values.py";PP="perturbations/_param_space.py";PN="perturbations/_data_noise.py"
SCR="The tests are scripts that draw histograms for a few fixed configurations and assert nothing about this; "

p("C01","Prior densities and the prior ratio of a value perturbation",
 "The log prior that a uniform, Gaussian, Laplace or custom prior reports for any value and position is exactly the logarithm of its documented density (minus infinity outside a uniform prior's bounds, the user's function for a custom prior). Perturbing a value adds one zero-mean normal draw with the prior's standard deviation for that position (the birth one for a birth) and returns as log ratio the log prior of the new value minus that of the old value at the same position, minus infinity when a uniform value leaves its bounds. The joint log prior of a parameter space is the sum of the log priors of all its values, nested spaces included.",
 ["inputs","configurations"],"every value, position, hyper-parameter (scalar or position-dependent) and random draw, every number of parameters and dimensions",
 SCR+"a wrong factor or sign shifts the sampled distribution slightly for most inputs and fails no script.",
 [PR,PS],[("UniformPrior/GaussianPrior/LaplacePrior/CustomPrior.log_prior and perturb_value",PR),("ParameterSpace.log_prior",PS)],
 observe=["value returned by log_prior","pair returned by perturb_value"])
p("C02","Birth and death return the exact trans-dimensional ratio",
 "A birth or death in a plain parameter space, or with newborn values drawn from the prior, returns log ratio zero. When newborn values come from the nearest neighbour, a birth returns the sum, over every newborn scalar value including those of nested discretizations, of its log prior minus the log density of the normal proposal centred on the value at the nearest existing site, and a death returns exactly minus what the birth that would recreate the removed cell returns. At the largest (smallest) allowed number of dimensions a birth (death) returns minus infinity.",
 ["inputs","configurations"],"every state, birth mode, number and kind of parameters, nesting and random draw",
 SCR+"the ratio is never compared with the densities it stands for, and nested neighbour births are not exercised with mixed parameters.",
 [PS,DI,VO,PR],[("ParameterSpace.birth/death",PS),("_initialize_newborn_params, _sample_from_neighbour, _log_prob_death_parameters, _log_prob_death_ps_state",DI),("Voronoi.birth/death/log_prob_initialize_discretization",VO)],
 observe=["second item of the pair returned by birth/death"])
p("C03","Moving a Voronoi site is a symmetric, correctly weighted proposal",
 "Moving a site proposes the old position plus one zero-mean normal draw per coordinate with the configured standard deviation; a position outside the domain (bounds, or polygon in 2-D) gets log ratio minus infinity instead of being redrawn. Otherwise the log ratio is the sum, over the scalar parameters whose prior depends on position, of the log prior of the moved cell's value at the new position minus that at the old one. No value changes and no other site moves.",
 ["inputs","configurations"],"every tessellation, site index, draw, domain and mix of position-dependent and independent parameters, in 1-D and 2-D",
 SCR+"redrawing until inside, or a missing prior ratio, only biases samples near the boundary.",
 [VO,DI,PV],[("Voronoi.perturb_value, _perturb_site, _is_in_domain",VO),("ParamPerturbation.perturb_param_space_state",PV)],
 observe=["pair returned by perturb_value"])
p("C04","Births, deaths and value moves keep every parameter the same length",
 "After initialization, sampling, birth, death or a value perturbation, every parameter of a parameter space (the discretization and nested states included) has exactly as many entries as the reported number of dimensions, and that number is in the allowed range. A birth inserts one new entry and a death removes one, at the same index for every parameter, and all other entries keep their value and order. A value perturbation changes one index only, the same for every parameter it perturbs.",
 ["inputs","histories","configurations"],"every parameter space, state with consistent lengths, index and random draw; by induction every history of these operations",
 SCR+"lengths are only checked by the state constructor, which cannot see a misaligned index.",
 [PS,VO,DI,PV,ST,PY],[("ParameterSpace.initialize/sample/birth/death",PS),("Voronoi.initialize/sample_discretization/birth/death",VO),("ParameterSpaceState.__post_init__",ST),("insert_1d, delete_1d",PY)],
 state=[("ParameterSpaceState.param_values","one array or list per parameter","_state.py")],observe=["param_values and n_dimensions of the returned state"])
p("C05","1-D Voronoi sites stay sorted and values stay with their site",
 "In a 1-D Voronoi state the site positions are in increasing order after initialization, sampling, birth, death and site moves. Every operation keeps the pairing: a cell that an operation does not create, remove or change still has its site and all its parameter values (nested states too) at one common index afterwards, and a moved site carries its values with it to its new rank.",
 ["inputs","histories"],"every sorted input tessellation, parameter set, index and draw; by induction every history",
 SCR+"values attached to the wrong site still give valid-looking samples.",
 [VO,PY],[("Voronoi.perturb_value (argsort), birth (bisect + insert), death, initialize, sample_discretization",VO),("insert_1d, delete_1d",PY)],
 observe=["param_values of the returned state"])
p("C06","Accepted proposals stay inside the support",
 "Initial and sampled sites lie in the discretization domain, initial and sampled uniform values lie between the bounds for their position, and initial noise standard deviations and correlations lie in their configured ranges. Any perturbation applied to a state inside these supports either returns log ratio minus infinity or a state inside them.",
 ["inputs","histories"],"every configuration, state inside the support and random draw; by induction every accepted history",
 SCR+"leaving the support needs a draw near the edge that a script's histogram hides.",
 [PR,VO,TA,PN],[("UniformPrior.sample/initialize/perturb_value",PR),("Voronoi.sample_site/_is_in_domain; Voronoi2D polygon",VO),("Target.initialize",TA),("NoisePerturbation",PN)],
 observe=["states returned by initialize/sample/perturb/birth/death"])
p("C07","Proposing a move never changes the current state",
 "Applying any perturbation (birth, death, value, site, noise or their combination) to a state leaves that state's values, dimensions, noise and temperature exactly as they were, and the proposal does not share with it any container that the library later writes to. Hence rejecting a proposal leaves the chain exactly where it was.",
 ["inputs","histories"],"every state, perturbation and random draw, nested states included",
 SCR+"aliasing shows only when a rejected proposal is followed by an observation of the old state.",
 [PB,PV,PP,PN,PS,VO,ST],[("*.perturb and perturb_param_space_state","perturbations"),("State.copy, ParameterSpaceState.copy",ST)],
 observe=["the state passed to perturb, before and after"])
p("C08","The Metropolis-Hastings step accepts and rejects as it must",
 "One iteration draws one perturbation according to the weights and replaces the current state by the proposal if and only if log ratio plus tempered log likelihood ratio exceeds the logarithm of one uniform draw; a log ratio of minus infinity is never accepted and needs no likelihood evaluation. If a perturbation's user function or the forward/likelihood function fails, the state and proposal counts stay unchanged, the failure is counted under its exception name and another perturbation is tried; after 500 consecutive failures a RuntimeError is raised.",
 ["inputs","fault_sequences","histories"],"every perturbation list, ratio, likelihood ratio, uniform draw and sequence of failures",
 SCR+"the acceptance decision and the failure path are never examined.",
 [MC,"_utils.py","exceptions/_exceptions.py"],[("BaseMarkovChain._next_iteration",MC)],
 state=[("current_state","the chain's state","_markov_chain.py")],observe=["current_state and statistics after an iteration, exceptions raised"])
p("C09","Iteration counts, burn-in and thinning of saved samples",
 "Running n iterations adds exactly n to a chain's proposal count, however often runs are continued and whichever sampler is used. A chain saves the state after iteration i (counted from its creation) exactly when i exceeds the burn-in, i minus burn-in is a multiple of save_every and the chain's temperature is then 1; nothing is saved during burn-in.",
 ["histories","configurations"],"every number of iterations, burn-in, thinning, swap interval, and sequence of runs",
 SCR+"no test counts saved samples, and parallel tempering with burn-in is not run.",
 [MC,SA,BI],[("BaseMarkovChain.advance_chain, _next_iteration, _save_state",MC),("Sampler.advance_chain, VanillaSampler/ParallelTempering/SimulatedAnnealing.run",SA)],
 observe=["statistics['n_proposed_models_total']","saved_states"])
p("C10","The log likelihood ratio is the Gaussian one, tempered once",
 "With targets, the log likelihood ratio between two states is the sum over targets of half the decrease of the squared residual norm weighted by the inverse data covariance, plus, for targets with unknown noise only, half the decrease of the log determinant of the covariance. With a user ratio or likelihood function it is that function's value or its difference, and the ratio function wins if both are given. In all cases it is divided by the chain temperature exactly once, and it is antisymmetric in its two states for targets and likelihood functions.",
 ["inputs","configurations"],"every number of targets, data, residuals, noise states, covariance form (scalar, diagonal, full, unknown) and temperature",
 SCR+"most scripts use a constant likelihood.",
 [LL,TA],[("LogLikelihood.log_likelihood_ratio, _get_misfit_and_det, _init_log_likelihood_ratio",LL),("Target.inverse_covariance_times_vector, log_determinant_covariance",TA)],
 observe=["value of LogLikelihood.log_likelihood_ratio"])
p("C11","Noise covariance: exact inverse and log-determinant for any data size",
 "For every number of data n >= 1, standard deviation s > 0 and correlation 0 <= r < 1, the inverse covariance used for a target with unknown noise is the exact inverse of the matrix s^2 r^|i-j| (1/s^2 times the identity without correlation), and the log-determinant is the logarithm of that matrix's determinant. Building it never touches memory outside the n by n matrix.",
 ["inputs"],"every n >= 1, s and r",
 SCR+"no test builds a correlated target, and sizes below three are never tried.",
 [PY,TA],[("inverse_covariance",PY),("Target.inverse_covariance_times_vector, log_determinant_covariance",TA)],
 observe=["inverse_covariance, Target methods"])
p("C12","Cached predictions and trees always describe the state that holds them",
 "Predicted data cached in a state are the forward function's output for that same state, are computed at most once per state and target, and a proposal never carries over predictions that no longer match its parameters. A 2-D Voronoi state that carries a nearest-neighbour tree carries the tree of its own current sites after initialization, sampling, births, deaths, site moves and value moves.",
 ["histories","inputs"],"every history of perturbations and likelihood evaluations, with several targets",
 SCR+"stale cached data give plausible but wrong likelihoods.",
 [ST,LL,VO],[("State.copy, cache",ST),("LogLikelihood._get_misfit_and_det",LL),("Voronoi2D._add_kdtree_to_ps_state and its callers",VO)],
 state=[("State.cache / ParameterSpaceState.cache","derived data","_state.py")],observe=["cache of proposed and current states"])
p("C13","State copies are independent and all views of a state agree",
 "Copying a state or parameter space state gives equal values, dimensions, noise and temperature, and writing into the copy's arrays, nested states or parameter entries never shows in the original (or the other way round). For every state the library produces, attribute access, indexing by name and the exported dictionary return the same current values. A parameter space state cannot be built with an entry whose length differs from its number of dimensions.",
 ["inputs","histories"],"every state with any number of spaces, parameters and nesting depth, and every perturbation result",
 SCR+"an attribute left pointing at an old array is invisible unless both views are compared.",
 [ST,PV,PN,PB,PP],[("State/ParameterSpaceState.copy, set_param_values, __post_init__, todict, items",ST)],
 observe=["state.name, state['name'], state.items()"])
p("C14","1-D nearest-neighbour, interpolation, insert and delete kernels",
 "On any sorted, strictly increasing 1-D grid: the nearest-neighbour index is that of a closest site; linear and nearest interpolation return the exact interpolant between grid points, the grid value at a grid point and the end value outside. Inserting at index i gives the original entries with the value at i, deleting at i gives them without entry i, for every valid i and length. None of them reads or writes outside its arrays.",
 ["inputs"],"every array length, contents, index and query point",
 "Tests touch these kernels only indirectly with bounds checks compiled out; an off-by-one at the ends is never hit.",
 [PY],[("nearest_neighbour_1d, interpolate_linear_1d, interpolate_nearest_1d, insert_1d, delete_1d",PY)],
 observe=["return values of the kernels"])
p("C15","Voronoi cell extents, interfaces and layered profiles",
 "Cell extents are the distances between consecutive midpoints of the sites, with the given bounds closing the first and last cell and the fill value for a cell with no bound, for any number of sites from one. Interfaces are the midpoints between sites (or cumulative extents from the lower bound), and interpolating a layered profile returns for each position, in any order, the value of the layer that contains it, the last layer being unbounded. In 2-D interpolation returns the value of the nearest site.",
 ["inputs"],"every number of sites, bounds (finite or absent), fill value and query positions",
 "Only notebooks use these functions; no test calls them with bounds, one site or unsorted positions.",
 [PY,VO],[("compute_voronoi1d_cell_extents, interpolate_depth_profile",PY),("Voronoi1D.compute_cell_extents/compute_interface_positions/interpolate_tessellation, Voronoi2D.interpolate_tessellation",VO)],
 observe=["return values"])
p("C16","Parallel tempering keeps its ladder and swaps with the right probability",
 "Parallel tempering starts with at least one chain at temperature exactly 1 and none outside 1 to the maximum, and from then on only ever exchanges the temperatures of two different chains, so that the multiset of temperatures never changes. A swap between chains at temperatures T1 and T2 happens exactly when (1/T1 - 1/T2) times the untempered log likelihood ratio of the second chain's state to the first's exceeds the logarithm of a uniform draw. Chain states are never altered by a swap.",
 ["histories","configurations"],"every number of chains, fraction of unit-temperature chains, maximum temperature, likelihoods and draws",
 SCR+"parallel tempering is never run by them.",
 [SA,MC],[("ParallelTempering.on_initialize/on_end_advance_chain",SA)],
 observe=["chain.temperature, chain.current_state before and after on_end_advance_chain"])
p("C17","Simulated annealing cools to exactly one at the end of burn-in",
 "Under simulated annealing the temperature used at iteration i of a burn-in of b iterations is start^(1 - i/b), so it starts at the starting temperature and decreases, and it is exactly 1 for every iteration after burn-in, also when a run is continued. The state's recorded temperature always equals its chain's.",
 ["histories","configurations"],"every starting temperature, burn-in length and sequence of runs",
 SCR+"simulated annealing is never run by them.",
 [SA,MC],[("SimulatedAnnealing.on_initialize/on_begin_iteration/run",SA),("BaseMarkovChain.temperature setter",MC)],
 observe=["chain.temperature at each iteration"])
p("C18","Which perturbations are offered, and on which nested space",
 "A trans-dimensional parameter space offers birth and death with equal weights, a fixed one offers neither; value perturbation is offered exactly when the space has scalar parameters, site perturbation exactly for discretizations, unknown-noise perturbation exactly when some target needs it, and nested spaces' perturbations are all offered too. Applying a space's perturbation changes exactly one of the instances of that space in the state, chosen uniformly among all of them at any nesting depth, and leaves every other instance unchanged. If a user supplies birth and death with different weights, the death weight is made equal to the birth weight.",
 ["configurations","inputs"],"every parameterization, nesting, number of instances and draw",
 SCR+"unequal birth/death weights or a skipped nested instance bias the sampling without failing.",
 [PS,VO,PP,PA,BI,LL],[("_init_perturbation_funcs",PS),("Voronoi._init_perturbation_funcs",VO),("ParamSpacePerturbation.perturb",PP),("BaseBayesianInversion.set_perturbation_funcs, BayesianInversion._init_perturbation_funcs",BI)],
 observe=["perturbation_funcs, perturbation_weights, proposed states"])
p("C19","Results return every saved sample once, in order",
 "Results extraction returns, for every requested key (all if none is given) and no other, the values saved by the chains: concatenated in chain order and saving order, or one list per chain in order when not concatenating. This holds for chains of library states, of dictionaries and of arbitrary objects, and extraction leaves the chains unchanged.",
 ["inputs","configurations"],"every number of chains, saved samples, keys and both concatenation modes",
 "Scripts call it in one mode with library states only.",
 [BI,MC],[("BaseBayesianInversion.get_results_from_chains",BI),("BaseMarkovChain._save_state",MC)],
 observe=["return value of get_results"])
p("C20","Sampler callbacks run at every event, in order",
 "Every function registered on a sampler is called once per corresponding event, in registration order and after the sampler's own action: once per initialization with the chains, once before and once after each iteration of each chain with that chain, and once after each advance of the chains. When run in parallel or sequentially, every chain is advanced by the requested number of iterations and the sampler keeps all chains in order.",
 ["configurations","histories"],"every number and kind of callbacks, chains, iterations and parallel settings",
 "No test registers a callback.",
 [SA,MC],[("Sampler.initialize/begin_iteration/end_iteration/end_advance_chain/advance_chain",SA),("BaseMarkovChain.advance_chain",MC)],
 observe=["calls received by registered functions"])
p("C21","Acceptance statistics account for every proposal exactly once",
 "After any number of iterations the total proposed count equals the number of iterations, the total accepted count the number of accepted proposals, and both totals equal the sums of the counts per perturbation type. Each iteration adds one to the type that was drawn (and to its sub-type for combined perturbations), and accepted counts never exceed proposed ones.",
 ["histories"],"every history of accepted, rejected and failed proposals over any set of perturbation types",
 SCR+"the counters are only printed.",
 [MC,PP],[("BaseMarkovChain._save_statistics",MC),("ParamSpacePerturbation.perturb (perturb_stats)",PP)],
 observe=["chain.statistics"])
p("C22","Position-dependent hyper-parameters are evaluated at the right place",
 "A hyper-parameter given as a scalar has that value everywhere; given as one value per position it is linearly interpolated at the queried position, takes the given values at the given positions, is constant beyond the ends in 1-D, and in 2-D or more an out-of-domain query raises the out-of-domain error rather than returning a number. Initial values for several positions use each position's own hyper-parameters.",
 ["inputs","configurations"],"every prior type, number of positions, hyper-parameter form and query",
 "One script uses a depth-dependent perturbation width and plots the outcome.",
 [PR,PY],[("Prior.add_hyper_params/_init_hyper_param/get_hyper_param, _interpolate_linear_nd, *.initialize",PR),("interpolate_linear_1d",PY)],
 observe=["get_* accessors, log_prior, initialize"])
p("C23","User functions are called with exactly their arguments, failures contained",
 "A user function given bare, or as a tuple with positional and/or keyword arguments, is called with the library's arguments first, then exactly the given ones, and its result is returned unchanged. If it raises, the library's user-function error carrying the original message is raised instead, and a failing forward function is reported as a forward error and leaves no prediction cached.",
 ["inputs","fault_sequences"],"every function form, arguments, result and exception",
 "Tests pass only plain functions that never fail.",
 ["_utils.py",LL,"exceptions/_exceptions.py"],[("_preprocess_func, _FunctionWrapper","_utils.py"),("LogLikelihood._get_misfit_and_det",LL)],
 observe=["calls received by the user function, exceptions raised"])
p("C24","Targets added later join the likelihood and every chain",
 "Adding targets with their forward functions to a likelihood, before or after chains exist and also after a parallel run, makes every later likelihood ratio of every chain include them, gives every chain's state an initial noise value for each unknown-noise target, and offers their noise perturbation to every chain. Duplicate target names are rejected.",
 ["histories","configurations"],"every number of targets added, their kinds and the moment of adding",
 "No test adds a target after construction.",
 [LL,BI,MC,TA],[("LogLikelihood.add_targets",LL),("BayesianInversion.update_log_likelihood_targets",BI),("BaseMarkovChain.update_targets",MC)],
 observe=["log_likelihood_ratio, chains' states and perturbation_funcs after add_targets"])
p("C25","Chains converge to the posterior distribution",
 "For every valid configuration the distribution of a unit-temperature chain's state converges to the posterior defined by the prior and the likelihood, as the number of iterations grows.",
 ["histories","configurations"],"every configuration, asymptotically in the number of iterations",
 "It is a statement about limits of distributions; scripts only plot finite histograms.",
 [MC,PS,VO],[("the Metropolis-Hastings step and all proposals",MC)],observe=["long-run sample distribution"])
p("C26","Chains run in parallel draw statistically independent random numbers",
 "Chains advanced in parallel processes use random streams that are statistically independent of each other.",
 ["schedules","configurations"],"every parallel backend, number of jobs and scheduling",
 "Independence of streams is not visible in one run.",
 [SA],[("joblib.Parallel in Sampler.advance_chain",SA)],observe=["random draws of different chains"])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl'),'w') as f:
    for q in P: f.write(json.dumps(q)+'\n')
print(len(P))
