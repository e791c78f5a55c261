"""Writes /verif/properties.jsonl (kept as code so that the text is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    assert len(title) <= 80, (id, len(title))
    P.append(d)

DB = "pysgmcmc/data_batches.py"; TU = "pysgmcmc/tensor_utils.py"; BC = "pysgmcmc/samplers/base_classes.py"
SG = "pysgmcmc/samplers/sghmc.py"; SL = "pysgmcmc/samplers/sgld.py"; RS = "pysgmcmc/samplers/relativistic_sghmc.py"
SV = "pysgmcmc/samplers/svgd.py"; SA = "pysgmcmc/sampling.py"; BM = "pysgmcmc/models/base_model.py"
BN = "pysgmcmc/models/bayesian_neural_network.py"; TR = "pysgmcmc/diagnostics/sample_chains.py"
SD = "pysgmcmc/diagnostics/sampler_diagnostics.py"; OF = "pysgmcmc/diagnostics/objective_functions.py"
SS = "pysgmcmc/stepsize_schedules.py"

prop("C01", "Every minibatch is made of real datapoints paired with their own labels",
  "Every batch from the plain and from the shuffled batch generator feeds exactly the two given placeholders with min(batch_size, N) distinct datapoints of the dataset, and row i of the label batch is the label of row i of the data batch. In the plain generator these are consecutive datapoints in dataset order; labels always come out as a column of shape (batch, 1), whether they were passed as (N,) or (N, 1). This holds for every batch of the infinite stream, also when labels and data share memory.",
  ["inputs", "histories"], "all dataset sizes N >= 1, batch sizes >= 1, seeds and random draws, over successive batches",
  "Tests look at a handful of random datasets and check shapes of the first batch; pairing under shuffling is a TODO in the docstring.",
  [DB], [("window slicing of x and y", DB + ":generate_batches"), ("identically seeded shuffles", DB + ":generate_shuffled_batches")])

prop("C02", "Drawing minibatches never changes the caller's dataset",
  "However many batches are drawn from either batch generator, the data and label arrays that the caller passed in keep exactly the values they had.",
  ["inputs", "histories"], "all dataset and batch sizes, seeds, numbers of batches drawn",
  "No test compares the dataset before and after drawing batches.",
  [DB], [("batches are views of the dataset; the shuffle must act on copies", DB + ":generate_shuffled_batches")])

prop("C03", "Every datapoint can be drawn: batch windows cover the whole dataset",
  "At every draw, each of the N - b + 1 windows of b = min(batch_size, N) consecutive datapoints can be the next batch, and nothing outside the dataset can; so no datapoint is ever excluded from training. The position of the window is the only thing the plain generator randomises.",
  ["inputs"], "all N, batch sizes and window positions",
  "Tests only check that batch contents lie in the dataset; losing the first or last window passes them.",
  [DB], [("half-open range of the random start index", DB + ":generate_batches")])

prop("C04", "A seed fully determines the batch stream",
  "Two generators built with the same data and the same seed (0 included) yield the same stream of batches, whatever else uses numpy's global random state and however the two streams are interleaved, and a seeded generator does not disturb the global random state. Without a seed, streams are drawn from the global random state.",
  ["inputs", "histories", "schedules"], "all legal seeds, all interleavings of draws from two generators and from the global random state, up to the stated number of batches",
  "The test compares two streams for a few seeds, never 0 versus another value, nor with foreign draws in between.",
  [DB], [("private RandomState seeded once per generator", DB)])

prop("C05", "Batch generators accept exactly the documented arguments",
  "Drawing from a batch generator fails with an assertion error for every non-integer or non-positive batch size, every seed that is neither None nor an integer in [0, 2**32 - 1] (the shuffled generator may reject such a seed with numpy's own ValueError or TypeError), and every dataset whose number of labels differs from its number of datapoints; every other combination is accepted. Booleans and numpy integers are not judged.",
  ["inputs"], "all integers and representative non-integers for batch_size and seed; all pairs of row counts",
  "Hypothesis tests sample the rejected side only and never the boundaries of the accepted side.",
  [DB], [("input assertions", DB + ":generate_batches")])

prop("C06", "Each step uses exactly the next stepsize of the user's schedule",
  "For every sampler, the k-th step moves the parameters with the k-th value produced by the stepsize schedule the user passed, and draws exactly one value per step. The constant schedule produces its initial value forever, whatever updates it receives.",
  ["inputs", "histories"], "all stepsize sequences over the stated number of steps, all four samplers, burn-in and sampling phases",
  "Sampler tests only compare two identically configured chains and cannot see which stepsize was used.",
  [BC, SL, SG, RS, SV, SS], [("stepsize is fed per step", BC + ":MCMCSampler._next_stepsize"), ("schedule passed to the base class", SL)])

prop("C07", "Step protocol: one batch, one update of the schedule, one count per step",
  "Each call for a next sample consumes exactly one batch, evaluates the cost on that batch together with any values the caller feeds, hands the schedule exactly one update with the sample and cost that are returned, and advances the step counter by one. If the batch source is exhausted, iteration stops and parameters, schedule and step counter are left as they were.",
  ["histories", "inputs", "fault_sequences"], "all batch contents, all caller feeds, all step counts up to the bound, exhaustion at any step",
  "No test observes the schedule, the batch source or caller feeds; the burn-in samplers have two separate code paths for this.",
  [BC], [("feed assembly and bookkeeping", BC + ":MCMCSampler.__next__"), ("burn-in variant", BC + ":BurnInMCMCSampler.__next__")])

prop("C08", "SGHMC steps follow the published scale-adapted update",
  "Every SGHMC step maps parameters, momentum and noise estimates to the values given by the scale-adapted SGHMC update (Springenberg et al. 2016, Chen et al. 2014): running averages of gradient and squared gradient with adaptive window, inverse mass 1/sqrt(v), momentum decay, and injected noise of variance 2 e^2 mdecay Minv - e^4 with e the stepsize scaled by the square root of scale_grad, never below a tiny positive floor. It holds for every gradient, stepsize, hyperparameter and noise value, for each element of each parameter.",
  ["inputs", "histories", "configurations"], "all real gradients, stepsizes, mdecay, scale_grad, initial values and noise; stated shapes, dtypes and numbers of steps",
  "Sampler tests compare a chain to itself, so any consistently wrong update passes.",
  [SG, BC, TU], [("burn-in estimates, noise and momentum update", SG + ":SGHMCSampler.__init__")],
  state=[("tau, g, v_hat, minv", "adaptive window and gradient statistics", SG), ("V", "momentum", SG)])

prop("C09", "SGLD steps follow the preconditioned Langevin update",
  "Every SGLD step moves the parameters by -e * Minv * A * gradient plus Gaussian noise of variance 2 e Minv A / scale_grad, with Minv = 1/sqrt(v) adapted from the gradient history during burn-in. It holds for every gradient, stepsize, hyperparameter and noise value, for each element of each parameter.",
  ["inputs", "histories", "configurations"], "all real gradients, stepsizes, A, scale_grad, initial values and noise; stated shapes, dtypes and numbers of steps",
  "Sampler tests compare a chain to itself, so any consistently wrong update passes.",
  [SL, BC, TU], [("update graph", SL + ":SGLDSampler.__init__")])

prop("C10", "Relativistic SGHMC follows its published update and respects its speed limit",
  "For scalar parameters every relativistic SGHMC step updates momentum and position by the published rule (momentum gains -e*gradient, friction D*e*p/(m*sqrt(p^2/(m^2 c^2)+1)) and noise of variance e*(2D - e*Bhat); position gains the relativistic velocity of the new momentum). No step moves a parameter further than stepsize times speed of light, and initial momenta are drawn, one per parameter, from the density exp(-m c^2 sqrt(p^2/(m^2 c^2)+1)) with the sampler's own mass and speed of light.",
  ["inputs", "histories"], "all gradients, stepsizes, mass, speed_of_light, D, Bhat, initial values, momenta and noise, over the stated number of steps",
  "The only test compares a chain to itself; the log density handed to the external rejection sampler is never examined.",
  [RS], [("momentum and position update", RS + ":RelativisticSGHMCSampler.__init__"), ("log density", RS + ":_sample_relativistic_momentum")])

prop("C11", "SVGD moves particles along the Stein variational gradient",
  "For pairwise distinct particles that are vectors, each SVGD step moves every particle against phi = (K grad(cost) - sum_j grad_xj k(xj, xi)) / n, with RBF kernel and median-heuristic bandwidth, scaled per coordinate by the running average of squared phi: attraction follows the cost gradient and the kernel term pushes particles apart. The cost returned is the cost of each particle before the step.",
  ["inputs", "histories"], "all particle positions in general position, cost gradients, stepsizes, alpha and fudge factor; stated particle numbers and dimensions",
  "There is no test of SVGD at all.",
  [SV, TU], [("kernel and its gradient", SV + ":SVGDSampler.svgd_kernel"), ("particle update", SV + ":SVGDSampler.__init__")])

prop("C12", "The preconditioner adapts during burn-in and is frozen afterwards",
  "For SGHMC and SGLD with b >= 1 burn-in steps, the inverse mass matrix is re-estimated in each of the first b steps and in none after; all later steps use exactly the estimate of step b, whatever gradients occur. The sampler reports that it is burning in exactly while fewer than b steps have been made; a call that fails because its batch does not fit is no step.",
  ["histories", "inputs", "configurations"], "all b (symbolic), all gradient histories up to the stated number of steps around the boundary",
  "No test crosses the burn-in boundary while looking at the preconditioner.",
  [BC, SG, SL], [("phase decision", BC + ":BurnInMCMCSampler.is_burning_in"), ("frozen estimate is fed", BC + ":BurnInMCMCSampler.__next__")])

prop("C13", "A step is atomic: no execution order changes sample or cost",
  "In every step of every sampler, the updates of all parameters and the returned cost are computed from the parameter values at the start of that step, in whatever order the dataflow runtime executes independent operations. In particular one parameter's update never sees another's new value.",
  ["schedules", "inputs"], "all execution orders permitted by the dataflow graph's data and control dependencies, all values",
  "A test run sees one execution order; the runtime is free to choose another one.",
  [SG, SL, RS, SV, BC], [("control dependencies around in-place variable updates", SG), ("same", SL), ("same", RS)])

prop("C14", "The returned sample is the chain's state",
  "After each step the target variables hold exactly the sample that was returned, with their original shape and dtype, and the next step starts from the values the target variables hold then - also when these were set from outside or re-initialised between steps.",
  ["histories", "inputs", "configurations"], "all values, stated shapes and dtypes, external assignment or re-initialisation before any step within the bound",
  "Tests never read the variables back nor touch them between steps.",
  [SG, SL, RS, SV, TU], [("vectorised working copy versus target variable", SG)])

prop("C15", "Injected noise is independent across parameters, elements and steps",
  "In the noisy samplers, distinct elements, distinct target parameters and distinct steps receive distinct noise draws, and the update is perturbed in every element, with or without a seed. No noise draw is shared between two parameters of one sampler.",
  ["configurations", "histories"], "seeds None, 0 and others; stated parameter lists and numbers of steps; all noise values",
  "Seeding tests check equality of two chains only; identical noise in all parameters passes them.",
  [BC, RS, SG, SL], [("op-level seeds of the noise draws", BC + ":MCMCSampler._draw_noise_sample")])

prop("C16", "Equal seeds give equal chains",
  "Two samplers of the same kind built with the same seed (0 included), parameters, cost, batches and hyperparameters produce the same samples and costs step for step; without a seed the draws are not tied to any fixed seed.",
  ["inputs", "histories", "configurations"], "stated seeds, all values of cost, hyperparameters and underlying random streams, stated number of steps",
  "Seeding tests cannot run here, use one random seed and stop at the burn-in phase.",
  [BC, RS, SG, SL], [("seed forwarding", BC), ("seed of the initial momentum", RS)])

prop("C17", "Noise and preconditioner stay well defined for every gradient history",
  "In SGHMC and SGLD, after any history of finite gradients (zero gradients included), positive stepsizes and valid hyperparameters, the inverse mass stays positive and no square root of a negative number, division by zero or other undefined operation occurs in a step. The squared-gradient estimate stays positive, so samples stay finite.",
  ["histories", "inputs"], "all finite gradient histories (by an inductive step over the estimator state) and all valid hyperparameters",
  "Tests run a few hundred steps on two smooth toy costs.",
  [SG, SL, TU], [("running estimates", SG), ("guarded division and square root", TU)])

prop("C18", "Vectorising and un-vectorising tensors are mutually inverse",
  "Vectorising any tensor or variable gives an (n, 1) tensor of the same dtype with its elements in row-major order, and un-vectorising to the original shape gives back the original. Vectorising a variable yields a separate variable initialised with its value; other types are rejected with ValueError.",
  ["inputs", "configurations"], "all element values; all shapes up to the stated rank and size; stated dtypes",
  "Two doctest examples.",
  [TU], [("reshape to (n, 1)", TU + ":vectorize"), ("reshape back", TU + ":unvectorize")])

prop("C19", "median is the statistical median for every input",
  "The median of a non-empty floating-point tensor of any shape is the middle order statistic for an odd number of elements and the mean of the two middle ones for an even number, whatever the order, sign or multiplicity of its values.",
  ["inputs"], "all real values (all orderings and ties), sizes up to the bound, several shapes",
  "Tests sample random vectors and have no adversarial ties or shapes.",
  [TU], [("descending sort and middle index", TU + ":median")])

prop("C20", "Guarded division never divides by zero",
  "For every finite numerator and every finite denominator (signed zeros and denormals included) the guarded division uses a denominator that is never zero, keeps the sign of every denominator that is neither zero nor denormal, has magnitude at least the small constant (up to rounding) and differs from the given one by at most six times the small constant plus rounding; so the result is never NaN.",
  ["inputs"], "all IEEE-754 single and double precision values of the operands; default and other positive constants",
  "Tests try a handful of values; rounding corner cases are rare.",
  [TU], [("sign-aware offset", TU + ":safe_divide")])

prop("C21", "Guarded square root is total and exact",
  "For every non-NaN input the guarded square root is not NaN and never negative, equals the square root of the input clipped to the given bounds, and so is 0 for negative inputs and the ordinary square root for non-negative inputs under the default bounds.",
  ["inputs"], "all IEEE-754 single and double precision inputs, all clip bounds",
  "One doctest value.",
  [TU], [("clip before square root", TU + ":safe_sqrt")])

prop("C22", "pdist and squareform reproduce the full pairwise distance matrix",
  "For m points the condensed distances are the Euclidean distances of all pairs i < j in row-major order, in the dtype of the input. Expanding a condensed vector gives the symmetric zero-diagonal matrix whose upper triangle is that vector, and every vector whose length is not n*(n-1)/2 for some n, every non-vector, every non-2-d point set and every unknown metric is rejected.",
  ["inputs", "configurations"], "all point coordinates and distances; stated numbers of points, dimensions, and all vector lengths up to the bound",
  "Tests compare random examples to scipy for few sizes.",
  [TU], [("pair enumeration", TU + ":pdist"), ("stitching index arithmetic and length test", TU + ":squareform")])

prop("C23", "Only uninitialised variables are reported, and initialised ones are kept",
  "For any set of variables the query for uninitialised ones returns exactly those that are not initialised in the given session, in order. Building a sampler initialises the uninitialised target parameters and leaves the value of every already initialised one untouched.",
  ["inputs", "configurations"], "all initialised/uninitialised patterns over the stated number of variables; all values",
  "No test.",
  [TU, BC], [("initialisation flags zipped with variables", TU + ":uninitialized_params"), ("selective initialisation", BC + ":MCMCSampler.__init__")])

prop("C24", "The sampler factory builds the requested sampler from the user's arguments",
  "Asking for a sampling method yields an instance of that method's sampler class in which every argument the user named has the user's value - falsy values and None included - and every other one its documented default. Unknown arguments, missing required arguments and unknown methods raise ValueError, and a method counts as burn-in method exactly if its sampler has a burn-in phase.",
  ["inputs", "configurations"], "all subsets of overridden arguments per method, all argument values",
  "Doctests try one subset per sampler and cannot run with current numpy.",
  [SA], [("signature merge", SA + ":Sampler.get_sampler"), ("classification", SA + ":Sampler.is_burn_in_mcmc")])

prop("C25", "Normalisation is invertible, standardising and always finite",
  "Standardising data gives columns of mean 0 and variance 1 (min-max scaling: minimum 0, maximum 1), constant columns being mapped to 0 instead of NaN; undoing it with the returned statistics gives back the data. When statistics are passed in, exactly these are used and returned, so test data are scaled like training data.",
  ["inputs"], "all real data values including constant columns; stated shapes",
  "No direct test; models are only trained on random non-degenerate data.",
  [BM], [("normalisation helpers", BM)])

prop("C26", "BNN predictions are the ensemble's mean and variance in original units",
  "Predicting with a trained Bayesian neural network gives, per test point, the mean and the population variance over exactly the collected networks' outputs, in the units of the training labels, with test inputs scaled by the training statistics; requesting individual predictions gives the per-network means and noise variances in the same units and order. Predicting before training raises ValueError, and predicting changes neither test data nor the model.",
  ["inputs", "configurations"], "all collected parameter values, test inputs and normalisation statistics; with and without input/output normalisation; stated ensemble and test-set sizes",
  "Training tests cannot run here and only check a coarse error threshold.",
  [BN, BM], [("prediction", BN + ":BayesianNeuralNetwork.predict")])

prop("C27", "BNN training collects only thinned post-burn-in samples",
  "Training draws at most n_iters samples from the chain, discards everything drawn during burn-in, keeps afterwards one sample out of every sample_steps (the first of them within the first sample_steps samples after burn-in or the sample right after), unchanged and in order, and stops as soon as n_nets networks are collected. A new training run starts from an empty collection.",
  ["inputs", "configurations"], "all n_nets, n_iters, burn_in_steps, sample_steps within the bound (symbolic)",
  "Tests use one or two fixed configurations and never count or identify the collected samples.",
  [BN], [("collection loop", BN + ":BayesianNeuralNetwork.train")])

prop("C28", "The BNN cost is the per-datapoint negative log posterior",
  "On any minibatch the training cost is minus the average Gaussian log likelihood (heteroscedastic variance from the network) over the datapoints in the batch, minus the log-variance prior and the weight prior each divided by the dataset size; the returned error is the mean squared error. The priors equal their documented Gaussian formulas for every input.",
  ["inputs", "configurations"], "all network outputs, labels, weights and prior constants; batch sizes below, equal to and above the dataset size",
  "Prior tests compare one stored example; the likelihood is untested.",
  [BN], [("likelihood", BN + ":BayesianNeuralNetwork.negative_log_likelihood"), ("priors", BN + ":log_variance_prior_log_like, weight_prior_log_like")])

prop("C29", "BNN training wires data and hyperparameters into the sampler",
  "Training builds the configured sampling method over all network parameters with the user's stepsize schedule, seed, dtype and extra sampler arguments, the dataset size as gradient scale and the configured burn-in length, and minibatches of the configured size drawn from the data - standardised exactly if so configured - with labels standardised likewise. Invalid hyperparameters are rejected at construction, valid ones accepted.",
  ["inputs", "configurations"], "all data values, dataset sizes and hyperparameters within the bound; all normalisation flags and supported methods",
  "Tests only sample invalid constructor arguments, one at a time.",
  [BN], [("sampler arguments", BN + ":BayesianNeuralNetwork.train"), ("validation", BN + ":BayesianNeuralNetwork.__init__")])

prop("C30", "A trace returns exactly the recorded samples",
  "For any chain of samples, looking up a variable by name or index returns its recorded values in order, with the first burn samples dropped and then every thin-th kept; a point lookup returns that sample's value for every variable, and the length is the number of samples. Unknown names raise ValueError, and unnamed variables are named '0', '1', and so on.",
  ["inputs"], "all sample values, burn and thin values, indices; stated numbers of samples and variables",
  "Doctests cannot be run here (pymc3 is missing) and never use burn or thin.",
  [TR], [("lookup", TR + ":PYSGMCMCTrace.get_values"), ("point lookup", TR + ":PYSGMCMCTrace.point")])

prop("C31", "Traces are extracted from samplers with the requested length and thinning",
  "A trace extracted from a sampler holds exactly n_samples samples, namely every keep_every-th one the sampler produces starting with the first, under the sampler's variable names unless others are given - for one or several parameters of any shape. A multi-trace holds the requested number of such chains with ids 0, 1, ..., each from its own sampler in its own graph and session, all of whose variables are initialised while a sampler that is already burnt in keeps its state, and the diagnostics are computed on exactly that multi-trace.",
  ["inputs", "configurations"], "all n_samples, keep_every, numbers of chains within the bound (symbolic); all sample values",
  "Tests and doctests cannot be imported here; none uses keep_every.",
  [TR, SD], [("extraction", TR + ":PYSGMCMCTrace.from_sampler"), ("multi trace", TR + ":pymc3_multitrace"), ("diagnostics", SD)])

prop("C32", "Slicing a trace projects it onto the selected variables",
  "Slicing a trace yields a trace with the same chain id and the same number of samples that contains exactly the selected variables, in order, each with exactly its recorded values; the original trace is unchanged.",
  ["inputs"], "all sample values and all slices over the stated numbers of variables and samples",
  "No test or doctest.",
  [TR], [("slice of samples and names", TR + ":PYSGMCMCTrace._slice")])

prop("C33", "Target densities and benchmarks equal their published definitions",
  "The banana and Gaussian-mixture log likelihoods equal the logarithms of their published densities for every input and mixture specification, and give the same value for plain numbers as for graph variables; the negation wrapper returns exactly the negated value for every call and keeps the name. Each synthetic benchmark function equals its published formula everywhere.",
  ["inputs"], "all real arguments and mixture parameters; stated numbers of components",
  "Doctests check the optimum only, and cannot be imported here.",
  [OF], [("log densities", OF), ("benchmarks", OF)])

prop("C34", "Model bookkeeping: update appends data, incumbent is the best observation",
  "Updating a model retrains it on the old data followed by the new data, nothing lost, reordered or re-paired. The incumbent is the observed point with the smallest observed value together with that value, and the JSON export holds exactly the model's data.",
  ["inputs", "histories"], "all data values, stated sizes and numbers of successive updates",
  "No test.",
  [BM], [("bookkeeping", BM + ":BaseModel")])

prop("C35", "Chains in one graph do not influence each other",
  "Samplers over disjoint parameters can live in one graph, built before or after others have made steps: whatever the interleaving of their steps, each chain moves exactly as it would alone. Building or stepping a sampler changes no variable other than its own target parameters and its own internal state, and every sampler works in the session it was given, whatever the default session is.",
  ["schedules", "histories"], "every interleaving of the steps of two samplers of any kinds within the bound, all values",
  "Tests build one sampler per graph.",
  [BC, SG, SL, RS, SV], [("internal state", BC + ":MCMCSampler.__init__"), ("stepping", BC + ":MCMCSampler.__next__")])

prop("C36", "Sampler constructors accept exactly the documented arguments",
  "A sampler is constructed exactly if its arguments are of the documented kinds: an integer or no seed, an integer burn-in length, a TensorFlow session and dtype, any callable as cost function, any iterator as batch source or none, a complete stepsize schedule, numbers as SVGD coefficients. Anything else is rejected at construction instead of failing, or being ignored, while sampling.",
  ["inputs", "configurations"], "every integer and float as seed and burn-in length; listed objects of right and wrong kind for the others; all samplers",
  "Tests construct valid samplers only.",
  [BC, SV], [("validation", BC + ":MCMCSampler.__init__"), ("burn-in length", BC + ":BurnInMCMCSampler.__init__"), ("coefficients", SV + ":SVGDSampler.__init__")])

prop("C37", "The default network predicts each row on its own with one trainable noise level",
  "For every input and every weight setting the default network of the BNN returns one mean and one log variance per row: the mean is that of three hidden tanh layers and a linear output applied to that row alone, the log variance is a single trainable value, initially log(1e-3), shared by all rows. All its weights are trainable variables of the requested dtype, and equal seeds give equal initial weights whatever else the graph holds.",
  ["inputs", "configurations"], "all inputs and weights within the stated sizes; seeds symbolic",
  "The only test of it needs tensorflow.contrib and cannot run here.",
  [BN], [("network", BN + ":get_default_net")])

prop("C38", "Equal seeds give equal trained Bayesian neural networks",
  "Two Bayesian neural networks built with the same seed (0 included), network, hyperparameters and data collect the same networks, step for step, and make the same predictions, whatever the process drew from numpy's or TensorFlow's global randomness before or in between and whatever else the graphs hold.",
  ["inputs", "histories", "configurations"], "all data values, learning rates and random streams; stated seeds, sampling methods, sizes and numbers of steps",
  "The seeding tests of the samplers cannot run here and none covers the model.",
  [BN, SA, DB], [("seed forwarding", BN + ":BayesianNeuralNetwork.train"), ("batches", DB + ":generate_batches"), ("sampler", SA + ":Sampler.get_sampler")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
