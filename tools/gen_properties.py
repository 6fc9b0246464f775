"""Writes /verif/properties.jsonl."""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=()):
    P.append(
        {
            "id": id,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": qtext},
            "why_tests_cant": why,
            "anchors": {
                "files": files,
                "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
                "observe_at": list(observe),
                "hook_needed": None,
            },
        }
    )


M, G, F, O, R = (
    "stheno/model/measure.py",
    "stheno/model/gp.py",
    "stheno/model/fdd.py",
    "stheno/model/observations.py",
    "stheno/random.py",
)

prop(
    "C01",
    "Linear GP operations yield the exact joint Gaussian law",
    "Every process built by adding a constant or function, adding processes, scaling by a "
    "number, multiplying by a function, negating, subtracting, dividing, shifting, "
    "stretching, selecting input dimensions, or transforming inputs has exactly the mean "
    "function, the kernel, and the cross-covariance with every other process of the model "
    "that the operation on random functions dictates. This holds for any mean functions, "
    "kernels and cross-covariances of the operands, however deeply operations are nested "
    "and also when the operands are correlated.",
    ["inputs", "programs"],
    "All means, kernels, cross-covariances, scalars, functions, input values; all programs of operations.",
    "Tests compare a few operations on EQ kernels at fixed inputs; mistakes in cross-covariances with third processes or correlated operands need particular programs.",
    [M, G],
    [("Measure.sum/mul/shift/stretch/select/transform", M), ("left and right rules", "stheno/lazy.py")],
    [("Measure.kernels", "lazy matrix of kernels between processes", M), ("Measure.means", "lazy vector of means", M)],
    ["p.mean(x)", "p.kernel(x, y)", "cross(p, q)(x).var"],
)
prop(
    "C02",
    "Cross-covariances are transposes and independent of query order",
    "For any two processes of a model, the covariance of the first at x with the second at y "
    "equals the transpose of the covariance of the second at y with the first at x. The "
    "values do not depend on which means, kernels, or cross-covariances were asked for "
    "before, nor in which order.",
    ["programs", "histories", "inputs"],
    "All models built from the operations, all pairs of processes, all query orders, all inputs.",
    "Tests query each pair once in one order on fixed kernels; the lazy tables make the result depend on rules and caches chosen at query time.",
    [M, "stheno/lazy.py"],
    [("automatic right rule by reversal", M), ("LazyMatrix._build", "stheno/lazy.py")],
    [("LazyMatrix._store", "cache of kernels", "stheno/lazy.py")],
    ["Measure.kernels[p, q]", "cross(p, q)"],
)
prop(
    "C03",
    "Products of GPs are matched in mean and covariance",
    "The product of two processes of one model has as mean and covariance function the exact "
    "mean and covariance of the pointwise product of the two jointly Gaussian processes, and "
    "its covariance with any other process of the model is what follows from treating that "
    "process and the factors as jointly Gaussian. This holds for independent, correlated and "
    "identical factors.",
    ["inputs", "programs"],
    "All means, kernels and cross-covariances of the factors and third processes; all inputs.",
    "Tests multiply independent processes or compare strings; correlated factors with nonzero means are sampled nowhere.",
    [M, G],
    [("Measure.mul for two processes", M)],
    (),
    ["(p * q).mean", "(p * q).kernel", "cross-covariances with p * q"],
)
prop(
    "C04",
    "Cartesian products stack processes in order",
    "The Cartesian product of processes, evaluated at an input, has the means of its components "
    "concatenated in order and as variance the block matrix of all (cross-)covariances of the "
    "components in the same order. Evaluation at tuples of finite-dimensional distributions "
    "or inputs, and products of products, stack the same way.",
    ["inputs", "programs"],
    "All numbers and orders of components (bounded), all inputs, nested products, posterior measures.",
    "Tests check one or two layouts with fixed kernels; block order mistakes are invisible when blocks coincide or are symmetric.",
    [M, "stheno/mo/kernel.py", "stheno/mo/mean.py", "stheno/mo/input.py", "stheno/mo/adk.py"],
    [("MultiOutputKernel and MultiOutputMean", "stheno/mo"), ("Measure.cross", M)],
    (),
    ["cross(...)(x).mean", "cross(...)(x).var"],
)
prop(
    "C05",
    "All views of a finite-dimensional distribution agree",
    "The mean, variance, diagonal of the variance, joint mean and variance, marginals and "
    "credible bounds of a finite-dimensional distribution or lazily constructed normal all "
    "describe the same distribution: process mean, and process covariance plus the given "
    "noise (none, scalar, vector, matrix or structured). The answers do not depend on which "
    "of these were asked for before or in which order.",
    ["histories", "inputs", "configurations"],
    "All query orders (bounded length), noise forms, means (zero and nonzero) and kernels, prior and posterior processes.",
    "Five lazily cached fields can be filled by different code paths in any order; tests try a handful of orders on one kernel.",
    [F, R],
    [("FDD.__init__ closures", F), ("Normal._resolve_*, mean_var, marginals", R)],
    [("Normal._mean/_var/_var_diag", "lazily resolved fields", R)],
    ["fdd.mean", "fdd.var", "fdd.var_diag", "fdd.mean_var", "fdd.marginals()"],
)
prop(
    "C06",
    "Conditioning yields the exact Gaussian conditional for every process",
    "After conditioning a model on noisy observations of any of its processes, the posterior "
    "mean of every process and the posterior covariance between every pair of processes equal "
    "those of the Gaussian conditional distribution. All ways to state the same data (a pair, "
    "several pairs, observation objects, the process or the model) give the same posterior, "
    "including for observations without noise and for empty data.",
    ["inputs", "programs"],
    "All kernels, means, inputs, noise and data values; observations of one or several correlated processes; sizes bounded.",
    "Tests check one process with few seeds and compare call forms numerically on EQ kernels; cross-process posteriors are barely sampled.",
    [O, M],
    [("Observations.posterior_mean/posterior_kernel", O), ("Measure.condition", M), ("combine", O)],
    [("Observations._K_x", "kernel matrix cache per measure", O)],
    ["(measure | obs)(p).mean", "(measure | obs)(p).kernel", "p | obs"],
)
prop(
    "C07",
    "Conditioning in steps equals conditioning at once",
    "Conditioning on one data set and then, in the posterior, on another gives the same means "
    "and covariances for all processes as conditioning on both at once. The order of the "
    "steps and the order in which observations are listed do not matter.",
    ["histories", "inputs"],
    "All splits and orders of the data (bounded), all kernels, means, noises, values.",
    "Tests hold one split on one kernel; the identity must hold for every split and every process pair.",
    [O, M],
    [("posterior measures and rules", M), ("Observations", O)],
    (),
    ["posterior means and kernels"],
)
prop(
    "C08",
    "Missing observations have no influence",
    "Observations that are NaN have no influence: conditioning, log-densities, and sparse "
    "approximations give exactly the result obtained by leaving out those data points together "
    "with their noise. This holds for every pattern of missingness, for any noise form, and "
    "for observations of single processes, several processes, and Cartesian products.",
    ["inputs", "configurations"],
    "All patterns of missing values (bounded sizes), all noise forms, all values, nested joint observations.",
    "Tests try one or two patterns; exponentially many patterns select different rows of inputs, noise and data.",
    [O, F, R, "stheno/mo/kernel.py"],
    [("AbstractObservations.__init__", O), ("take(fdd, mask) and _take_x", F), ("Normal.logpdf", R)],
    (),
    ["posterior", "logpdf", "elbo"],
)
prop(
    "C09",
    "Log-densities are exact, jointly and by the chain rule",
    "The log-density of a normal, a finite-dimensional distribution, or several observations "
    "under a model is the exact Gaussian log-density of the values under the stated mean and "
    "variance; several values (columns) give the log-density of each in order. The joint "
    "log-density equals the log-density of a part plus the log-density of the rest under the "
    "posterior, and does not depend on the order or the form in which observations are given.",
    ["inputs", "programs"],
    "All means, variances, values, splits and forms; sizes bounded.",
    "Tests compare with SciPy on a few random draws; chain rule and multi-process joint densities are not covered for arbitrary correlated processes.",
    [R, M, O],
    [("Normal.logpdf", R), ("Measure.logpdf", M), ("combine", O)],
    (),
    ["Normal.logpdf", "Measure.logpdf"],
)
prop(
    "C10",
    "Sparse approximations follow their definitions",
    "Posterior means, posterior covariances of every pair of processes and the objective of the "
    "VFE, FITC and DTC approximations equal the expressions that define these methods, for any "
    "inducing points on any processes. With inducing points at the data, posteriors coincide "
    "with exact conditioning, the VFE objective equals the log-density and never exceeds it "
    "otherwise.",
    ["inputs", "configurations"],
    "All kernels, means, inputs, inducing inputs, noises and values; three methods; sizes bounded.",
    "Tests compare with the exact posterior where the approximation is exact; the general position is not tested.",
    [O],
    [("AbstractPseudoObservations._compute", O)],
    [("_K_z, _A, _mu, _elbo", "results cached per measure", O)],
    ["PseudoObs posterior", "elbo"],
)
prop(
    "C11",
    "Derivative processes have the covariances of derivatives",
    "The derivative of a process has as mean, kernel and cross-covariances the corresponding "
    "derivatives, with respect to the chosen input dimension, of those of the process. The "
    "finite-difference approximation of a derivative is exactly the stated linear combination "
    "of shifted copies, jointly with all other processes.",
    ["inputs", "programs"],
    "All smooth kernels and means, all inputs, dimensions, compositions with other operations.",
    "Tests differentiate one kernel in one dimension at fixed points.",
    [M, G],
    [("Measure.diff", M), ("GP.diff_approx", G)],
    (),
    ["p.diff(i)", "p.diff_approx()"],
)
prop(
    "C12",
    "Conditioning leaves the prior and existing processes untouched",
    "Creating posteriors, evaluating them, and using one set of observations under several "
    "models never changes the mean, kernel or cross-covariances that existing processes have "
    "under their own model. Processes and everything derived from them keep reporting the model "
    "they were made in, however many posteriors exist.",
    ["histories"],
    "All histories of defining, conditioning, deriving and querying (bounded), all addresses at which objects may lie.",
    "Needs particular histories (several posteriors, then new processes); outcomes can depend on memory addresses, which tests do not control.",
    [M, G, O],
    [("intersection_measure_group", G), ("Measure.condition", M)],
    [("GP._measures", "measures that a process belongs to; the first is its own", G)],
    ["p.measure", "p.mean", "p.kernel after conditioning"],
)
prop(
    "C13",
    "Default measures nest like a stack",
    "Within a measure context new processes attach to that measure, and on leaving a context, "
    "normally or by an exception, the default is again what it was when the context was "
    "entered. This holds for any nesting, including contexts of the same measure inside each "
    "other; an explicitly given measure always takes precedence, and without any context every "
    "new process gets a measure of its own.",
    ["histories"],
    "All well-nested sequences of entering and leaving contexts of up to three measures (bounded length), with exceptions.",
    "Tests nest two different measures once.",
    [M, G],
    [("Measure.__enter__/__exit__", M), ("GP.__init__", G)],
    [("Measure.default", "global default", M)],
    ["GP(...).measure"],
)
prop(
    "C14",
    "Names identify processes uniquely and consistently",
    "At all times the name of a process looks up that process and the process reports that "
    "name, and no two processes of a measure share a name. A rename makes the old name free; "
    "a rename to a taken name raises and changes nothing.",
    ["histories"],
    "All sequences (bounded) of naming, renaming and failing attempts over several processes and names.",
    "Tests do one rename and one clash; states after failed renames are not looked at.",
    [M, G],
    [("Measure.name", M), ("GP.name setter", G)],
    [("_gps_by_name/_names_by_gp", "both directions of the naming", M)],
    ["measure[name]", "measure[p]", "p.name"],
)
prop(
    "C15",
    "Arithmetic of normals is exact",
    "Adding constants or independent normals, negating, subtracting, scaling, dividing, and left "
    "or right multiplying a normal by a matrix gives the normal with exactly the mean and variance "
    "of the transformed random vector, with the operand on either side. Second moment, diagonal "
    "version and dimension agree with mean and variance.",
    ["inputs"],
    "All means, variances (dense, diagonal, zero, implicit zero mean, lazily constructed), scalars, vectors and matrices; sizes bounded.",
    "Tests cover one orientation with random dense matrices.",
    [R],
    [("Normal.__add__/__mul__/lmatmul/rmatmul", R), ("Random reflected operators", R)],
    (),
    ["Normal mean and var after arithmetic"],
)
prop(
    "C16",
    "Entropy, KL divergence and Wasserstein distance are exact",
    "Entropy, Kullback-Leibler divergence and 2-Wasserstein distance of normals equal their "
    "closed forms. The divergence and the distance of a distribution to itself are zero, and the "
    "distance is symmetric.",
    ["inputs"],
    "All means and positive-definite variances, dense and diagonal; sizes bounded.",
    "Tests use a few random or diagonal instances.",
    [R],
    [("Normal.entropy/kl/w2", R)],
    (),
    ["Normal.entropy", "Normal.kl", "Normal.w2"],
)
prop(
    "C17",
    "Samples are mean plus a root of the variance times fresh noise",
    "Samples from a normal, a finite-dimensional distribution or several at once are an affine "
    "function of independent standard normals with exactly the mean and the (joint) variance "
    "that is stated, plus the extra noise that is asked for; every sample uses its own draws. "
    "Joint samples are split and returned in the order of the arguments with the sizes of the "
    "arguments, the random state that is passed in is the one used, and it is returned.",
    ["inputs", "configurations"],
    "All draws, means, variances, numbers of samples, argument orders, multi-output arguments; sizes bounded.",
    "Tests look at shapes and zero-variance cases; distributional mistakes need statistics that tests avoid.",
    [R, M],
    [("Normal.sample", R), ("Measure.sample", M)],
    (),
    ["Normal.sample", "Measure.sample"],
)
prop(
    "C18",
    "Lazy tables resolve keys by rules, once, and never elsewhere",
    "An element of a lazy vector or matrix is the explicitly set value if there is one, and "
    "otherwise what the first applicable rule builds: universal rules before left rules before "
    "right rules, each in order of addition. Repeated lookups return the same object and build it "
    "once; keys in no domain raise an error and leave the table unchanged; domains are fixed when "
    "a rule is added.",
    ["inputs", "histories"],
    "All keys, domains and sets of rules (bounded number), treated as symbolic integers.",
    "Tests use two or three fixed keys; priorities between overlapping rules are untested.",
    ["stheno/lazy.py"],
    [("LazyVector._build/LazyMatrix._build/LazyTensor._get", "stheno/lazy.py")],
    [("_store, _rules, _left_rules, _right_rules", "table contents", "stheno/lazy.py")],
    ["LazyVector[...]", "LazyMatrix[...]"],
)
prop(
    "C19",
    "Declared sizes match actual sizes",
    "The size that a finite-dimensional distribution reports, the size of its noise, and the sizes "
    "of its mean and variance all agree, for single processes, Cartesian products (also nested), "
    "tuples of inputs or distributions, and posteriors.",
    ["programs", "inputs"],
    "All models with single and multi-output processes (bounded), all numbers of inputs.",
    "Tests check the inference function on a few kernels, not its agreement with evaluated sizes.",
    ["stheno/mo/infer.py", F],
    [("infer_size and dimensionality", "stheno/mo/infer.py"), ("FDD noise construction", F)],
    (),
    ["fdd.dim", "fdd.noise", "fdd.mean", "fdd.var"],
)
prop(
    "C20",
    "Processes of different models never mix",
    "Adding, multiplying or joining processes that were made in different models, in any position "
    "among the operands, raises an error, and leaves all models and processes usable and unchanged. "
    "Processes of the same model can always be combined.",
    ["programs", "histories"],
    "All choices (bounded) of operands over several models, including posteriors and processes moved into posteriors.",
    "Tests check one sum and one product.",
    [G, M],
    [("assert_same_measure", G)],
    (),
    ["p + q", "p * q", "cross(p, q)"],
)
prop(
    "C21",
    "Credible bounds are the central 95% interval",
    "Marginal credible bounds are the marginal mean plus and minus 1.96 marginal standard "
    "deviations, symmetric about the mean, ordered, and never NaN when a variance is zero or "
    "slightly negative (which counts as zero).",
    ["inputs"],
    "All means and variances, including negative diagonal elements; sizes bounded.",
    "Tests compare with the same formula on positive variances.",
    [R],
    [("Normal.marginals/marginal_credible_bounds", R)],
    (),
    ["marginals()", "marginal_credible_bounds()"],
)
prop(
    "C22",
    "Batched computation equals computation per batch element",
    "For inputs with a leading batch dimension, means, variances, posteriors, log-densities, and "
    "samples of every batch element equal those computed for that element alone.",
    ["inputs"],
    "All batch contents, kernels and means; batch shapes bounded.",
    "Tests check shapes, and values for one kernel.",
    [F, O, R],
    [("FDD, PosteriorMean/PosteriorKernel with batches", F), ("Normal.logpdf", R)],
    (),
    ["batched fdd, posterior, logpdf"],
)
prop(
    "C23",
    "Moving a distribution to another measure keeps inputs and noise",
    "Evaluating a measure at a process or finite-dimensional distribution gives the law which that "
    "process has under the measure, at the same inputs with the same noise. Copies made this way "
    "act as the original towards all other processes of the measure, and taking a subset by a mask "
    "keeps exactly the selected rows of inputs and noise.",
    ["inputs", "programs"],
    "All measures (prior and posterior), processes, inputs, masks and noises; sizes bounded.",
    "Tests check mean and kernel of one moved process.",
    [M, F],
    [("Measure.__call__", M), ("take for FDDs", F)],
    (),
    ["measure(p)", "measure(p(x, noise))", "B.take(fdd, mask)"],
)
prop(
    "C24",
    "Conditioning commutes with building processes",
    "Processes derived before conditioning, and processes derived with the same operations from "
    "the posterior processes afterwards, have the same mean, kernel and cross-covariances in the "
    "posterior. So do processes derived from the processes of the prior after conditioning, also products of processes.",
    ["programs", "inputs", "histories"],
    "All linear operations and short programs of them, all kernels, means, data; sizes bounded.",
    "Tests compare a sum and a few others at fixed inputs; every operation and every pair would be needed.",
    [M, O, G],
    [("Measure.condition", M), ("operations applied per measure", G)],
    (),
    ["posterior(f + g) versus posterior(f) + posterior(g)"],
)
prop(
    "C25",
    "Backends agree",
    "The same program on NumPy, TensorFlow, PyTorch and JAX arrays gives the same distributions.",
    ["configurations"],
    "All four backends.",
    "Tests run mostly on NumPy.",
    ["stheno/tensorflow.py", "stheno/torch.py", "stheno/jax.py", "stheno/autograd.py"],
    [("dispatch of lab", "stheno/__init__.py")],
)
prop(
    "C26",
    "Numerical stability and structured efficiency",
    "Computations stay accurate for ill-conditioned covariance matrices, and structure "
    "(diagonal, low rank, Woodbury) is exploited rather than converted to dense.",
    ["inputs", "configurations"],
    "All floating-point inputs; all matrix structures.",
    "Rounding errors and running time for large sizes are not sampled by tests.",
    [R, O, F],
    [("matrix structure from backends-matrix", R)],
)
prop(
    "C27",
    "New processes have the stated law and are independent of all others",
    "A newly constructed process has exactly the mean and kernel that it is given, where a number stands for a "
    "constant, a function for that function (for a kernel: that function times a standard normal), and nothing for a zero mean. It is "
    "independent of every process that exists in its measure and of all later ones that are not derived from it: their "
    "covariance is zero, and observing the one leaves the law of the other as it was.",
    ["inputs", "programs", "histories"],
    "All forms of means and kernels, all ways to attach to a measure, all existing processes and data; sizes bounded.",
    "Tests construct a few processes and look at the printed kernel; a covariance with an unrelated process, or a form of mean in combination with a way of attaching, is not looked at.",
    [G, M],
    [("GP.__init__", G), ("Measure.add_independent_gp", M)],
    [("Measure._pids", "processes that exist: the domain of the rules of a new one", M)],
    ["GP(mean, kernel, measure=m)", "m.kernels[p, q](x, y)"],
)
prop(
    "C28",
    "Stationarity is reported correctly",
    "A process, or a covariance between processes, only reports to be stationary if its covariance function does not change when both "
    "inputs are shifted by the same amount. Processes with a stationary kernel report it, and keep reporting it when constants or "
    "functions are added, when they are scaled, shifted, stretched or copied to the measure, and for sums of independent ones.",
    ["inputs", "programs"],
    "All stationary and other kernels, all operations and inputs; two operations in a row.",
    "Tests look at the flag of one process; shifts simplify stationary kernels, so a wrong flag silently gives wrong covariances in programs.",
    [G, "stheno/mo/adk.py", "stheno/mo/kernel.py", M],
    [("GP.stationary", G), ("AmbiguousDimensionalityKernel._stationary", "stheno/mo/adk.py")],
    (),
    ["p.stationary", "p.kernel(x + c, y + c)"],
)

prop(
    "C29",
    "The structure of matrices never changes values",
    "Means, variances, noises and products that are represented by structured matrices (zero, constant, diagonal, low-rank, Woodbury, "
    "Kronecker) are treated as the matrices that they represent: moments, marginals, log-densities, entropies, divergences, distances, "
    "arithmetic, samples, posteriors and approximations are those of the same dense matrices, and none of them raises because of the structure.",
    ["inputs", "programs"],
    "All values; every combination of structures for means, variances and noises, of kernels that give them, and all operations and queries on them.",
    "Structures arise as combinations of kernels, noises and operations, which tests sample for one; simplifications for a structure that go wrong are silent.",
    [R, M, O, F, "stheno/mo/kernel.py", G],
    [("Normal", R), ("Observations.K_x", O), ("AbstractPseudoObservations._compute", O), ("dimensionality and infer_size", F)],
    (),
    ["Normal.var", "Normal.logpdf(x)", "Normal.kl(other)", "(f | obs)(x)", "f(x, noise).sample()"],
)

prop(
    "C30",
    "Requests without meaning are refused",
    "A request that has no meaning raises an exception rather than giving an answer, and changes nothing: observed values that are not a "
    "single column (in every form of observations), a number of values that is not the number of points, noise or masks of another length "
    "than there are points, sparse approximations with noise that is not diagonal, processes that were not attached to a measure or that "
    "have no name, covariances at pairs of unequal numbers of inputs, operands that processes and normals cannot be combined with, and "
    "normals or values of different dimensions. Afterwards all processes of the model have the laws they had, and can be used as before.",
    ["inputs", "programs"],
    "All values, means and kernels; every such request at the stated sizes, in every way in which it can be made, in any order.",
    "An array of the wrong size often broadcasts and gives a wrong answer rather than an error, depending on the exact combination of forms.",
    [O, F, M, G, R, "stheno/mo/kernel.py"],
    [("AbstractObservations.__init__", O), ("_noise_diag / AbstractPseudoObservations._compute", O), ("take", F), ("assert_same_measure", G)],
    (),
    ["m | (f(x), y)", "PseudoObs(u, f(x, noise), y)", "B.take(fdd, mask)", "GP().mean", "k.elwise(x, y)", "Normal.kl(other)"],
)

prop(
    "C31",
    "Equivalent observations give equivalent posteriors",
    "Observing a process that was derived from another one is observing that other one: observations of c + f, f - h, h - f, s * f, h * f, "
    "shifted, stretched, transformed, or copied processes give the posterior that the observation of f at the moved inputs, with values and noise "
    "moved accordingly, gives, and the log-densities differ by the logarithm of the Jacobian. The same holds for the observed and the inducing "
    "process of sparse approximations, and for other bases (linear combinations of processes), permutations of points, repeated "
    "observations of one point against their weighted average, and noise-free observations of a process plus white noise against noisy ones.",
    ["inputs", "programs"],
    "All values, inputs, noises, means, kernels and operations; every form of noise, alone or next to other observations or missing values.",
    "It relates two computations with the code on derived processes, of which tests compare hardly any, at arbitrary values.",
    [M, O, G, "stheno/mo/kernel.py"],
    [("Measure.sum / mul / shift / stretch / transform / select", M), ("Measure.condition", M), ("AbstractPseudoObservations._compute", O)],
    (),
    ["m | (g(x, noise), y)", "PseudoObs(g(u), g(x, noise), y).elbo(m)", "m.logpdf(g(x, noise), y)"],
)

path = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(path, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
