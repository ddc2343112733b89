TRUST = "Trusted: TLC, the driver's projection of public observations to integers and tokens; bounded by the explored histories and the model constants given in the evidence."
PROPS = [
 dict(id="C01", title="ask/tell accounting is exact for every optimizer and interleaving",
  statement="For every registered optimizer and every interleaving of ask, suggest and tell (in any order, out of order, repeated, or for points never asked), num_ask, num_tell and num_tell_not_asked equal the numbers defined by the history. Every candidate returned by ask is new and frozen, and ask and tell do not fail, except that an optimizer without parallelization can refuse an ask while a candidate is outstanding and a tell of a point which was not asked.",
  over=["histories", "configurations"], qtext="all interleavings of the public calls, on all optimizers which run in this environment, parametrizations and numbers of workers",
  why="Tests run sequential loops on each optimizer and a few hand-written orders; the accounting depends on the interleaving.",
  files=["nevergrad/optimization/base.py", "nevergrad/optimization/optimizerlib.py"],
  mech=[("ask/tell bookkeeping", "nevergrad/optimization/base.py:Optimizer.ask, Optimizer.tell"), ("suggestions", "nevergrad/optimization/base.py:Optimizer.suggest")],
  tech="TLA+ AskTell: TLC exhaustive histories replayed on the real optimizers + trace validation (AskTellT)",
  note="All histories up to the bound on several optimizers, and random histories of all optimizers, decided by TLC. " + TRUST),
 dict(id="C02", title="records, current bests and recommendation reflect exactly the told losses",
  statement="Whatever the history of tells (repeated points, NaN, infinite or huge losses, losses of any accepted scalar type), the archive has one record per distinct point whose count, mean and minimum are those of the told losses, and the confidence bounds are ordered around the mean. For each criterion the current best is a recorded point with the minimal estimation, the recommendation of record-based optimizers minimizes its criterion, and pruning the archive keeps the best records for each criterion.",
  over=["histories", "inputs"], qtext="all sequences of (candidate, loss) up to the bound, then random long sequences with ties, repetitions and non-finite values",
  why="The update of the current bests is incremental and depends on the whole history; tests check single updates.",
  files=["nevergrad/optimization/base.py", "nevergrad/optimization/utils.py"],
  mech=[("archive and bests update", "nevergrad/optimization/base.py:Optimizer._update_archive_and_bests"), ("value statistics", "nevergrad/optimization/utils.py:MultiValue"), ("pruning", "nevergrad/optimization/utils.py:Pruning")],
  tech="TLA+ AskTell records: exhaustive histories replayed + trace validation of the archive and bests",
  note="The archive content and estimations are compared by TLC with the model after every tell. " + TRUST),
 dict(id="C03", title="suggestions are asked next, last in first out, exactly once",
  statement="Each suggested value which satisfies the constraints is provided by a following ask, the most recent suggestion first, before any other point, each exactly once, and counts as one ask. Telling it is accounted as a point which was not asked, whatever was asked or told in between.",
  over=["histories"], qtext="all interleavings of suggest, ask and tell up to the bound, random longer ones on all optimizers",
  why="Tests suggest one value and ask it immediately.",
  files=["nevergrad/optimization/base.py"], mech=[("suggestion stack", "nevergrad/optimization/base.py:Optimizer.suggest, Optimizer.ask")],
  tech="TLA+ AskTell suggestions stack: exhaustive histories replayed + trace validation",
  note="Suggested values which do not satisfy the constraints are dropped; tabu lists are excluded. " + TRUST),
 dict(id="C04", title="minimize spends exactly its budget within its workers, whatever the schedule",
  statement="Whatever the order in which the executor finishes jobs, minimize submits each asked candidate exactly once, never has more than num_workers jobs pending, asks in total exactly the budget, tells each finished evaluation exactly once to the optimizer, and terminates with a recommendation. In batch mode it waits for all jobs of a batch; an early stop or a failing evaluation leaves the counters consistent with what was told.",
  over=["schedules", "configurations", "fault_sequences"], qtext="all completion orders, worker counts, budgets and batch modes up to the bound, failures of evaluations and early stops",
  why="Tests use the sequential executor or thread pools with whatever order happens.",
  files=["nevergrad/optimization/base.py", "nevergrad/optimization/utils.py"],
  mech=[("minimize loop", "nevergrad/optimization/base.py:Optimizer.minimize"), ("sequential executor", "nevergrad/optimization/utils.py:SequentialExecutor")],
  tech="TLA+ Minimize: exhaustive schedules incl. liveness, replayed through a controlled executor + trace validation",
  note="Every schedule of the model within the bound is forced on the real loop through a controlled executor. " + TRUST),
 dict(id="C05", title="constraint-violating points are penalized, never recorded or recommended",
  statement="A point returned by ask satisfies the registered cheap constraints and is not in the tabu list, unless the optimizer warned that it did not manage to satisfy the constraints. A told point whose constraint violation is positive, or (with a known budget) which does not satisfy the cheap constraints, is never recorded nor recommended, while all others are recorded with their own loss. The loss given to the algorithm for a violating point is at least the told loss, strictly increases with the violation (for positive losses), and is the told loss for feasible points.",
  over=["histories", "inputs", "configurations"], qtext="all histories of asks and tells with feasible and violating points up to the bound, all constraint kinds (boolean, float, several, nested), tabu lengths",
  why="Tests register one constraint and check the final recommendation of one run.",
  files=["nevergrad/optimization/base.py", "nevergrad/optimization/utils.py", "nevergrad/parametrization/core.py"],
  mech=[("ask/tell constraint handling", "nevergrad/optimization/base.py:Optimizer.ask, Optimizer.tell"), ("penalty", "nevergrad/optimization/utils.py:ConstraintManager"), ("tabu list and constraints", "nevergrad/parametrization/core.py:Parameter.satisfies_constraints")],
  tech="TLA+ Constraints: exhaustive tell/tabu histories replayed on the real optimizers + trace validation",
  note="The penalty of a constraint registered on a sub-parameter is not required to be positive (see DESIGN.md). " + TRUST),
 dict(id="C07", title="Pareto front and hypervolume losses agree with the told losses",
  statement="After any history of multiobjective tells, the front is made of told points with their losses, none dominated by another one, covering all told points which are within the reference bounds. The scalar loss given to the algorithm is the negative of the hypervolume for a point which improves it, is not better than that for other points, and is positive outside the bounds. Requested subsets of the front have the requested size and belong to the front.",
  over=["histories", "inputs"], qtext="all sequences of small integer loss vectors (2 and 3 objectives, ties, duplicates, automatic or explicit reference), random long ones, all subset criteria",
  why="Tests check a fixed list of losses; the incremental filtering of the front depends on the order of the tells.",
  files=["nevergrad/optimization/multiobjective/core.py", "nevergrad/optimization/multiobjective/hypervolume.py", "nevergrad/optimization/base.py"],
  mech=[("incremental Pareto front", "nevergrad/optimization/multiobjective/core.py:HypervolumePareto"), ("hypervolume", "nevergrad/optimization/multiobjective/hypervolume.py:HypervolumeIndicator"), ("front of the optimizer", "nevergrad/optimization/base.py:Optimizer.pareto_front")],
  tech="TLA+ Pareto: grid-cell hypervolume and dominance, exhaustive histories replayed + trace validation",
  note="The hypervolume is computed in the model by counting dominated unit cells. " + TRUST),
 dict(id="C08", title="non-dominated ranking sorts populations by front, then by spread",
  statement="For every population of multiobjective losses, the rank of an individual is the index of its front: the individuals which are only dominated by individuals of lower ranks. The selection of k individuals keeps whole lower fronts first and the most spread individuals of the last one, the extreme ones first, without duplicates.",
  over=["inputs"], qtext="all small populations with ties and duplicates, random larger ones with 2 to 4 objectives",
  why="Tests use a single fixed population.",
  files=["nevergrad/optimization/multiobjective/nsga2.py"],
  mech=[("fast non dominated ranking", "nevergrad/optimization/multiobjective/nsga2.py:rank, FastNonDominatedRanking"), ("crowding distance", "nevergrad/optimization/multiobjective/nsga2.py:CrowdingDistance")],
  tech="TLA+ Ranking: recursive definition of fronts, exhaustive populations replayed + trace validation",
  note="Fronts are recomputed by TLC from their definition. " + TRUST),
 dict(id="C10", title="recast optimizers follow the wrapped library under every schedule",
  statement="Whatever the interleaving of the user thread and the thread of the wrapped library, every point which the library evaluates is asked exactly once, in order, and the library receives exactly the loss told for that point (the losses of the batch, each at its place, in batch mode). Asking while a point is outstanding is refused, once the library returned random points are provided, errors of the library are raised to the user, and the thread stops when the optimizer is deleted and never prevents the program from ending. A pickled and reloaded sequential optimizer continues with the same points.",
  over=["schedules", "histories", "fault_sequences"], qtext="all schedules of the two threads and all user histories up to the bound, library ends (return, error), random histories on the real libraries",
  why="Tests run the libraries in a sequential loop with whatever schedule happens.",
  files=["nevergrad/optimization/recaster.py", "nevergrad/optimization/recastlib.py"],
  mech=[("messaging thread", "nevergrad/optimization/recaster.py:_MessagingThread"), ("sequential recast", "nevergrad/optimization/recaster.py:SequentialRecastOptimizer"), ("batch recast", "nevergrad/optimization/recaster.py:BatchRecastOptimizer")],
  tech="TLA+ Recast: two-process model, all schedules forced on the real threads + trace validation",
  note="The schedules of the model are forced on the real threads through instrumented queues. " + TRUST),
 dict(id="C13", title="an operation on a parameter instance changes that instance only",
  statement="Whatever the sequence of copies, children, samples, mutations, recombinations, assignments, freezes, seeds and marks on the instances of a parametrization, each operation changes its target only: values, generations, lineage, losses, freezing and random states of all other instances stay the same, sub-parameters included. Copies and children have the value of their parent, children its generation plus one, and a frozen instance refuses all modifications and keeps its value.",
  over=["histories", "configurations"], qtext="all sequences of operations up to the bound on a set of kinds of parameters, random longer ones on all kinds (bounds, logs, integers, choices, containers, layers)",
  why="Sharing of mutable state between instances only shows after particular sequences; tests check a few operations on fresh parameters.",
  files=["nevergrad/parametrization/core.py", "nevergrad/parametrization/_layering.py", "nevergrad/parametrization/data.py", "nevergrad/parametrization/container.py", "nevergrad/parametrization/choice.py"],
  mech=[("copy and heritage", "nevergrad/parametrization/core.py:Parameter.copy, Parameter.spawn_child"), ("layers", "nevergrad/parametrization/_layering.py:Layered.copy"), ("freezing", "nevergrad/parametrization/core.py:Parameter.freeze")],
  tech="TLA+ Param: exhaustive sequences of operations replayed on the real parameters + trace validation",
  note="All instances are observed after each operation. " + TRUST),
 dict(id="C14", title="standardized data is the sorted concatenation of the data of the leaves",
  statement="For every parametrization, the standardized data has the size of its dimension and is the concatenation of the data of its leaves, sorted by key in containers, options before their weights in choices; the data of an instance with respect to itself is zero. Setting data gives each leaf its own segment with respect to the reference (centered and scaled by sigma), selects the option defined by the weights, leaves the reference unchanged, and getting the data of the result with the same reference gives the same data back.",
  over=["configurations", "inputs"], qtext="all parametrizations up to the bound (arrays, constants, tuples, dictionaries, instrumentations, choices, transition choices, repetitions), random deeper ones, random references and integer data",
  why="The layout depends on the nesting and order of keys; tests use few fixed structures and mostly round trips from the same reference.",
  files=["nevergrad/parametrization/container.py", "nevergrad/parametrization/choice.py", "nevergrad/parametrization/data.py", "nevergrad/parametrization/helpers.py"],
  mech=[("containers", "nevergrad/parametrization/container.py:Container._internal_set_standardized_data"), ("choices", "nevergrad/parametrization/choice.py:Choice, TransitionChoice"), ("arrays", "nevergrad/parametrization/data.py:Data._internal_set_standardized_data"), ("flattening", "nevergrad/parametrization/helpers.py:list_data")],
  tech="TLA+ Layout: all small trees explored and built for real, data judged by trace validation",
  note="Leaves are affine arrays (integer data); bounded and logarithmic leaves are in C15. " + TRUST),
 dict(id="C15", title="values of bounded, integer and composed parameters stay in their domain",
  statement="For every stack of operations (additions, multiplications, modulo, clipping, bouncing, integer casting) the value of a parameter is the image of its underlying value through the operations in order, assignments are accepted exactly within the bounds and then read back, and bounds write the bounded value back into the data. Whatever the sequence of mutations, samples, recombinations, assignments and standardized data, the values of bounded parameters (all methods, scalar or array bounds, one side or two, logarithmic, angles, transformed) stay within their bounds up to float precision, integers are integers within the bounds, choices are among their options.",
  over=["inputs", "configurations", "histories"], qtext="all stacks of operations and sequences of assignments and data up to the bound, random longer ones, random domains of all kinds under random histories",
  why="Each operation alone is tested on a few values; the composition, order of insertion, write-back and float rounding at the bounds are not.",
  files=["nevergrad/parametrization/_datalayers.py", "nevergrad/parametrization/_layering.py", "nevergrad/parametrization/data.py", "nevergrad/parametrization/transforms.py", "nevergrad/parametrization/choice.py"],
  mech=[("operations", "nevergrad/parametrization/_datalayers.py:ForwardableOperation, Modulo, Bound"), ("integers", "nevergrad/parametrization/_layering.py:Int"), ("order of the layers", "nevergrad/parametrization/_layering.py:Layered.add_layer"), ("bounds", "nevergrad/parametrization/transforms.py:Clipping, ArctanBound, TanhBound, CumulativeDensity")],
  tech="TLA+ Layers: all stacks and histories up to the bound replayed on the real parameters + trace validation",
  note="Exact arithmetic on units of 1/64; float precision at the bounds is allowed (9 digits). " + TRUST),
 dict(id="C09", title="population algorithms keep their best members and a sound queue",
  statement="For the DE, PSO and ES families, whatever the interleaving of asks, tells (late, repeated) and told points never asked, a told individual takes the place of its own lineage only according to the selection rule, so that the best member of a full population never gets worse, and the population keeps its size. Each new point descends from a living member chosen fairly (never evaluated ones twice before the others once), and no history makes ask or tell fail.",
  over=["histories", "configurations"], qtext="all interleavings of ask, tell, repeated tell, suggestion and told not asked points up to the bound for small populations, random long histories for all the variants",
  why="Tests run these algorithms sequentially to a final loss; the bookkeeping of uids and queues depends on the interleaving.",
  files=["nevergrad/optimization/differentialevolution.py", "nevergrad/optimization/es.py", "nevergrad/optimization/optimizerlib.py", "nevergrad/optimization/utils.py"],
  mech=[("DE population", "nevergrad/optimization/differentialevolution.py:_DE._internal_tell_candidate"), ("PSO population", "nevergrad/optimization/optimizerlib.py:_PSO"), ("evolution strategies", "nevergrad/optimization/es.py:_EvolutionStrategy"), ("queue of uids", "nevergrad/optimization/utils.py:UidQueue")],
  tech="TLA+ Population: exhaustive histories of the population model replayed on DE/PSO/ES + trace validation of the lineages of all candidates",
  note="Observed through the public lineage (parents_uids, generation) of the asked candidates; single objective. " + TRUST),
 dict(id="C11", title="a saved and reloaded optimizer continues exactly as the original",
  statement="At any point of any history, saving an optimizer (dump/load or pickle, with its pending candidates) and loading it gives an optimizer which answers all the following asks, tells and recommendations exactly as the original would. The original and its copies are independent, and saving changes nothing.",
  over=["crash_points", "histories"], qtext="saves and loads at any point of the histories, continuing from any save, over all optimizers which support pickling",
  why="Tests dump and load one optimizer once and check that it runs.",
  files=["nevergrad/optimization/base.py", "nevergrad/optimization/optimizerlib.py", "nevergrad/parametrization/core.py", "nevergrad/optimization/utils.py"],
  mech=[("dump and load", "nevergrad/optimization/base.py:Optimizer.dump, Optimizer.load"), ("state of the parametrization", "nevergrad/parametrization/core.py:Parameter")],
  tech="TLA+ Replay: tree of the input histories; schedules of inputs, saves and loads over replicas generated by TLC and random ones, executed on the real optimizers and judged by TLC (ReplayT)",
  note="The global random state is the same for all the replicas. Optimizers which run a library in a thread refuse pickling and are excluded, so are copy.deepcopy and candidates pickled apart from their optimizer. " + TRUST),
 dict(id="C12", title="runs are a function of the seed of the parametrization and the inputs",
  statement="Two optimizers created with the same settings and the same seeded parametrization.random_state provide exactly the same points and recommendations for the same inputs, whatever is done meanwhile with the global random states, with other optimizers, or in another process. Reading their state and their recommendation does not change what follows.",
  over=["histories", "schedules", "configurations"], qtext="interleavings of replicas with noises (global random state, other optimizers, reads), and runs in several interpreters with different hash seeds, over all optimizers",
  why="Tests seed the global random state as well and run one optimizer at a time.",
  files=["nevergrad/optimization/base.py", "nevergrad/optimization/optimizerlib.py", "nevergrad/optimization/differentialevolution.py", "nevergrad/optimization/metamodel.py", "nevergrad/parametrization/core.py"],
  mech=[("random state", "nevergrad/optimization/base.py:Optimizer._rng"), ("lazy and shared random state", "nevergrad/parametrization/core.py:Parameter.random_state")],
  tech="TLA+ Replay: tree of the input histories; schedules over seeded replicas generated by TLC and random ones, executed on the real optimizers and judged by TLC (ReplayT)",
  note="Excluded: libraries with their own random state (directsearch, NLOPT GN methods and PRAXIS, pymoo CMAES), StupidRandom's recommendation which is random by definition, and reading the value of a parametrization with random choices before it was drawn. " + TRUST),
 dict(id="C16", title="benchmark plans are split, interrupted and resumed without loss or repetition",
  statement="Whatever the sequence of splits, the chunks of a plan hold each experiment of each repetition exactly once, with the seeds of the plan. Whatever the evaluations at which the computation of a chunk is interrupted, checkpointed and resumed, each experiment has exactly one row in the end, used exactly its budget, reports its error, and its loss is the one of its recommendation. Seeded experiments give the same rows whichever chunk computes them.",
  over=["histories", "crash_points", "configurations"], qtext="all sequences of splits, interrupted computations and checkpoints up to the bound on small plans, random plans, optimizers and executors beyond",
  why="Tests run a few plans once, without interruption inside of an experiment; the crash point and the way the plan is cut are free.",
  files=["nevergrad/benchmark/core.py", "nevergrad/benchmark/xpbase.py", "nevergrad/benchmark/execution.py"],
  mech=[("chunks", "nevergrad/benchmark/core.py:BenchmarkChunk"), ("selection of experiments", "nevergrad/benchmark/core.py:Moduler"), ("experiment", "nevergrad/benchmark/xpbase.py:Experiment")],
  tech="TLA+ Plan: chunks as partitions of the experiments, computations with crash points; TLC histories run on the real benchmark + trace validation",
  note="Losses are quantized to integers; interruptions happen inside of the evaluations and when a finished experiment is processed."),
 dict(id="C19", title="composite optimizers ask and tell the right members",
  statement="Chains, portfolios, variable splits, rescalings, metamodels and wizards ask the member whose turn it is (budgets of the chain, free workers of the portfolio, selection of the best member after the warmup) and provide its point unchanged but for the documented transformation. Each member which is concerned by a told point is told exactly once, with its own candidate when it provided it, with the right coordinates and the right loss; points which were asked are always accepted, even if some members refuse points of others.",
  over=["histories", "configurations"], qtext="all histories of ask, tell (asked, foreign, again) and suggest up to the bound on 14 compositions, random histories on random compositions beyond",
  why="Tests run a few compositions on a function; the routing depends on the order of tells, on refusals and on budgets which are exceeded.",
  files=["nevergrad/optimization/optimizerlib.py"],
  mech=[("portfolio", "nevergrad/optimization/optimizerlib.py:Portfolio"), ("chain", "nevergrad/optimization/optimizerlib.py:_Chain"), ("split", "nevergrad/optimization/optimizerlib.py:SplitOptimizer"), ("rescaling", "nevergrad/optimization/optimizerlib.py:_Rescaled"), ("wizard", "nevergrad/optimization/optimizerlib.py:NGOptBase")],
  tech="TLA+ Meta: routing of points and losses between members; TLC histories run on the real optimizers with recording members + trace validation",
  note="Members are instrumented optimizers; distinct losses (ties for the best point are not specified)."),
 dict(id="C20", title="the executor with simulated time is a discrete event simulation",
  statement="In steady mode exactly one unread result is available at any time, the one with the earliest release (submission time plus delay, ties by order of submission), in batch mode all of them are. Reading a result provides the value of its own job, moves the simulated time to its release and never backwards, and each job is evaluated exactly once, also when evaluations are interrupted and retried or results are read again.",
  over=["schedules", "histories", "fault_sequences"], qtext="all sequences of submissions (delays, faults), polls and reads up to the bound, random long ones beyond",
  why="Tests check two short scenarios; the order of releases depends on all the delays and on the order of the reads.",
  files=["nevergrad/benchmark/execution.py"],
  mech=[("executor", "nevergrad/benchmark/execution.py:MockedTimedExecutor"), ("job", "nevergrad/benchmark/execution.py:MockedTimedJob")],
  tech="TLA+ Executor: discrete event model; TLC histories run on the real executor + trace validation",
  note="Integer delays."),
 dict(id="C17", title="generations of CMA, EDA, TBPSA are complete; one plus one follows the best",
  statement="CMA asks the points of its library in their order and tells it complete generations only, in the order of the tells, each told point exactly once, whatever the interleaving of asks, tells, foreign points, restarts and refused generations. EDA and TBPSA move their center to the average of the best points of each complete generation, whose size follows the documented control (at least the number of workers), new points descend from the best ones of the last generation in turn. One plus one starts from the center then from the best point, multiplies its step by 2 when the best loss is improved and by 0.84 when the loss is worse, and its noisy variants evaluate known points again exactly when their rule says so.",
  over=["histories", "configurations", "fault_sequences"], qtext="all histories of asks, tells and foreign points up to the bound on small generations, random long histories with adaptation, restarts and refusals on 21 variants",
  why="Tests run a few iterations in sequential mode; the boundaries of generations depend on the interleaving and on the losses.",
  files=["nevergrad/optimization/optimizerlib.py"],
  mech=[("CMA", "nevergrad/optimization/optimizerlib.py:_CMA"), ("EDA", "nevergrad/optimization/optimizerlib.py:EDA"), ("TBPSA", "nevergrad/optimization/optimizerlib.py:_TBPSA"), ("population size", "nevergrad/optimization/optimizerlib.py:_PopulationSizeController"), ("one plus one", "nevergrad/optimization/optimizerlib.py:_OnePlusOne")],
  tech="TLA+ Generations: generations, size control and step size; TLC histories run on the real optimizers with a recorded library + trace validation",
  note="Libraries of CMA are instrumented, not modelled; exact ties of the size control and equal losses inside of a generation are not specified."),
 dict(id="C18", title="callbacks see every ask and tell; stoppers, printers and logs are exact",
  statement="Whatever the history, each registered callback is called once per ask or tell, in the order of registration, with the counters, candidate and loss of that operation, and never by another operation. Early stopping raises at an ask exactly when its window of asks without improvement or its duration is exceeded (minimize then waits for what is running); printers and loggers print at the first tell and then at most every interval. The log of parameters has exactly one row per tell of the kept sessions, with its values; the dump and the progress bar show the current state.",
  over=["histories", "configurations", "schedules"], qtext="all histories of registrations, asks, tells and clock ticks up to the bound, random longer ones on many optimizers, early stops of minimize with free completion orders",
  why="Tests register one callback and look at one run; windows, intervals and logs depend on the order of asks, tells and time.",
  files=["nevergrad/optimization/callbacks.py", "nevergrad/optimization/base.py"],
  mech=[("callbacks", "nevergrad/optimization/callbacks.py"), ("registration", "nevergrad/optimization/base.py:Optimizer.register_callback")],
  tech="TLA+ Callbacks: TLC histories run on real optimizers + trace validation",
  note="The clock is simulated; the best loss is the recommended one in the absence of noise."),
 dict(id="C22", title="one-shot samplings are low discrepancy sequences and use exactly their budget",
  statement="Halton and Hammersley samplers provide, in each coordinate, the radical inverses of the successive integers in the successive primes (up to one permutation of the digits per base which keeps 0 if scrambled), evenly spaced first coordinate for Hammersley, and Latin hypercube samplers have exactly one point per stratum in each coordinate; reinitialized samplers provide the same points, and none provides more than its budget. The one-shot optimizers map these points to their bounds or distribution, with the documented middle point and opposite points, for any budget and dimension.",
  over=["inputs", "configurations", "histories"], qtext="all samplers, budgets, dimensions and draws up to the bound, random larger ones; all options of the one-shot optimizers",
  why="Tests check a handful of points of the sequences and one distance statistics.",
  files=["nevergrad/optimization/sequences.py", "nevergrad/optimization/oneshot.py"],
  mech=[("samplers", "nevergrad/optimization/sequences.py"), ("one-shot optimizers", "nevergrad/optimization/oneshot.py")],
  tech="TLA+ OneShot: sequences defined by their digits; TLC cases run on the real samplers + trace validation",
  note="Coordinates are compared as exact fractions."),
 dict(id="C23", title="mutations, crossovers and choices draw within their documented outcomes",
  statement="Translations are cyclic shifts along their axes, jumps move one chunk, crossovers of arrays take one block of at most the given size (and never a whole axis) from the other array, local mutations modify one block only; recombinations are averages in the standardized space. Discrete mutations modify at least one variable (exactly one for rls, the requested number on average otherwise) and move it to another value, crossovers of points take each value from one of the parents following their type, and tournaments select the best of their draw. Choices draw their options with the softmax of their weights (the first largest one if deterministic), transition choices move by their transition weights, an assigned option is the value, mutating a choice mutates the selected options only, and normal variables are discretized in equal quantiles.",
  over=["inputs", "configurations", "histories"], qtext="all shapes, axes and sizes of small arrays with hundreds of draws for each, all operators over dimensions, arities and parents, random histories of choices, random weights",
  why="Tests check single draws of a few shapes; off-by-one sizes, biased draws and unreachable outcomes only show on the set of the outcomes.",
  files=["nevergrad/parametrization/mutation.py", "nevergrad/parametrization/choice.py", "nevergrad/parametrization/discretization.py", "nevergrad/optimization/mutations.py"],
  mech=[("mutations of arrays", "nevergrad/parametrization/mutation.py"), ("choices", "nevergrad/parametrization/choice.py"), ("softmax and quantiles", "nevergrad/parametrization/discretization.py"), ("discrete mutations", "nevergrad/optimization/mutations.py:Mutator")],
  tech="TLA+ Variation: sets of outcomes of each operator; TLC cases drawn on the real operators + trace validation",
  note="Draws are compared to their weights with 6 standard deviations, with fixed seeds. The fast GA mutation ignores the number of values below 5 variables (known finding)."),
 dict(id="C21", title="experiment functions: values, translations, evaluations and independent copies",
      statement="Artificial functions sum, average or maximize the documented core functions over their blocks, ignore their useless variables, add noise to calls but never to evaluations, use translations and rotations drawn from the random state of their parametrization (scaled by the factor, kept by pickling, drawn again by copies), and provide the documented pseudotimes. Copies, deep copies and pickled experiment functions keep the arguments, descriptors, flags, constraints and upper bounds, are equivalent to their original, and share no state with it: what is later modified on one is not modified on another. Symmetries reflect each variable around the middle of its own bounds, packed functions provide one loss per function, evaluations of fronts are hypervolumes or the best value of the test function, and cross-validations leave each function out once.",
      over=["inputs", "histories", "configurations"],
      qtext="all core functions over small integer points, all histories of copies and modifications up to 3 (4) operations, all symmetries, random blocks, noises, rotations, translations and packs",
      why="Tests check a few values and one copy; state shared between copies, one variable taken for all and noise in evaluations only show over histories and dimensions.",
      files=["nevergrad/functions/base.py", "nevergrad/functions/functionlib.py", "nevergrad/functions/corefuncs.py", "nevergrad/functions/helpers.py", "nevergrad/functions/utils.py"],
      mech=[("copies, descriptors and symmetries", "nevergrad/functions/base.py:ExperimentFunction"), ("artificial functions", "nevergrad/functions/functionlib.py:ArtificialFunction"), ("core functions", "nevergrad/functions/corefuncs.py"), ("special evaluations", "nevergrad/functions/helpers.py")],
      tech="TLA+ Experiments: histories of copies and exact values; TLC histories replayed on the real functions + trace validation",
      note="Core functions are judged exactly on small integers; rotations only through the norm they keep (sphere)."),
 dict(id="C24", title="instrumented folders and commands: exact texts, isolation, failures reported",
      statement="A folder is accepted if and only if its placeholders exist, have distinct names over all its files and its commented lines are well formed; instances contain each text with its placeholders replaced by the provided values (arrays in the language of the file, commented lines enabled), exactly one value per placeholder being required, and all the other files as they are. The original folder is never modified, instances are independent from one another, and no temporary folder remains once an instance is left (even through an exception) or its user deleted. Commands receive their arguments in order whatever they contain, return their whole output and its last line as a number, and raise with the content of the error stream whenever the process fails or is killed, whatever the size of the outputs.",
      over=["inputs", "histories", "fault_sequences"],
      qtext="random folders of up to 5 files with all comment types, all histories of a folder up to 5 operations (several users, copies, failures), random commands with large outputs and signals",
      why="Tests instantiate two example folders once; duplicated names over files, left temporary folders and full pipes need other folders, histories and sizes.",
      files=["nevergrad/parametrization/instantiate.py", "nevergrad/parametrization/utils.py"],
      mech=[("placeholders and lines", "nevergrad/parametrization/instantiate.py:FileTextFunction"), ("instances of folders", "nevergrad/parametrization/instantiate.py:FolderInstantiator"), ("temporary copies", "nevergrad/parametrization/utils.py:TemporaryDirectoryCopy"), ("commands", "nevergrad/parametrization/utils.py:CommandFunction")],
      tech="TLA+ Folders: life of a folder and its texts; TLC histories replayed on real scratch folders + trace validation",
      note="Everything runs in scratch folders created and removed by the check; commands are harmless shell scripts."),
]

# property -> reason
NOT_APPLICABLE: dict = {}
