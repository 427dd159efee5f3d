#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = []
def p(id, title, statement, over, qtext, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])))

p("P01", "Node life-cycle: training phases only move forward and are never skipped",
  "A trainable node goes through its training phases strictly in order: each phase is closed exactly once, by an explicit stop or implicitly by the first use in the last phase, every hook of a phase is called for that phase only, and the reported current phase, remaining phases and 'is training' flag always agree with that history. Calls that do not fit the current stage (training a non-trainable or finished node, stopping with nothing to stop, executing or inverting with unfinished earlier phases, inverting a non-invertible node) are rejected with the documented error class and leave the node's stage unchanged.",
  ["histories", "programs"], "every node class and every sequence of train / stop_training / execute / inverse / introspection calls, legal or not, including user-defined nodes with any number of phases and hooks that raise",
  "tests drive each node once through the happy path and sample a handful of misuse calls; the property is about every call history and every node class.",
  ["mdp/signal_node.py", "mdp/classifier_node.py", "mdp/signal_node_online.py"],
  [("life-cycle checks", "mdp/signal_node.py: Node.train, stop_training, _pre_execution_checks, _pre_inversion_checks, _if_training_stop_training"), ("phase bookkeeping", "mdp/signal_node.py: Node._train_phase, _get_train_seq, get_remaining_train_phase")])

p("P02", "Node data contract: shapes, dims and dtype are enforced, inputs never mutated",
  "Every array handed to a node is checked: it must have two dimensions, at least one row and the node's number of columns, dimensions and number type once fixed (by the user or the first data) never change, and anything else is rejected with the documented error without altering the node. Every accepted execution returns one array with the node's output dimension and number type (one row per input row unless the node documents otherwise), and no call ever modifies the arrays passed to it.",
  ["inputs", "configurations"], "every node, every number type and memory layout (float32/float64/integer, Fortran order, strided, read-only, single row), every declared or inferred dimension, valid or malformed data",
  "tests feed a few well-formed float64 C-ordered arrays; aliasing and layout bugs need read-only, strided or integer inputs and checks on the caller's buffer after each call.",
  ["mdp/signal_node.py", "mdp/classifier_node.py", "mdp/nodes/*.py", "mdp/utils/routines.py"],
  [("dimension/dtype setters", "mdp/signal_node.py: set_input_dim, set_output_dim, set_dtype, _check_input, _check_output, _refcast"), ("per-node bodies", "mdp/nodes/*.py: _train, _execute, _inverse")])

p("P03", "Training does not depend on chunking nor on the caller's buffers",
  "For every batch-trained node, the trained result depends only on the sequence of training samples: presenting the same samples in one block or split in any way into consecutive chunks yields the same node up to rounding (for nodes that use temporal structure, given the documented overlap). The caller may reuse or overwrite an array after passing it in without affecting what was learned.",
  ["inputs", "histories"], "all training sets, all ways of splitting them into chunks (including single-sample chunks where permitted) and all buffer-reuse patterns of the caller",
  "tests train from one block or one fixed chunking with fresh arrays; the number of splits is exponential and a retained reference only shows when the caller overwrites the buffer.",
  ["mdp/signal_node.py", "mdp/utils/covariance.py", "mdp/nodes/*.py"],
  [("cumulated data", "mdp/signal_node.py: Cumulator / VariadicCumulator"), ("streaming statistics", "mdp/utils/covariance.py: CovarianceMatrix.update and friends; mdp/nodes/*: _train")])

p("P04", "Execution is a repeatable row-wise function that leaves the node unchanged",
  "For every node without documented temporal or stochastic behaviour, the output row for a sample depends only on that sample and the trained node: executing any subset, permutation, duplication or splitting of rows gives the corresponding rows, as does repeating the call. Execution and inversion never change what later calls return.",
  ["inputs", "histories"], "all trained nodes, all input batches and all interleavings of execute/inverse calls with different batch sizes",
  "tests execute one batch once per node, so state carried over between rows or calls is invisible to them.",
  ["mdp/nodes/*.py", "mdp/signal_node.py", "mdp/hinet/*.py"],
  [("execution bodies", "mdp/nodes/*.py: _execute, _inverse, _label, _prob, _rank")])

p("P05", "Inversion undoes execution, exactly or in the documented projection sense",
  "For every node that reports itself invertible, inverting an execution result reproduces the input when no dimension was dropped; when dimensions were dropped, inversion yields the documented pseudo-inverse: executing it again returns the same features, and orthogonal projections are reproduced as the least-squares reconstruction. Nodes that report themselves non-invertible refuse to invert, and the reported invertibility agrees with what the call does.",
  ["inputs", "configurations"], "all invertible nodes, flows and layers, all training data with full-rank statistics, all output dimensions and number types",
  "tests check a single round trip for a few nodes with full output dimension and float64 data.",
  ["mdp/signal_node.py", "mdp/nodes/pca_nodes.py", "mdp/nodes/sfa_nodes.py", "mdp/nodes/ica_nodes.py", "mdp/linear_flows.py", "mdp/hinet/layer.py", "mdp/hinet/switchboard.py"],
  [("inverse", "Node.inverse and per-node _inverse; Flow._inverse_seq; Layer._inverse; Switchboard._inverse")])

p("P06", "Copying, pickling and saving are faithful and isolated",
  "A copy, a pickle round trip, or a save/load to a file or string of a node or flow in any stage behaves identically to the original in every later call: same outputs, same remaining training phases, same result of further training. Original and duplicate share no state, so nothing done to one is visible in the other, and duplicating leaves the original as it was.",
  ["histories", "configurations"], "every node, flow and layer at every point of its life-cycle (untrained, mid-phase, between phases, trained), every serialization protocol and both file and in-memory forms",
  "tests pickle one fresh or fully trained node; mid-training duplicates, aliasing and all protocols are not sampled.",
  ["mdp/signal_node.py", "mdp/linear_flows.py", "mdp/linear_flows_online.py", "mdp/hinet/flownode.py", "mdp/nodes/misc_nodes.py"],
  [("duplication", "Node.copy, Node.save, Flow.copy, Flow.save, FlowNode.copy, NoiseNode.save, mdp.linear_flows saving")])

p("P07", "A flow behaves exactly like its nodes applied one after the other",
  "Training a flow gives every node the same result as training the nodes by hand in order, each on the data produced by the preceding trained nodes, for every accepted form of training data (one array, one list or iterator per node, none for finished nodes, extra supervision arguments); executing, partially executing and inverting a flow equals composing the node operations, with iterators giving the concatenated result. No node is trained twice, skipped, or given another node's data or arguments.",
  ["programs", "inputs", "configurations"], "all node sequences (trainable or not, multi-phase, supervised), all data forms and chunkings, all partial execution depths",
  "tests cover a few fixed flows and data forms; combinations of multi-phase and supervised nodes with iterators and Nones are unbounded.",
  ["mdp/linear_flows.py"],
  [("training loop", "mdp/linear_flows.py: Flow.train, _train_node, _train_check_iterables"), ("execution", "mdp/linear_flows.py: Flow.execute, _execute_seq, inverse, _inverse_seq")])

p("P08", "Flow editing is list-like, consistent, and all-or-nothing",
  "A flow behaves like the list of its nodes under indexing, slicing, membership, iteration, concatenation, insertion, append, extend, pop, deletion and assignment: the resulting node sequence equals that of the same operation on a list and slices and sums are flows of the same kind. An edit that would join nodes with mismatching dimensions, or put a non-node in the flow, is refused with the documented error and leaves the flow exactly as it was; hence dimensions of neighbours always agree, and an online flow never holds an ordinary node still to be trained except (not in a circular one) at its end.",
  ["histories", "programs"], "all sequences of container operations with valid and invalid nodes, positions and slices, on plain, checkpoint and online flows",
  "tests apply one operation of each kind; atomicity under a refused edit in the middle of a history is not sampled.",
  ["mdp/linear_flows.py", "mdp/linear_flows_online.py"],
  [("container protocol", "Flow.__setitem__, __delitem__, __add__, __iadd__, insert, append, extend, pop, _check_nodes_consistency")])

p("P09", "A failing flow reports the culprit, recovers its state and stays usable",
  "When a node or the data source of a flow fails during training or execution, the failure reaches the caller as the documented flow error (naming the failing node and carrying the original error) without being swallowed, no later node is touched, and nodes already finished stay trained. With crash recovery enabled, a file holding the flow as it was at the moment of failure is written to the announced place; after the cause is removed the same flow can be trained and used again to the same result.",
  ["fault_sequences", "crash_points"], "every node position, every hook (train, stop_training, execute, inverse), every chunk index, and every error class; recovery set to off, on or a file name",
  "tests inject one failure in one node; the property is over all fault positions and what happens afterwards.",
  ["mdp/linear_flows.py", "mdp/parallel/parallelflows.py"],
  [("fault reporting and dump", "Flow._propagate_exception, _stop_training_hook, _train_node, set_crash_recovery; FlowExceptionCR")])

p("P10", "Checkpoints run once per node, at the right moment, and do not alter training",
  "Training with checkpoints yields the same flow as training without them. Each checkpoint is called exactly once, right after its own node finished training and before any later node is trained, with that node; values it returns become available under the flow as documented and saved files contain the node as it was at that moment.",
  ["programs", "configurations"], "all flows, all assignments of checkpoint functions (single, per-node list, None, shorter lists), all data forms and already-trained nodes",
  "tests use one or two checkpoint layouts.",
  ["mdp/linear_flows.py", "bimdp/biflow.py", "mdp/parallel/parallelflows.py"],
  [("checkpoints", "CheckpointFlow.train, CheckpointFunction, CheckpointSaveFunction, NodeResults; BiCheckpointFlow; ParallelCheckpointFlow")])

p("P11", "Extensions add behaviour only while active and restore classes completely",
  "While an extension is active every class with a registered extension (and its subclasses, unless overridden) shows the extension's attributes, calls to the original can be chained, and other classes are untouched; deactivating restores every class to exactly its previous attributes. This holds for any order of activations and deactivations, nested use, several extensions at once, use as context or decorator and errors inside; conflicts between extensions overriding the same attribute are refused without partial activation, and activating leaves results of nodes otherwise unchanged.",
  ["histories", "programs", "fault_sequences"], "all class hierarchies, all sets of extensions and all activation/deactivation histories including failing ones",
  "tests cover a few hand-written hierarchies and never compare complete class state before and after.",
  ["mdp/extension.py"],
  [("injection", "mdp/extension.py: ExtensionNodeMetaclass, extension_method, activate_extension(s), deactivate_extension(s), with_extension, extension context manager")])

p("P12", "Caching is transparent",
  "With caching active, globally or for chosen classes or instances, every execution returns exactly the values an uncached execution of the same node on the same data would return, including after the node was retrained or altered, for different nodes, arguments and number types, and across cache directories. A call with previously seen data on an unchanged node is served without recomputation, and deactivating caching restores plain behaviour.",
  ["histories", "inputs", "configurations"], "all interleavings of executions, retraining, parameter changes, activations and deactivations, on any mix of cached and uncached nodes",
  "tests check hit counts in a single scenario; staleness depends on the history.",
  ["mdp/caching/caching_extension.py"],
  [("cached execution", "mdp/caching/caching_extension.py: CacheExecuteExtensionNode, activate_caching, deactivate_caching, cache context manager, set_cachedir")])

p("P13", "Schedulers run every task exactly once and return ordered, correct results",
  "Whatever scheduler is used and however tasks finish, every added task is executed exactly once, by the callable that was current when it was added, and results are handed out complete, in the order of addition for the ordered container (with documented argument passing), nothing carried over to the next round. The configured number of workers is never exceeded and is actually used, and threads or processes share no mutable task state.",
  ["schedules", "histories", "configurations"], "all interleavings of task completion, all worker counts, queue and container kinds, callables replaced between tasks, and repeated rounds on one scheduler",
  "tests run a dozen instantaneous tasks; the order of completion is never varied and no event log is checked.",
  ["mdp/parallel/scheduling.py", "mdp/parallel/thread_schedule.py", "mdp/parallel/process_schedule.py"],
  [("submission and collection", "Scheduler.add_task, _store_result, get_results; OrderedResultContainer, ListResultContainer"), ("workers", "ThreadScheduler._process_task, ProcessScheduler._process_task/_task_thread")])

p("P14", "Schedulers never lock up: misuse and shutdown are safe and errors surface",
  "Collecting results with nothing outstanding, adding a task without a callable, using a scheduler after misuse, entering and leaving it as a context, and repeated shutdown all terminate, raise only documented errors, and leave the scheduler usable or shut down; worker processes are gone after shutdown. A task that raises never makes the caller wait forever nor changes the results of the other tasks without notice.",
  ["fault_sequences", "schedules"], "all schedulers, all misuse sequences and all positions of failing tasks",
  "tests only run successful tasks.",
  ["mdp/parallel/scheduling.py", "mdp/parallel/thread_schedule.py", "mdp/parallel/process_schedule.py"],
  [("locking and shutdown", "Scheduler._lock handling in add_task/get_results/shutdown; ThreadScheduler/ProcessScheduler task threads")])

p("P15", "Parallel training and execution give the serial result",
  "Training or executing a flow in parallel, with any scheduler, chunking and number of workers, yields the same trained nodes and outputs as doing it serially (up to rounding and the documented order-free nature of some nodes), with chunks of output in input order. Forking a node for a task and joining the fork back lose, repeat or mix no training data, and nodes without parallel support are trained locally with the same result.",
  ["schedules", "inputs", "configurations"], "all parallelizable nodes, layers and flows, all chunkings and all completion orders of chunks, with and without per-node data iterables",
  "tests compare one chunking on a serial-like scheduler; completion order and worker sharing are never varied.",
  ["mdp/parallel/parallelnodes.py", "mdp/parallel/parallelflows.py", "mdp/parallel/parallelhinet.py", "mdp/parallel/parallelclassifiers.py"],
  [("fork/join", "ParallelExtensionNode.fork/join, _fork/_join of every parallel node"), ("flow driver", "ParallelFlow.setup_parallel_training, train, execute, use_results; task callables")])

p("P16", "Layers and flow-nodes equal the manual composition of their parts",
  "A layer trains and executes each of its nodes on its own slice of columns and concatenates the outputs in order; a layer of clones trains one node on all slices and applies it to each; a same-input layer gives every node the full input; a flow used as a node equals the flow. This holds for training phase counts, supervision, dimensions, inversion, copying and nesting to any depth, and never leaks data between parts.",
  ["programs", "configurations", "inputs"], "all nestings of layers, clone layers, same-input layers and flow nodes over all kinds of nodes",
  "tests build two or three fixed networks.",
  ["mdp/hinet/layer.py", "mdp/hinet/flownode.py", "mdp/hinet/layer_online.py", "mdp/hinet/flownode_online.py"],
  [("layers", "mdp/hinet/layer.py: Layer, CloneLayer, SameInputLayer"), ("flow node", "mdp/hinet/flownode.py: FlowNode")])

p("P17", "Switchboards route exactly the declared connections and geometry",
  "A switchboard's output column k is the declared input column for every input; rectangular, hexagonal (double-rhomb) and other field-based boards give every output channel exactly the inputs of its receptive field in order, with the documented number of fields, and together cover the inputs unless incomplete coverage was explicitly allowed. Inverse, combining and message variants are consistent with the same map, and impossible geometries or connections are refused.",
  ["inputs", "configurations"], "all board kinds, channel dims, field sizes, spacings and in-channel dimensions, valid or not",
  "tests compare a few literal connection tables.",
  ["mdp/hinet/switchboard.py", "mdp/hinet/switchboard_factory.py", "bimdp/hinet/biswitchboard.py"],
  [("connection tables", "Switchboard, ChannelSwitchboard, Rectangular2dSwitchboard, DoubleRect2dSwitchboard, DoubleRhomb2dSwitchboard, MeanInverseSwitchboard"), ("factories", "switchboard_factory.py")])

p("P18", "Streaming covariance accumulators equal the textbook statistic of all data",
  "After any sequence of updates, finalizing a covariance, delayed covariance, multiple delayed covariance, cross-covariance or non-uniform-time covariance accumulator returns the mean, matrix and sample count defined by the documented formula over all samples seen since the last finalization (biased or unbiased, centered or not), in the requested number type. The accumulator is then reset so that a second use is independent of the first, and inputs are not modified.",
  ["inputs", "histories"], "all data, chunkings, delays, centre options, number types, and re-use after finalization",
  "tests check one or two chunkings at float64 with loose tolerances.",
  ["mdp/utils/covariance.py"],
  [("accumulators", "CovarianceMatrix, VartimeCovarianceMatrix, DelayCovarianceMatrix, MultipleCovarianceMatrices, CrossCovarianceMatrix: update/fix")])

p("P19", "PCA, whitening and NIPALS return the principal subspace in order",
  "For every full- or deficient-rank training set, the principal component nodes return orthonormal directions that are eigenvectors of the training covariance ordered by decreasing variance, the reported variances, explained fraction and mean agree with the data, and the number of components obeys the requested count, fraction or reduction rule. Whitened training data have zero mean and unit covariance on the retained directions, for every solver option and number type, also when there are fewer samples than dimensions.",
  ["inputs", "configurations"], "all data sets (tall, wide, rank-deficient, differently scaled), all ways of choosing the output dimension and all solver options",
  "tests use a few Gaussian mixtures with full rank.",
  ["mdp/nodes/pca_nodes.py", "mdp/nodes/nipals.py"],
  [("pca", "PCANode._stop_training, _adjust_output_dim, _set_output_dim, get_explained_variance; WhiteningNode; NIPALSNode")])

p("P20", "Regression and discriminant nodes return the optimal solution",
  "Linear regression returns the least-squares solution (with or without bias) for any amount and chunking of data, and reports unsolvable problems instead of returning arbitrary numbers. Discriminant analysis returns directions that solve the generalized eigenproblem of between- versus within-class scatter of the labelled training data, in order of discriminability and normalized as documented, independent of label names, class sizes and chunking.",
  ["inputs", "configurations"], "all training sets, label types and chunkings, all output dimensions",
  "tests use one synthetic set with two classes.",
  ["mdp/nodes/regression_nodes.py", "mdp/nodes/fda_nodes.py"],
  [("regression", "LinearRegressionNode"), ("fda", "FDANode")])

p("P21", "Slow feature nodes solve the slowness problem in order of slowness",
  "On their training data, slow feature nodes (linear, quadratic, variable time step and with every rank-deficit option) give zero-mean, unit-variance, mutually decorrelated outputs ordered by non-decreasing slowness value; those values equal the mean squared temporal difference of the outputs and no unit-variance projection decorrelated from the earlier ones is slower. Quadratic features equal their exported quadratic forms, and the slowness measuring node reports the documented value for any chunking.",
  ["inputs", "configurations"], "all time series and chunkings, output dimensions, number types, options and degenerate (rank-deficient) data",
  "tests use sinusoid mixtures with known answers.",
  ["mdp/nodes/sfa_nodes.py", "mdp/nodes/misc_nodes.py", "mdp/utils/covariance.py"],
  [("sfa", "SFANode, SFA2Node, VartimeSFANode"), ("eta", "EtaComputerNode")])

p("P22", "Graph-based slow feature analysis matches the explicit training graph",
  "Every training mode of graph-based SFA gives the features that result from the explicitly written-out training graph it stands for, whatever the chunking, with outputs obeying the weighted zero-mean, unit-variance and decorrelation constraints in order of slowness. The information-preserving variant splits its output into the slow part and the reconstructive part as documented, and executes and inverts consistently.",
  ["inputs", "configurations"], "all training data, block sizes, node and edge weights, labels and training modes",
  "tests compare two modes on one data set.",
  ["mdp/nodes/gsfa_nodes.py"],
  [("gsfa", "GSFANode training modes, CovDCovMatrix"), ("igsfa", "iGSFANode")])

p("P23", "Blind source separation nodes return white, unmixed components",
  "For sources satisfying the method's assumptions, every independent component node recovers the sources from any well-conditioned linear mixture up to order, sign and scale; outputs on the training data have zero mean, unit variance and no correlation, and the filters and projections exported reproduce the executed result. Extended slow feature analysis returns at each step the slowest signal of the expanded data that is uncorrelated with every nonlinear expansion of the sources already found. A run that does not converge is never passed off as converged: it is reported as an error, or (for the fixed number of sweeps of CuBICA) by a convergence value above the limit.",
  ["inputs", "configurations"], "all mixtures, source distributions and all algorithm options (deflation/symmetric, contrast functions, pre-whitened data, delays)",
  "tests use one three-dimensional mixture.",
  ["mdp/nodes/ica_nodes.py", "mdp/nodes/jade.py", "mdp/nodes/isfa_nodes.py", "mdp/nodes/xsfa_nodes.py"],
  [("ica", "ICANode, CuBICANode, FastICANode, TDSEPNode, JADENode, ISFANode, XSFANode")])

p("P24", "Generalized symmetric eigen-solvers return true, ordered, normalized eigenpairs",
  "The symmetric eigen-solvers return for every symmetric first matrix and positive definite second matrix real eigenvalues in ascending order with eigenvectors that satisfy the equation and the documented normalization, restricted to the requested range, and do not change the arguments unless allowed to. The variants for positive semidefinite second matrices return the same solution on the numerical range space and no pair belonging to its null space, and matrices violating the requirements are reported by the documented error.",
  ["inputs", "configurations"], "all matrix pairs including nearly or exactly singular ones, sizes, number types, ranges and options",
  "tests use a few random 5x5 pairs.",
  ["mdp/utils/_symeig.py", "mdp/utils/symeig_semidefinite.py", "mdp/utils/routines.py"],
  [("solvers", "symeig_fake, wrap_eigh, nongeneral_svd, symeig_semidefinite_reg/pca/svd/ldl")])

p("P25", "Expansion nodes produce exactly the documented basis functions",
  "Polynomial, quadratic, recursive, radial-basis and general expansions return, for every input, exactly the documented set of functions of each row, each once, in the documented order, and their announced output dimension and expanded names or counts equal what execution returns. The pseudo-inverse offered by general expansions reproduces inputs of invertible expansions.",
  ["inputs", "configurations"], "all degrees, input dimensions, function lists, centres and sizes, domains and number types",
  "tests compare a few small cases.",
  ["mdp/nodes/expansion_nodes.py", "mdp/nodes/recursive_expansion_nodes.py"],
  [("expansions", "PolynomialExpansionNode, QuadraticExpansionNode, RBFExpansionNode, GeneralExpansionNode, RecursiveExpansionNode, NormalizingRecursiveExpansionNode, expanded_dim")])

p("P26", "Time-embedding, cutoff, histogram, noise and hit-parade node contracts",
  "Time-frame and delay nodes place exactly the sample of the documented delay in every output slot for any length, gap and chunk, and the sliding-window variant yields the same over a stream as one batch. Cutoff and adaptive cutoff clip to the given or learned quantile bounds, histogram data are the requested fraction of training samples, noise nodes add or multiply exactly the drawn noise, and the hit-parade keeps the true extreme values with their times and minimum distance.",
  ["inputs", "histories", "configurations"], "all signals, chunkings and parameter values",
  "tests use one small example each.",
  ["mdp/nodes/misc_nodes.py"],
  [("time embedding", "TimeFramesNode, TimeDelayNode, TimeDelaySlidingWindowNode"), ("others", "CutoffNode, AdaptiveCutoffNode, HistogramNode, NoiseNode, NormalNoiseNode, HitParadeNode, OneDimensionalHitParade, IdentityNode, NormalizeNode")])

p("P27", "Classifiers return consistent, correct labels, probabilities and rankings",
  "A classifier's label is always one of the training labels (in the user's label type), its probabilities are non-negative, sum to one over the training labels, put their maximum on the returned label, and its ranking sorts labels by decreasing probability. The decision equals the method's definition on the training data (nearest mean, k nearest neighbours, class Gaussians, Markov counts, perceptron, k-means, sign, Hopfield), independent of chunking and label naming. (Left open: which label wins an exact tie or a boundary point, feature values the Markov counts never saw, and the separately estimated probabilities of support vector machines.)",
  ["inputs", "configurations"], "all training sets, label types (ints, strings, arrays, single label per chunk), priors, parameters and query points, including far away ones and ties",
  "tests classify a handful of points.",
  ["mdp/classifier_node.py", "mdp/nodes/classifier_nodes.py", "mdp/nodes/svm_classifiers.py", "mdp/nodes/libsvm_classifier.py", "mdp/nodes/scikits_nodes.py"],
  [("interface", "ClassifierNode.label/prob/rank, ClassifierCumulator"), ("methods", "classifier_nodes.py")])

p("P28", "Online nodes and flows learn continuously and stay usable at any time",
  "Online nodes accept data in any chunking with the documented number of update steps and remain executable between updates without changing the learned state; running averages and incremental components equal their documented recursion. Online flows update every node in turn on the data of its predecessors exactly as nested manual calls would, and circular flows feed back, store and start at the configured positions as documented.",
  ["histories", "inputs"], "all chunkings and interleavings of train and execute calls, all node mixes, circular positions and iteration counts",
  "tests run a few fixed sequences.",
  ["mdp/signal_node_online.py", "mdp/linear_flows_online.py", "mdp/nodes/stats_nodes_online.py", "mdp/nodes/pca_nodes_online.py", "mdp/nodes/mca_nodes_online.py", "mdp/nodes/sfa_nodes_online.py", "mdp/hinet/layer_online.py", "mdp/hinet/flownode_online.py"],
  [("online base", "OnlineNode, OnlineFlow, CircularOnlineFlow"), ("online nodes", "OnlineCenteringNode, OnlineTimeDiffNode, CCIPCANode, MCANode, IncSFANode")])

p("P29", "Bi-directional nodes deliver messages to the right method arguments only",
  "A message value reaches exactly the arguments of the addressed node's methods that carry its name (node-qualified keys only that node, plain keys any), other entries pass through unchanged, and results, outgoing messages and jump targets are combined as documented. Arrays supplied by the user are not altered, nor are messages given to a flow (a node called directly takes the keys addressed to it out of its message), and malformed results or missing data are reported by an error.",
  ["inputs", "programs"], "all message contents, method signatures, node ids and result shapes (data, message, target in any combination)",
  "tests use a few keys.",
  ["bimdp/binode.py", "bimdp/biclassifier.py", "bimdp/nodes/*.py", "bimdp/hinet/*.py"],
  [("message parsing", "BiNode.execute/train/stop_training, _extract_message_key, _get_required/target, _combine_result"), ("message containers", "MessageResultContainer")])

p("P30", "Bi-directional flows follow the requested route and train the right nodes",
  "A bi-directional flow moves data along exactly the targets returned by its nodes (relative, absolute by id, exit), executing nodes in that order with inverse direction where asked, and ends with the documented output; with no messages it is equivalent to an ordinary flow in training, execution and inversion. Messages for several chunks are merged per documented rule, unreachable targets are reported, and parallel training gives the serial result.",
  ["programs", "inputs", "schedules"], "all graphs of jumps, message contents, chunkings and schedulers",
  "tests use hand-made two or three node flows.",
  ["bimdp/biflow.py", "bimdp/parallel/parallelbiflow.py", "bimdp/hinet/bilayer.py", "bimdp/hinet/biflownode.py"],
  [("routing", "BiFlow._execute_seq, _target_to_index, execute, train, stop_training"), ("parallel", "ParallelBiFlow")])

p("P31", "The gradient extension returns the true Jacobian",
  "With the gradient extension active, the gradient reported for any supported node, flow or layer at any input equals the derivative of the executed output with respect to the input at each sample, composed over nested structures by the chain rule, and the data output is the plain execution result.",
  ["inputs", "programs"], "all supported nodes, their compositions and all smooth input points",
  "tests compare two analytic cases.",
  ["bimdp/nodes/gradient.py"],
  [("gradients", "GradientExtensionNode, GradientBiExtensionNode and per-node _get_grad; NotDifferentiableException")])

p("P32", "Graphs stay structurally consistent and neural gas nodes learn as specified",
  "After any sequence of additions and removals, nodes and edges of a graph refer to each other consistently, and traversals, connected components and topological sort return every node exactly once in a valid order or report a cycle. Growing neural gas and neural gas nodes keep a consistent graph with bounded size, move only as the documented rule prescribes for each sample, drop expired edges and isolated nodes, and nearest-node queries return true nearest nodes.",
  ["histories", "inputs"], "all operation sequences on graphs, all training data and parameters",
  "tests build tiny graphs and check only final positions loosely.",
  ["mdp/graph/graph.py", "mdp/nodes/neural_gas_nodes.py"],
  [("graph", "mdp/graph/graph.py: DirectedGraph, topological_sort, dfs, bfs, connected_components"), ("neural gas", "GrowingNeuralGasNode, NeuralGasNode")])

p("P33", "Utility numerics match their mathematical definitions",
  "Quadratic forms evaluate, find extrema on the sphere with true maximal/minimal values, and report invariances with second derivatives as defined; random rotation/orthogonal, rotation, symmetric random, projection, permutation, hermitian, norm, covariance and cumulative helper routines return results with exactly the defining property; and configuration-independent helpers (ordered dictionaries, temporary directories, introspection, progress iteration, node search) behave as documented for every input.",
  ["inputs"], "all dimensions, matrices, number types and arguments",
  "tests evaluate a few literals.",
  ["mdp/utils/quad_forms.py", "mdp/utils/routines.py", "mdp/utils/introspection.py", "mdp/utils/temporarydir.py", "mdp/utils/progress_bar.py", "mdp/helper_funcs.py"],
  [("quadratic forms", "QuadraticForm"), ("routines", "mdp/utils/routines.py")])

p("P34", "Probabilistic model nodes perform valid maximum-likelihood steps",
  "Factor analysis never decreases the data likelihood during training, ends at a stationary solution whose model covariance and noise are valid, and its execution returns the posterior mean of the factors. Restricted Boltzmann nodes report the documented conditional probabilities, energies and binary samples, and each training step applies exactly the documented contrastive update, with label units normalized as a distribution.",
  ["inputs", "configurations"], "all data sets, latent dimensions, learning rates, momentum and decay settings and number of Gibbs steps",
  "tests check convergence on one toy problem.",
  ["mdp/nodes/em_nodes.py", "mdp/nodes/rbm_nodes.py"],
  [("fa", "FANode"), ("rbm", "RBMNode, RBMWithLabelsNode")])

p("P35", "Results are reproducible from a seed and independent of unrelated work",
  "With the same random seed and data, training and executing any node or flow gives bit-identical results in repeated runs, in a fresh interpreter, and whether other nodes or extensions were used before; nodes given a private random generator draw only from it. Deterministic nodes never consume the global random state, and progress output (verbose) changes no result.",
  ["histories", "configurations"], "all nodes, seeds and prior histories of the process",
  "tests never compare two runs.",
  ["mdp/nodes/*.py", "mdp/utils/routines.py", "mdp/signal_node_online.py"],
  [("random sources", "numx_rand uses in nodes; OnlineNode.numx_rng")])

p("P36", "Locally linear embedding nodes satisfy their defining optimality",
  "Locally linear embeddings reconstruct each point with weights over its k nearest neighbours that sum to one and solve the regularized local least-squares problem, return bottom non-constant eigenvectors of the embedding matrix with unit scale and zero mean, and map a new point to the weighted combination of its neighbours' embedding, independent of the other points queried. The Hessian variant recovers a locally isometric embedding up to a linear map, and invalid neighbour counts are refused.",
  ["inputs", "configurations"], "all point sets, neighbour counts, dimensions and regularization settings",
  "tests embed one S-shape with fixed parameters.",
  ["mdp/nodes/lle_nodes.py"],
  [("lle", "LLENode, HLLENode")])

p("P37", "Inspection and visualisation observe without influencing",
  "Tracing the training or execution of a flow or displaying it as HTML produces one record per actual node call in true order and leaves the trained nodes, outputs, messages and classes exactly as an untraced run would. Generated files are complete, refer only to files that exist, and are written only to the requested place.",
  ["programs", "inputs"], "all flows, bi-directional flows and hierarchical networks, all trace options",
  "tests only check that the functions run.",
  ["bimdp/inspection/*.py", "mdp/hinet/htmlvisitor.py", "bimdp/hinet/bihtmlvisitor.py"],
  [("tracing", "bimdp/inspection/tracer.py: TraceHTMLConverter, InspectionHTMLTracer; facade.py: show_training, show_execution, EmptyTraceException"), ("html", "mdp/hinet/htmlvisitor.py: HiNetHTMLVisitor, show_flow")])

p("P38", "Wrapped external learners agree with the library they wrap",
  "A wrapped external learner trained on any chunking of data gives the same predictions, transforms and probabilities as the wrapped library used directly on all the data, in the node's number type and with one row per sample, and obeys the same life-cycle, copying and data contracts as native nodes. Parameters and attributes of the wrapped object are reached under their own names.",
  ["inputs", "configurations"], "all wrapped estimators, label types, chunkings and parameters",
  "tests only check that wrappers run without error.",
  ["mdp/nodes/scikits_nodes.py", "mdp/nodes/libsvm_classifier.py", "mdp/nodes/svm_classifiers.py"],
  [("wrappers", "mdp/nodes/scikits_nodes.py: wrap_scikits_classifier/transformer/predictor; LibSVMClassifier")])

with open(os.path.join(HERE, '..', 'properties.jsonl'), 'w') as f:
    for d in P:
        assert len(d['title']) <= 80, d['title']
        f.write(json.dumps(d) + '\n')
print(len(P))
