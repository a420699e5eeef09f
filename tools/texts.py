NA = []
T = [
dict(id='P01', title='Matrix container keeps shape, contents, biases and layout through any history',
 statement='After any sequence of resizing, copying, cloning, moving, swapping, filling, bias handling, external-storage attachment and layout changes, a matrix reports exactly the shape, element values, bias flags and layout that the same sequence gives on a plain two-dimensional array. Bias elements stay what they were set to unless explicitly overwritten, operations never touch memory outside the matrix, and helper queries (binary tests, triangular indexing, range queries) agree with their definitions.',
 over=['histories', 'inputs'], forall='every sequence of container operations on matrices of every element type, size, bias and batch layout',
 why='unit tests cover a few fixed sizes and one operation at a time; layouts, bias emulation and storage ownership interact over histories',
 files=['nntl/interface/math/smatrix.h', 'nntl/interface/math/_base.h'],
 mech=[('matrix storage and bias emulation', 'nntl/interface/math/smatrix.h')], tech='stateful model-based histories against a linear-buffer reference model, AddressSanitizer for bounds'),
dict(id='P02', title='Elementwise matrix operations match their scalar formula under any split',
 statement='Every elementwise matrix operation (scaling, adding, multiplying, clamping, masking, weight decay, momentum and bias-preserving in-place forms) applies its documented scalar formula to each element exactly once. Elements that are documented as untouched (bias elements, source operands) keep their bits. The result is the same for every matrix size, number of threads, chunk order and single-/multi-threaded switching threshold.',
 over=['inputs', 'schedules', 'configurations'], forall='every matrix size and content, scalar argument, bias layout, thread count, chunk order and threshold setting',
 why='unit tests compare a few big random matrices with the default thresholds, so most size/threshold/chunk combinations and bias layouts are never executed',
 files=['nntl/interface/math/mathn.h', 'nntl/interface/math/smath.h'],
 mech=[('elementwise kernels', 'nntl/interface/math/mathn.h'), ('work splitting', 'nntl/interface/threads/workers.h')], tech='generated operands, thresholds and schedules against scalar references'),
dict(id='P03', title='Row/column reductions, softmax and selection kernels equal their definition',
 statement='Row and column sums, maxima, argmaxima (first maximum), norms, logical-or reductions, means and variances, softmax, row/column extraction and gathering, tiling and k-extreme selection return what their mathematical definition gives for every input. The answer does not depend on the matrix shape, the number of threads, the chunk order or the switching thresholds, beyond floating point rounding. Source operands are left unchanged.',
 over=['inputs', 'schedules', 'configurations'], forall='every matrix size and content (ties included), thread count, chunk order and threshold setting',
 why='unit tests use random data without ties and the default thresholds, so tie-breaking, narrow shapes and merge paths of parallel reductions are not exercised',
 files=['nntl/interface/math/smath.h', 'nntl/interface/math/mathn.h'],
 mech=[('row/column-wise reductions', 'nntl/interface/math/smath.h'), ('softmax, extraction, find-k', 'nntl/interface/math/mathn.h')], tech='generated operands, thresholds and schedules against direct references'),
dict(id='P04', title='Matrix products, covariance, orthogonalisation and DeCov match their algebra',
 statement='Every product the layers rely on (plain, transposed and accumulated matrix products, the forward product of weights with biased activations, the gradient product of deltas with activations, and the backward product that skips biases), column covariance, orthogonalisation and the DeCov penalty with its gradient produce what the textbook formula gives. This holds for every shape, scale factor and supported batch layout. Nothing is written outside the destination, and operands and bias elements are left as they were.',
 over=['inputs', 'configurations'], forall='every operand shape (including single rows and columns), content, scale factor and supported batch layout',
 why='unit tests check a few fixed shapes; leading dimensions, bias columns and layouts only interact on generated shapes',
 files=['nntl/interface/math/smath.h', 'nntl/interface/math/mathn.h', 'nntl/interface/math/bindings/b_open_blas.h'],
 mech=[('matrix products over BLAS', 'nntl/interface/math/smath.h'), ('DeCov and orthogonalisation', 'nntl/interface/math/smath.h')], tech='generated operands against naive long-double references with guard zones around the destination'),
dict(id='P05', title='Activations and output losses equal their formula; derivatives match them',
 statement='Every activation function computes its documented formula on every element, and its derivative routine, given the activation value, returns the derivative of that same function. Every output loss value equals its definition, and the gradient it produces with respect to pre-activations is the derivative of that loss through the activation. Bias elements are preserved, and results do not depend on thread count, chunk order or switching thresholds.',
 over=['inputs', 'schedules', 'configurations'], forall='every matrix size, pre-activation and target value, batch layout, thread count, chunk order and threshold setting',
 why='unit tests compare implementation variants of the same kernel with each other on one value range',
 files=['nntl/activations', 'nntl/activations/_loss_parts.h', 'nntl/interface/math/mathn.h'],
 mech=[('activation and loss kernels', 'nntl/interface/math/mathn.h'), ('activation policies', 'nntl/activations')], tech='generated matrices against closed-form references, derivatives against independent closed forms'),
dict(id='P06', title='Optimizers and weight updates follow their published rule at every step',
 statement='For every optimizer, momentum mode (classical, Nesterov), individual learning rate, L1/L2 penalty, learning-rate dropout and max-norm setting, and any combination and mid-training change of them, each update moves the weights exactly as the documented rule prescribes from the state left by the previous updates. The first update and any re-initialisation start from the documented initial state. Bias weights are exempt from penalties and norms unless asked for, the reported loss addendum equals the penalty, and nothing changes while learning is blocked.',
 over=['histories', 'inputs', 'configurations', 'schedules'], forall='every sequence of updates, gradients, settings and re-initialisations, for every matrix size, thread count and threshold setting',
 why='unit tests compare single- and multi-threaded variants of one kernel; the composition of rules and the evolution of optimizer state over steps is never checked',
 files=['nntl/grad_works/grad_works.h', 'nntl/grad_works/ILR.h', 'nntl/grad_works/loss_addendums.h', 'nntl/interface/math/mathn.h'],
 mech=[('update composition', 'nntl/grad_works/grad_works.h'), ('optimizer kernels', 'nntl/interface/math/mathn.h'), ('penalties', 'nntl/grad_works/loss_addendums.h')], tech='stateful histories of updates against a long-double reference of the rules'),
dict(id='P07', title='Thread pools run every item once, wait for all of it, and always terminate',
 statement='A parallel run or reduction processes every index of its range exactly once, in disjoint contiguous chunks with distinct thread ids, returns only when all chunks are done, combines exactly the partial results of that call, and reports how many threads took part. Background workers poll tasks by descending priority, run an exec function once per thread, and never touch a task after delete_tasks() returned. Construction, reuse and destruction terminate under every interleaving, spurious wakeup and timeout.',
 over=['schedules', 'histories', 'inputs'], forall='every interleaving of the workers and the caller, every range size, thread count and sequence of calls',
 why='lost wakeups and early returns need a particular interleaving that ordinary runs almost never show',
 files=['nntl/interface/threads/workers.h', 'nntl/interface/threads/bgworkers.h', 'nntl/interface/threads/_sync_primitives.h', 'nntl/interface/_i_threads.h'],
 mech=[('fork-join pool', 'nntl/interface/threads/workers.h'), ('background pool', 'nntl/interface/threads/bgworkers.h')], tech='generated call histories under a generator-controlled scheduler (deadlock and exactly-once oracle) and with real threads'),
dict(id='P08', title='Random generators fill every value in range and reproduce from their seed',
 statement='Every random-fill call of every generator (uniform, normalised, symmetric, Bernoulli, normal, integer; vector and matrix forms, bias-preserving forms included) writes every requested element exactly once, stays inside the documented range and follows the requested distribution parameters. The same seed and call history give the same numbers, different threads draw from different streams, and no number is handed out twice by the asynchronous generator or its circular buffer. Bias elements and memory around the destination are left as they were.',
 over=['inputs', 'histories', 'schedules', 'configurations'], forall='every seed, size, distribution parameter, call history, thread count and chunk order, and every order of buffer claims and deliveries',
 why='a skewed range, a skipped tail element or a duplicated stream looks like ordinary randomness to an example test',
 files=['nntl/interface/_i_rng.h', 'nntl/interface/rng', 'nntl/utils/data_buffer.h'],
 mech=[('fill algorithms', 'nntl/interface/_i_rng.h'), ('multithreaded and asynchronous generators', 'nntl/interface/rng/afrand_mt.h'), ('number hand-over buffer', 'nntl/utils/data_buffer.h')], tech='generated call histories over instrumented base generators with all-distinct values, statistical bounds with negligible false-alarm probability, and model-based producer/consumer histories'),
dict(id='P09', title='Backpropagation yields the gradient of the loss for every architecture',
 statement='After a forward and a backward pass in training mode, every weight of every learnable layer receives the update given by the derivative of the network loss (output loss plus activation penalties plus weight penalties) with respect to that weight, averaged over the samples the layer actually processed and scaled by its learning rate. This holds for any composition of fully connected, horizontal, vertical, tiled, gated, dropout and penalised layers, any receptive fields, batch size and number of preceding steps. A layer with zero learning rate keeps its weights, and gated-off samples contribute nothing.',
 over=['inputs', 'configurations', 'histories'], forall='every composition and size of supported layers, weights, samples, gates, batch size and history of steps',
 why='unit tests run a gradient check on a few fixed architectures; composition of receptive fields, gates and tiling with small or odd sizes is not sampled, and those tests are not even built here',
 files=['nntl/layer', 'nntl/layers.h', 'nntl/grad_works'],
 mech=[('layer forward/backward passes', 'nntl/layer'), ('layer stacking', 'nntl/layers.h'), ('composition layers', 'nntl/layer/_pack_.h')], tech='generated networks, weights, data and histories; updates compared with central differences of the training objective (forward pass checked by P10), penalties and batch sizes taken from an independent model'),
dict(id='P10', title='Inference computes the network function, whatever was run before',
 statement='For every composition of supported layers, every inference entry point returns, for each sample, the function defined by the layers, their wiring and their current weights: receptive fields select the right inputs, gates zero the outputs of absent data, tiles share weights, dropout is inactive, and the result for a sample does not depend on the batch it is in. This holds for any batch size up to the initialised one (and the network grows when a bigger batch is given), in training mode for non-random layers, and after any history of earlier inference, training passes, updates and de-initialisation. Inference is repeatable and changes neither its input data nor any weight.',
 over=['inputs', 'configurations', 'histories'], forall='every supported composition and size of layers, weights, samples, batch sizes and call history',
 why='tests run a few fixed nets from a fresh state; stale buffers, shrunk batches and re-initialised scratch memory only show in particular call orders',
 files=['nntl/layer', 'nntl/layers.h', 'nntl/nnet.h', 'nntl/common_nn_data.h', 'nntl/dropout'],
 mech=[('layer forward passes', 'nntl/layer'), ('network entry points', 'nntl/nnet.h'), ('mode and batch size state', 'nntl/common_nn_data.h')], tech='generated networks and call histories compared with an independent long double reference carrying its own rounding-error bounds'),
dict(id='P11', title='Training data objects hand out exactly the stored samples, each once per pass',
 statement='An epoch hands out whole batches of the agreed size in which every row is one stored training sample with its own target and bias, no sample twice. A walk over any set delivers every one of its samples exactly once, in storage order, in the announced number of batches, whatever batch size is used, remainders included. Sizes negotiated at initialisation are honoured or refused with the documented error, derived samples of transformed data come complete, and dupe, absorb, sequence-to-sample and holder operations lose, mix or alter nothing. The stored data itself never changes.',
 over=['inputs', 'histories', 'configurations'], forall='every data size, batch size, forward size, transformation factor, shuffle and sequence of init, epoch, walk and deinit calls',
 why='tests use sizes that divide evenly and one initialisation per object; a lost remainder or a mispaired target only shows for particular sizes and call orders',
 files=['nntl/train_data', 'nntl/utils/dataHolder.h'],
 mech=[('in-memory data', 'nntl/train_data/_train_data_simple.h'), ('transformed data', 'nntl/train_data/transf_train_data.h'), ('batch holder', 'nntl/utils/dataHolder.h')], tech='model-based histories over data whose every element encodes its set, sample and column'),
dict(id='P12', title='train() performs exactly the requested training and reports it truthfully',
 statement='A train() call runs the requested epochs, each over whole batches of the requested size of distinct training samples with their targets, and the weights end where the same batches processed one by one would put them, whatever reports, callbacks, inference calls, earlier training calls or size changes lie in between. Losses and results are reported at the scheduled epochs, over every sample of both sets once, in inference mode, and the loss is the mean over the set (plus penalties when asked), however the set is split for evaluation. Training stops early only for divergence in the checked epochs or when the epoch callback says so, with the documented error code; unsuitable data is refused before anything is touched, and the data is never changed.',
 over=['inputs', 'configurations', 'histories'], forall='every network family, data size, batch and forward size, schedule, threshold, callback behaviour and sequence of train, inference and re-initialisation calls',
 why='tests train once on a fixed data set and look at the final error rate; wrong sizes on repeated training, split-dependent losses and reports that disturb training still reach a good error rate',
 files=['nntl/nnet.h', 'nntl/nnet_train_opts.h', 'nntl/utils/vector_conditions.h', 'nntl/layers.h', 'nntl/common_nn_data.h'],
 mech=[('training loop and loss report', 'nntl/nnet.h'), ('schedule', 'nntl/utils/vector_conditions.h')], tech='generated histories of train() calls; recorded batches re-executed step by step, reports compared with an independent reference network, event traces compared with a model of the options'),
dict(id='P13', title='Evaluators, observers and the confusion matrix count what was really predicted',
 statement='For every set of targets and predictions, however it is split into batches and in whatever order the sets are evaluated, the classification evaluators return exactly the number of correctly predicted samples (arg-max agreement for one-hot targets, threshold agreement for binary ones, ties resolved as documented), independent of earlier evaluations and of re-initialisation. Training observers report exactly those counts, and every rate derived from a confusion matrix (precision, recall, F-measures, Matthews correlation and the others) equals its textbook formula on the accumulated counts, for all counts that fit. Evaluating changes neither targets nor predictions.',
 over=['inputs', 'histories', 'configurations'], forall='every content and size of targets and predictions, split into batches, order of sets, thresholds and sequence of initialisations, and every combination of counts',
 why='tests only look at a final error rate after training; a wrong tie, a stale target cache or an overflow in a rate formula stays within the tolerance of such a test',
 files=['nntl/nnet_evaluator.h', 'nntl/training_observer.h', 'nntl/utils/confusion_mtx.h'],
 mech=[('evaluators', 'nntl/nnet_evaluator.h'), ('observers', 'nntl/training_observer.h'), ('confusion matrix', 'nntl/utils/confusion_mtx.h')], tech='generated targets, predictions, batch splits and evaluation histories against direct counting and exact formulas'),
dict(id='P14', title='Normalisation of data and weights reaches its targets and changes nothing else',
 statement='When data normalisation reports success, the requested statistics (mean and/or unbiased standard deviation, over the whole data or per column) of the training data it was asked to use are within the requested tolerances, and every value of every set, training and test, in memory or transformed at run time, was passed through one and the same affine map (the identity for constant data scale, for switched-off parts and for data already within tolerance). Targets, biases, underlying storage of transformed data and the initialisation state are untouched, repeating it is harmless, and resetting it restores the data. Data-driven weight normalisation (LSUV) likewise brings the activations or pre-activations of every requested layer into tolerance by rescaling weights and shifting biases only, leaves excluded layers alone, and reports a layer it could not normalise.',
 over=['inputs', 'configurations', 'histories'], forall='every data set, column kind, target, tolerance, batch choice, prior initialisation, network family and per-layer setting',
 why='tests normalise one data set to zero mean and unit deviation; wrong composition of several passes, a map not applied to the test set or wrong statistics over part of the data needs other targets, layouts and repeated calls',
 files=['nntl/train_data/_td_norm.h', 'nntl/train_data/_td_base.h', 'nntl/train_data/inmem_train_data.h', 'nntl/train_data/transf_train_data.h', 'nntl/utils/mtx2Normal.h', 'nntl/utils/layers_settings.h', 'nntl/weights_init/LsuvExt.h'],
 mech=[('normalisation algorithm', 'nntl/utils/mtx2Normal.h'), ('data normalisation', 'nntl/train_data/_td_norm.h'), ('weight normalisation', 'nntl/weights_init/LsuvExt.h')], tech='generated data, settings and networks; resulting statistics and the applied affine map recomputed in long double'),
dict(id='P15', title='Data files are read exactly or refused with the right error',
 statement='Reading a well-formed binary or JSON data file delivers exactly its contents: every element in its place (converted only by the nearest representable value of the destination type), sizes, field and class assignment in any field order, biases added to the samples and nowhere else, for matrices, deformable matrices, train/test data sets and sequence sets. A file that is missing, truncated, inconsistent or malformed (wrong signature, version, counts, sizes - including sizes whose product overflows -, types, names, duplicates, ragged or non-numeric JSON, numbers an integer matrix cannot hold) is refused with the error code that describes it, without crash, leak or change to a data set already loaded, and get_last_error() always tells the outcome of the last read.',
 over=['inputs', 'configurations', 'histories', 'fault_sequences'], forall='every file content, intact or damaged anywhere, destination and element type and order of reads',
 why='tests read four fixed good files; sizes, conversions, field orders, truncation points and damaged headers are unbounded and error paths are never taken',
 files=['nntl/_supp/io/binfile.h', 'nntl/_supp/io/jsonreader.h', 'nntl/train_data/seq_data.h', 'nntl/errors.h'],
 mech=[('binary reader', 'nntl/_supp/io/binfile.h'), ('JSON reader', 'nntl/_supp/io/jsonreader.h'), ('sequence storage', 'nntl/train_data/seq_data.h')], tech='generated files with named malformations and random damage, judged by an independent parser of the documented format, allocation counting for leaks'),
dict(id='P16', title='Saved state comes back: archives, data sets and networks round-trip',
 statement='Whatever is written to an archive file (numbers of every supported type, matrices, nested and manually opened structures, in any order, over several sessions that replace or keep the file) is in the file with exactly that name, type, size, place and content, and nothing else is; reading delivers it bit for bit, converted by value when the destination matrix has another element type. Absent or unsuitable variables are reported and leave scalars untouched, the error stays until dropped, nothing leaks. A data set comes back equal. A network loaded from a file of a network of the same architecture has the same weights and restored parameters, computes the same function and continues training the same way, whatever options were on when both sides used them, and whether it was new, initialised, prepared for fixed batches or trained before; a file of another network is refused.',
 over=['inputs', 'histories', 'configurations'], forall='every tree of values, history of sessions and structure openings, network family, state of both networks and option set',
 why='tests save one network and read a handful of variables back; parallel and updated structures, conversions of negative numbers, and loading into a network that is already in use are never exercised',
 files=['nntl/_supp/io/matfile.h', 'nntl/utils/matlab.h', 'nntl/serialization', 'nntl/layer', 'nntl/dropout', 'nntl/layers.h', 'nntl/train_data/inmem_train_data_stor.h'],
 mech=[('archives', 'nntl/_supp/io/matfile.h'), ('conversion', 'nntl/utils/matlab.h'), ('layer state', 'nntl/layer/fully_connected.h')], tech='model-based histories of archive sessions over a real-file stand-in of the MAT-file API, and generated networks saved and loaded between generated states'),
dict(id='P17', title='Initial weights follow the chosen scheme; existing weights are kept',
 statement='Every initialisation scheme fills every weight of a matrix of any size with the distribution and structure it names: Xavier uniform within c*sqrt(6/(neurons+incoming+1)), He_Zhang/He_Zhang2/SNNInit normal with their deviations and zero biases, Martens_SI exactly the given number of connections per neuron over uniformly chosen inputs with the given biases, OrthoInit orthonormal rows or columns times the gain; the same generator seed gives the same weights and other seeds others. Initialising a network asks the scheme of every layer without weights exactly once, bottom up, with that layer\'s own geometry (also inside packs and tiles); weights that a layer already has (set by the user, or left by an earlier run) survive initialisation, de-initialisation and a failed initialisation bit for bit; a matrix of any other shape is refused and the old weights stay; a scheme that fails stops the initialisation with CantInitializeWeights naming the layer, and initialising again works.',
 over=['inputs', 'histories', 'configurations'], forall='every scheme, matrix size, generator and seed, and every history of initialising, dropping, replacing and re-initialising weights, with or without a failing scheme',
 why='tests look at a handful of matrices; structure for small, wide and tall matrices, statistical parameters and the retry/refusal paths are not examined',
 files=['nntl/weights_init/static.h', 'nntl/layer/fully_connected.h', 'nntl/layer/_activation_wrapper.h', 'nntl/layers.h', 'nntl/interface/math/mathn.h'],
 mech=[('schemes', 'nntl/weights_init/static.h'), ('layer protocol', 'nntl/layer/fully_connected.h'), ('orthogonalisation', 'nntl/interface/math/mathn.h')], tech='generated matrices judged by structural rules and statistical bounds, and model-based histories over a recording scheme'),
dict(id='P18', title='The gradient check tells right networks from wrong ones and leaves no trace',
 statement='gradcheck() passes a network whose gradients are right (away from kinks and values lost in rounding) and fails, naming the layer, whenever any single element of dL/dA of a neuron or dL/dW of a weight or bias that it was asked to examine is wrong (scaled, of the wrong sign, zeroed, or NaN); it examines exactly the requested number of different neurons, weights and biases of every layer that is not excluded, inside packs too, tolerates exactly the configured share of zero derivatives, and refuses unsuitable data. It works for every batch size up to the whole data set, and afterwards weights, data, batch size, mode and the ability to learn are what they were: a following training step and inference give the same results as without the check.',
 over=['inputs', 'configurations', 'histories', 'fault_sequences'], forall='every network family, data, weights, batch sizes, amounts, excluded layers, prior state, and every single falsified gradient element',
 why='tests run the check on good networks only; that it would ever fail, that it looks at everything, and that it restores the network is not tested',
 files=['nntl/nnet.h', 'nntl/utils/gradcheck.h', 'nntl/interface/inspectors/gradcheck.h', 'nntl/utils/dataHolder.h', 'nntl/utils/layer_idx_keeper.h'],
 mech=[('check', 'nntl/nnet.h'), ('perturbation', 'nntl/interface/inspectors/gradcheck.h'), ('amounts', 'nntl/utils/gradcheck.h')], tech='generated networks with a generated fault injected into one gradient element through the inspector interface, judged by which element was spoiled'),
dict(id='P19', title='Inspectors are told what really happens; dumps hold exactly what was asked',
 statement='An inspector attached to a network learns the name and type of every layer before each training and is then told, properly nested and once per layer and pass, what happens: in training and evaluation passes every executed layer announces its start inside its parent and its end, top-level layers receive the activations (and in the backward pass the gradient) that their neighbour announced, pre-activations are weights times incoming activations, dL/dZ is dL/dA times the activation derivative, dL/dW is dL/dZ times the incoming activations averaged over the batch, and the announced update and momentum step turn the announced old weights into the announced new ones. Watching changes nothing: training gives the same weights with the inspector on or off, and its on/off state is what it was afterwards. The dumping inspector writes a file for exactly the epochs, batches and error calculations its condition names, containing exactly the layers that its black or white lists (by type and index) admit, each with bit-identical copies of the announced matrices; this holds for repeated trainings of the same network.',
 over=['histories', 'inputs', 'configurations'], forall='every network family, history of trainings and inferences, dump condition, layer list, activity state and batch size',
 why='no test reads what an inspector is told or dumps; the order and truth of notifications over nested packs, conditions over epochs and repeated trainings are never examined',
 files=['nntl/interface/inspectors/dumper.h', 'nntl/interface/_i_inspector.h', 'nntl/utils/bwlist.h', 'nntl/utils/layer_idx_keeper.h', 'nntl/nnet.h', 'nntl/layer/fully_connected.h', 'nntl/grad_works/grad_works.h'],
 mech=[('dump conditions and files', 'nntl/interface/inspectors/dumper.h'), ('layer lists', 'nntl/utils/bwlist.h'), ('notifications', 'nntl/layer/fully_connected.h')], tech='generated training histories with a recording inspector; every notification is recomputed from the earlier ones, and dump files are compared with a model of the condition and the recorded matrices'),
dict(id='P20', title='Running out of memory is reported and leaves everything usable',
 statement='When any memory allocation the library makes itself, checks and reports fails while a matrix is created, resized or copied, a data file is read, a data set duplicated or initialised, weights generated, a generator or an evaluator set up, the k best values aggregated, or a network initialised, evaluated or trained, the call returns its failure (false or the error code for lack of memory) instead of crashing, leaking or claiming success. Afterwards nothing is half-done: a matrix is empty and says so, a data object neither calls itself initialised nor changed its samples, existing weights are bit for bit what they were; and when memory is available again the same call succeeds on the same object and gives the same results as on an object that never failed.',
 over=['fault_sequences', 'histories', 'configurations'], forall='every call, prior state, network family and allocation (or all from it on) that fails',
 why='tests never run out of memory; every allocation of every path is a separate failure point, and the interesting part is the second call',
 files=['nntl/interface/math/smatrix.h', 'nntl/nnet.h', 'nntl/layers.h', 'nntl/layer', 'nntl/train_data', 'nntl/_supp/io', 'nntl/interface/rng/afrand_as.h', 'nntl/nnet_evaluator.h'],
 mech=[('matrix storage', 'nntl/interface/math/smatrix.h'), ('network initialisation', 'nntl/nnet.h'), ('data initialisation', 'nntl/train_data')], tech='injected allocation failures at generated points of generated call histories; states and later results compared with a twin that never failed'),
dict(id='P21', title='Helper containers, call wrappers, options and timers act like simple models',
 statement='The helpers every other part relies on behave like their plain models after any history of operations: epoch conditions and black/white lists select exactly the listed epochs and layers, per-layer settings return the last value set for a layer or the default, call wrappers invoke exactly the functor last stored in them with the arguments given (keeping the state of functors stored by value, referring to those too big to store), tuple algorithms visit each element once in the stated order, options of different mixins never influence each other, scope guards and owning pointers act exactly once. Timers report first, best and mean durations of what was stored, printed durations denote the measured time in a readable unit, and every error code has a text of its own.',
 over=['histories', 'inputs'], forall='every sequence of operations on every helper, every duration and number of repeats, tuple size and kind of functor',
 why='helpers are only tested through their users with a few fixed values; state that leaks between entries, wrong units or a wrong functor kept in storage needs particular histories',
 files=['nntl/utils', 'nntl/errors.h'],
 mech=[('lists and conditions', 'nntl/utils/bwlist.h'), ('call wrappers', 'nntl/utils/forwarder.h'), ('tuple algorithms', 'nntl/utils/tuple_utils.h'), ('durations and timers', 'nntl/utils/chrono.h')], tech='stateful model-based operation histories on each helper'),
dict(id='P22', title='Dropout keeps what it says, in training only, and backpropagates through it',
 statement='In every training pass a layer or pack with dropout keeps each of its activations independently with exactly the configured probability, choosing anew in every pass and independently of other layers: plain dropout turns a kept activation x into x/p and a dropped one into 0, alpha dropout turns them into a*x+b and a*a0+b, where a0 = -lambda*alpha of the configured SELU constants and a, b preserve the configured fixed-point mean and variance. Bias columns are left alone and an absent sublayer stays zero. The backward pass scales each gradient by the factor of its own choice (0 for dropped ones) and sees the activations before dropout. During inference, and with probability 1 (or 0, which turns dropout off), nothing is changed. A changed probability takes effect with the next pass, whenever it is set: before initialisation, between passes and batches of any size, in epoch callbacks, for one layer or all, and survives re-initialisation; the layer always reports the probability in effect.',
 over=['histories', 'inputs', 'configurations'], forall='every network, keeping probability and history of setting changes, training passes of changing batch sizes, inference, de-initialisation and train() runs',
 why='tests never change dropout settings during training, never look at alpha dropout coefficients, and cannot judge randomness, independence or the reuse of one choice by the backward pass from single runs',
 files=['nntl/dropout', 'nntl/_SNN_common.h', 'nntl/layer/extender.h', 'nntl/interface/math/mathn.h', 'nntl/nnet.h'],
 mech=[('dropout', 'nntl/dropout/dropout.h'), ('alpha dropout', 'nntl/dropout/alpha_dropout.h'), ('coefficients', 'nntl/_SNN_common.h'), ('layer extension', 'nntl/layer/extender.h')], tech='generated histories; every activation after dropout is recomputed from the undropped reference, choices are judged by exact (Chernoff) bounds on shares and pairwise agreement, weight updates by the closed form for the observed choices, whole train() runs through a recording inspector'),
]
