T_PARIO = "The existing tests open each reader/writer on a few small files and print vectors; "
T_NONE = "No existing test trains, evaluates, saves or loads a model; "

prop("C01", "Blocking queue is FIFO, exactly-once and bounded",
 "For any number of producer and consumer threads and any interleaving, including spurious wake-ups of waiting threads, every element put into the blocking queue (one at a time or as a list) is taken out exactly once, in first-in first-out order, and the queue never reports or holds more elements than its capacity. A list take returns at least one and at most the requested number of elements, all of them really taken; in forced mode it returns exactly the requested number unless the last element it took is a null terminator. The queue's size and emptiness reports agree with the elements put and not yet taken whenever no call is in progress.",
 ["schedules", "histories"], "every interleaving of put/take calls by several threads on queues of every capacity, every mix of single, list and forced calls",
 "No existing test touches the queue with more than one thread; a unit test samples one OS schedule and never a spurious wake-up.",
 ["include/sol/util/block_queue.h", "include/sol/util/monitor.h", "include/sol/util/mutex.h"],
 [("ring buffer under one mutex with two condition variables", "include/sol/util/block_queue.h: Enqueue/Dequeue"), ("condition wrapper", "include/sol/util/monitor.h")],
 observe=["return values of put/take calls", "size()/empty()"])

prop("C02", "Queue callers never block while they could proceed",
 "Whenever a queue holds an element, some taker waiting for one proceeds, and whenever it has a free slot, some putter waiting for one proceeds: there is no interleaving (single, list and forced calls mixed, spurious wake-ups included) after which threads stay blocked although the queue could serve them. In particular, if the total number of elements put equals the total number requested, all threads finish.",
 ["schedules"], "every interleaving of several putters and takers; every final state must have only callers that really cannot be served",
 "A lost wake-up needs a particular interleaving of waits and notifications; tests run one schedule and would merely hang.",
 ["include/sol/util/block_queue.h", "include/sol/util/monitor.h", "include/sol/util/thread.h"],
 [("notify after each state change", "include/sol/util/block_queue.h: notify/notify_all"), ("wait predicates in loops", "include/sol/util/block_queue.h")],
 observe=["threads blocked at quiescence"])

prop("C03", "Iterator delivers every record once per pass, in order",
 "For any batch size, number of buffered batches, list of data sources, number of passes per source and thread interleaving, a consumer that pulls mini-batches until the end of data receives exactly the concatenation, in the order the sources were added, of each source's records in source order repeated once per pass: nothing lost, duplicated, reordered or altered. No mini-batch holds more records than the batch size.",
 ["schedules", "inputs", "configurations"], "all batch sizes, buffer counts >= 1, source lists, pass counts and reader/consumer interleavings",
 T_PARIO + "they read with one schedule, default buffering and at most a couple of passes.",
 ["src/sol/pario/data_iter.cc", "src/sol/pario/data_read_task.cc", "include/sol/util/block_queue.h", "include/sol/pario/mini_batch.h"],
 [("reader thread fills recycled batches and queues them", "src/sol/pario/data_read_task.cc: run"), ("consumer starts next reader at each end marker", "src/sol/pario/data_iter.cc: Next")],
 observe=["records in batches returned to the consumer", "calls made on the data source"])

prop("C04", "A batch is owned by one side at a time; read-ahead is bounded",
 "From the moment a mini-batch is handed to the consumer until the consumer hands it back, no reader writes any record of it, and a record waiting to be delivered is never overwritten before it has been delivered. The records read ahead of the consumer plus those the consumer holds never exceed the configured number of buffered batches times the batch size.",
 ["schedules", "configurations"], "all interleavings of reader threads and a consumer that may hold batches for any time and recycle them or not",
 "Overwriting a batch still in use only shows under interleavings where the reader runs ahead; tests neither force those nor compare storage addresses.",
 ["src/sol/pario/data_iter.cc", "src/sol/pario/data_read_task.cc"],
 [("free-batch queue and filled-batch queue", "src/sol/pario/data_iter.cc"), ("a reader only writes batches taken from the free queue", "src/sol/pario/data_read_task.cc")],
 observe=["record addresses passed to the data source and seen by the consumer"])

prop("C05", "End of data is stable, and late-added sources still arrive",
 "After the last record of the last source the iterator reports end of data on every further pull, promptly and without blocking; sources added at any later time, even after end of data was reported, are delivered by the following pulls. A source given zero passes, or having no records, contributes no record and does not disturb the others. A source that cannot be opened or whose format is unknown is refused with an invalid-argument status, and the other sources are delivered as if it had never been named.",
 ["histories", "schedules", "configurations"], "every history of adding sources (good, empty, zero-pass, refused) and pulling, at any moment, under every interleaving",
 T_PARIO + "none adds a source after the end, pulls past the end, or mixes refused sources in.",
 ["src/sol/pario/data_iter.cc", "src/sol/pario/data_read_task.cc"],
 [("end marker put back at the end", "src/sol/pario/data_iter.cc: Next"), ("open check at registration", "src/sol/pario/data_iter.cc: AddReader")],
 observe=["status of adding a source", "batches and end-of-data results of pulls"])

prop("C06", "A bad record ends only its own source, after what precedes it",
 "When a source reports an error at some record, the consumer still receives all records of that source that precede the error (and all earlier complete passes), receives nothing of that source after it, and then receives every following source completely. The pull calls neither block nor fail because of the error.",
 ["fault_sequences", "inputs", "schedules"], "an error at every record position of every pass of every source, under every interleaving",
 "No existing test injects a read error behind the iterator.",
 ["src/sol/pario/data_read_task.cc", "src/sol/pario/data_iter.cc"],
 [("status loop of the reader thread", "src/sol/pario/data_read_task.cc: run")],
 observe=["records delivered", "calls made on the data source"])

prop("C07", "Dropping an iterator at any moment ends its readers cleanly",
 "Destroying an iterator at any moment (before, during or after reading, with sources not yet started, with the consumer still holding a batch or not) returns in every interleaving: it never deadlocks. When it returns, every reader thread it started has ended, every opened source has been closed, no source is read afterwards, and each batch it owned has been released exactly once.",
 ["schedules", "crash_points"], "destruction at every point of a run, under every interleaving with reader threads",
 "Tests destroy iterators only after reading everything, under one schedule; the interesting races are between destruction and a running reader.",
 ["src/sol/pario/data_iter.cc", "src/sol/pario/data_read_task.cc", "include/sol/util/block_queue.h", "include/sol/util/thread.h"],
 [("exit marker in the free-batch queue, drain, join", "src/sol/pario/data_iter.cc: ~DataIter"), ("exit marker handling", "src/sol/pario/data_read_task.cc: run")],
 observe=["return of the destructor", "calls on the sources", "live batches and threads after it"])

prop("C08", "libsvm text is read exactly; malformed lines are refused",
 "Each well-formed line 'label index:value ...' (integer label and indexes, decimal values with optional sign, fraction and exponent, separated by blanks or tabs, any line length, with or without a final newline) is read as exactly that label and those index/value pairs, ordered by index, values accurate to single precision (at most seven fraction digits). A line with a missing or non-numeric label, a feature without an index, colon or value, or a non-numeric token is refused with a format-error status and never returned as a record.",
 ["inputs"], "all text lines of the format, of any length and number of features, and all corruptions of them",
 T_PARIO + "a handful of fixed lines; number forms, line lengths around buffer sizes and malformed tokens are unsampled.",
 ["src/sol/pario/svm_reader.cc", "include/sol/pario/numeric_parser.h", "src/sol/pario/file_reader.cc", "src/sol/pario/data_point.cc"],
 [("hand-written number parsing", "include/sol/pario/numeric_parser.h"), ("growing line buffer", "src/sol/pario/file_reader.cc: ReadLine"), ("sort by index", "src/sol/pario/data_point.cc: Sort")],
 observe=["status and record of each read"])

prop("C09", "CSV text is read exactly, header skipped on every pass",
 "A CSV source skips its header line on every pass and reads each following line 'label,value,...' as that integer label and the non-zero values, column k (from 1) becoming feature k, values accurate to single precision. A line with a missing or non-numeric label or an empty or non-numeric column is refused with a format-error status, and a source without even a header line cannot be opened.",
 ["inputs"], "all CSV files: any number of lines, columns, zeros, header shapes, passes, and corruptions",
 T_PARIO + "fixed CSV content read once.",
 ["src/sol/pario/csv_reader.cc", "include/sol/pario/numeric_parser.h", "src/sol/pario/file_reader.cc"],
 [("header skipping at open and rewind", "src/sol/pario/csv_reader.cc: Open/Rewind"), ("column counter", "src/sol/pario/csv_reader.cc: Next")],
 observe=["status and record of each read"])

prop("C10", "Binary records round-trip; truncated files never yield a fake record",
 "Every record with ascending indexes written in the binary format is read back bit-identically (label, every index up to the type's maximum, every value), for any number of records and features; the index code alone round-trips every ascending list of 16-, 32- or 64-bit indexes. If a binary file is cut at any byte, reading yields exactly the records wholly present before the cut and then an end-of-file or error status; it never returns a record that was not written.",
 ["inputs", "crash_points"], "all records over the whole index range; every truncation offset of every file",
 T_PARIO + "small consecutive indexes and whole files only.",
 ["src/sol/pario/binary_reader.cc", "src/sol/pario/binary_writer.cc", "include/sol/pario/compress.h", "src/sol/pario/file_reader.cc"],
 [("variable-length delta code of indexes", "include/sol/pario/compress.h"), ("length-prefixed record layout", "src/sol/pario/binary_writer.cc: Write")],
 observe=["records and statuses read back"])

prop("C11", "In-memory dense and CSR arrays are read like files",
 "A dense array source yields row i as label y[i] and feature j+1 = x[i][j] for each non-zero entry, honouring the row stride, and a compressed-sparse-row source yields row i's stored entries (explicit zeros included, located by the row pointers relative to the first of them) as feature column+1, ordered by index; both yield all rows in order, then end of data, and again after every rewind. Missing labels read as 0 and a malformed source description is refused.",
 ["inputs", "configurations"], "all array shapes, strides, zero patterns, unsorted column orders, offset row pointers, pass counts",
 "The existing numpy test reads one fixed contiguous array; CSR has no test.",
 ["src/sol/pario/numpy_reader.cc", "src/sol/pario/csr_matrix_reader.cc", "src/sol/c_api.cc", "include/sol/util/str_util.h"],
 [("address/shape encoded in the path", "src/sol/pario/numpy_reader.cc: ParsePath"), ("row pointer arithmetic", "src/sol/pario/csr_matrix_reader.cc: Next")],
 observe=["records and statuses read"])

prop("C12", "Format conversion preserves every record",
 "Converting a data set between any two of the libsvm, CSV and binary formats keeps the number and order of records, every label, and every feature (index from 1; values to the six significant digits the text formats print; zero values may be dropped by CSV, whose lines all have the same number of columns). With binarisation each stored value above the threshold becomes 1 and every other stored value becomes -1. A source that cannot be opened, an unknown format, or a destination that cannot be opened or written in full is reported by a non-zero status. (Features of a record have distinct indexes; a CSV target needs data with at least one feature.)",
 ["inputs", "configurations"], "all data sets, all ordered pairs of formats, chains of conversions, thresholds",
 T_PARIO + "conversion itself has no test.",
 ["src/sol/tools.cc", "src/sol/pario/svm_writer.cc", "src/sol/pario/csv_writer.cc", "src/sol/pario/binary_writer.cc", "src/sol/c_api.cc"],
 [("two-pass CSV conversion to learn the dimension", "src/sol/tools.cc: convert"), ("per-format writers", "src/sol/pario/*_writer.cc")],
 observe=["records read back from the output file", "status"])

prop("C13", "Shuffle permutes, split partitions, concat appends, analyze counts",
 "For every non-empty data set, shuffling writes a permutation of the input records; splitting into k folds writes exactly k files whose concatenation, in fold order, is the input (in input order, or a permutation of it when shuffling is asked for), fold sizes being ceil(n/k) until the records run out; concatenating files writes their records in the given order. The analysis report states the exact number of records, of stored features and of distinct feature indexes, the largest index, the number of classes and the number of records of each class. A destination that cannot be opened or written in full is reported by a non-zero status.",
 ["inputs", "configurations"], "all data sets, numbers of folds (also more folds than records), source and destination formats",
 "No existing test runs these tools.",
 ["src/sol/tools.cc", "tools/concat.cc", "src/sol/c_api.cc"],
 [("load all, permute, write", "src/sol/tools.cc: shuffle/split"), ("counters", "src/sol/tools.cc: analyze")],
 observe=["output files", "report"])

prop("C14", "Training result does not depend on how the data is fed",
 "For every algorithm, the trained model (weights, predictions, update and error counts) depends only on the parameters and the sequence of training records: it is the same for every batch size, buffer count and thread schedule, for several passes as for the same records listed repeatedly, for several sources as for one concatenated source, for several consecutive training calls as for one, for feeding records one by one, and when the model's dimension is pre-declared instead of discovered.",
 ["configurations", "schedules", "histories"], "all ways to partition a record sequence into batches, passes, sources and training calls, all algorithms, all schedules",
 T_NONE + "none compares two ways of feeding the same records.",
 ["src/sol/model/online_model.cc", "src/sol/model/online_linear_model.cc", "src/sol/model/olm/*.cc", "src/sol/pario/data_iter.cc"],
 [("training loop over mini-batches", "src/sol/model/online_model.cc: Train"), ("lazy growth of per-feature state", "update_dim in src/sol/model/olm/*.cc")],
 observe=["weights, scores, counters after training"])

prop("C15", "First-order learners follow their published update rule",
 "For every record sequence, perceptron, online gradient descent, passive-aggressive (plain, I, II), ALMA and dual averaging change the weights exactly as their algorithm prescribes: they update if and only if the configured loss (or the prediction, in lazy mode) calls for it, by the prescribed step size times the per-class loss gradient times the record, with the prescribed bias step, and leave every other weight alone. Binary and multi-class problems with every admissible loss are covered, up to single-precision rounding.",
 ["inputs", "histories", "configurations"], "all record sequences, algorithms, losses, class counts and parameter values",
 T_NONE + "no oracle for any update exists in the repository.",
 ["src/sol/model/olm/perceptron.cc", "src/sol/model/olm/ogd.cc", "src/sol/model/olm/pa.cc", "src/sol/model/olm/alma2.cc", "src/sol/model/olm/rda.cc", "src/sol/model/online_linear_model.cc"],
 [("predict, loss gradient, update skeleton", "src/sol/model/online_linear_model.cc: Iterate"), ("per-algorithm update", "src/sol/model/olm/*.cc: Update/TrainPredict/EndTrain")],
 observe=["weights, scores, update count after each record"])

prop("C16", "Second-order and adaptive learners follow their update rule",
 "For every record sequence, second-order perceptron, confidence-weighted (plain and exact-convex), AROW and the adaptive-subgradient forward-backward and dual-averaging learners change weights and per-feature confidence exactly as their algorithm prescribes, for binary and multi-class problems, up to single-precision rounding; per-feature confidence only ever grows, and features absent from a record keep weight and confidence.",
 ["inputs", "histories", "configurations"], "all record sequences, algorithms, class counts and parameter values",
 T_NONE + "the per-feature confidence is only visible through later predictions.",
 ["src/sol/model/olm/sop.cc", "src/sol/model/olm/cw.cc", "src/sol/model/olm/eccw.cc", "src/sol/model/olm/arow.cc", "src/sol/model/olm/ada_fobos.cc", "src/sol/model/olm/ada_rda.cc"],
 [("diagonal confidence update", "src/sol/model/olm/*.cc: Update"), ("margin depending on confidence", "src/sol/model/olm/cw.cc, eccw.cc: BeginTrain")],
 observe=["weights, scores, update count after each record and after finalisation"])

prop("C17", "L1 variants truncate exactly as much as is due, for every class",
 "For every record sequence the L1-regularised learners (truncated gradient, forward-backward, dual averaging, enhanced dual averaging and the adaptive variants) shrink each weight towards zero, never past it, by exactly the amount due: the number of steps elapsed since the feature was last brought up to date (whole periods for truncated gradient) times the regularisation strength times the step size in force then (dual averaging: the threshold of the current step on the gradient sums), whether a feature is touched at every step or only rarely and caught up later, and alike for every class; no step is counted twice or lost, also across finalisation. Finalising drops weights below the sparsity threshold. With zero regularisation strength each behaves exactly like its unregularised base algorithm.",
 ["histories", "inputs", "configurations"], "all record sequences with features appearing at arbitrary gaps, all regularisation strengths, truncation periods and class counts",
 T_NONE + "lazy catch-up is only wrong for particular gaps between occurrences of a feature.",
 ["src/sol/model/olm/ogd.cc", "src/sol/model/olm/rda.cc", "src/sol/model/olm/ada_fobos.cc", "src/sol/model/olm/ada_rda.cc", "src/sol/model/regularizer.cc"],
 [("per-feature last-truncation time", "src/sol/model/regularizer.cc, src/sol/model/olm/ogd.cc"), ("truncation operator", "include/sol/math/operator.h: truncate")],
 observe=["weights after each record and after finalisation"])

prop("C18", "Feature-selection learners never use more than B features",
 "A feature-selection learner given budget B has, after every record and after finalisation, at most B features with a non-zero weight in any class (the bias aside), for every record sequence, dimension growth and class count, also after being saved, loaded and trained further; a budget set or changed later takes effect with the next training call. Its selection is the prescribed one: the B largest weights, or the B most confident features, survive.",
 ["histories", "inputs", "configurations"], "all record sequences, budgets, class counts, save/load/resume points",
 T_NONE + "the selection heap is untested.",
 ["include/sol/util/heap.h", "src/sol/model/olm/fofs.cc", "src/sol/model/olm/ogd.cc", "src/sol/model/olm/arow.cc", "src/sol/model/olm/ada_fobos.cc", "src/sol/model/olm/ada_rda.cc"],
 [("partial heap of the selected features", "include/sol/util/heap.h"), ("weights of evicted features zeroed", "Update in fofs.cc, ogd.cc, arow.cc, ada_*.cc")],
 observe=["non-zero weights after each record"])

prop("C19", "Prediction, preprocessing and error rate mean what they say",
 "A record's class scores are the inner product of its features with that class's weights plus the class bias, features the model has never seen counting zero; the predicted class is the sign of the score (binary, ties positive) or the first class with the largest score. Before training and testing, binary labels other than 1 count as -1, unselected features count as zero when a feature filter is set, and records are scaled to unit L1 or L2 norm when asked; a record with no remaining feature stays zero and never disturbs the model. Testing a finalised model leaves it unchanged and returns exactly the fraction of wrong predictions, its output lists label, prediction and scores of each record in order; the reported sparsity is the fraction of zero feature weights.",
 ["inputs", "histories", "configurations"], "all models, records (empty, all-zero, beyond the model's dimension), filters and norms",
 T_NONE + "prediction on unseen features, ties and empty records are unsampled.",
 ["src/sol/model/model.cc", "src/sol/model/online_linear_model.cc", "include/sol/math/sparse_vector.h"],
 [("preprocess then predict", "src/sol/model/model.cc: Test, PreProcess"), ("linear score", "src/sol/model/online_linear_model.cc: Predict")],
 observe=["scores, predicted labels, error rate, output file"])

prop("C20", "A saved model predicts and continues like the original",
 "For every algorithm and parameter setting, a model saved after training and loaded again has the same algorithm, classes, parameters and dimension, gives the same scores on every record (to the six significant digits stored), and, trained further on any records, develops like the original would have, the iteration number continuing where it was (update counts, error counts and a feature filter are not part of the file). This also holds when the model is saved without having been tested or evaluated first; saving only finalises the model and training can go on with it.",
 ["histories", "configurations"], "every save point in every training history of every algorithm",
 T_NONE + "save and load are untested.",
 ["src/sol/model/model.cc", "src/sol/model/online_model.cc", "src/sol/model/online_linear_model.cc", "src/sol/model/olm/*.cc", "src/sol/c_api.cc"],
 [("JSON parameters plus weight vectors", "src/sol/model/model.cc: Save/Load"), ("per-algorithm auxiliary vectors", "GetModelParam/SetModelParam in src/sol/model/olm/*.cc")],
 observe=["model information, scores, weights of the loaded model and its later training"])

prop("C21", "A damaged model file or failed save is reported, never accepted",
 "Loading a model file that was cut off at any byte before the closing bracket of its last vector, is empty, is not a model file, or whose header line, section line, description or vectors are damaged (a bracket or number lost, added or replaced by text, an unknown algorithm) terminates and yields no model instead of a partially filled one. Saving to a place that cannot be opened or written completely returns a non-zero status.",
 ["crash_points", "fault_sequences"], "every truncation point of saved models of every algorithm; every failing write",
 T_NONE + "no test loads a damaged file or fails a write.",
 ["src/sol/model/model.cc", "src/sol/model/online_linear_model.cc", "src/sol/model/olm/*.cc", "include/sol/math/vector.h"],
 [("header and section markers", "src/sol/model/model.cc: Load"), ("stream extraction of vectors", "SetModelParam")],
 observe=["result of loading", "status of saving"])

prop("C22", "Counters, error rate and progress callbacks are exact",
 "Training reports the number of records and iterations processed and of updates made, and returns the cumulative error rate: mistakes made before each update divided by records seen since the model was created. The progress callback fires exactly at the configured record counts (powers of a base, or multiples of a step), with the counters as of that record, and once at the end of every training call; a schedule set after records have been seen makes up the counts it has missed, one per record. A record is counted as an update only if the learner updated on it.",
 ["inputs", "histories", "configurations"], "all record sequences, batch sizes, consecutive training calls, display schedules",
 T_NONE + "no test reads counters or installs a callback.",
 ["src/sol/model/online_model.cc", "src/sol/model/online_linear_model.cc", "src/sol/c_api.cc"],
 [("counters in the training loop", "src/sol/model/online_model.cc: Train/Iterate"), ("display schedules", "src/sol/model/online_model.cc: ExpIterDisplayer/StepIterDisplayer")],
 observe=["callback arguments, return value of training"])

prop("C23", "Parameters are validated, applied and reported faithfully",
 "For every algorithm, a parameter value inside its documented range is accepted and reported back unchanged, an out-of-range value, an unknown parameter name, a loss that does not fit the number of classes or the algorithm, or a class number below two is refused with an error, and a refused setting leaves the reported parameters as they were. Model, loss and data-format names are found regardless of letter case where documented, unknown names yield no object.",
 ["configurations", "inputs"], "every algorithm crossed with every parameter, boundary values, orders of setting",
 T_NONE + "parameter handling is untested.",
 ["src/sol/model/model.cc", "src/sol/model/online_model.cc", "src/sol/model/olm/*.cc", "src/sol/util/reflector.cc", "src/sol/c_api.cc"],
 [("SetParameter chain", "src/sol/model/model.cc and subclasses"), ("class registry", "src/sol/util/reflector.cc")],
 observe=["status of setting a parameter, reported parameters"])

prop("C24", "Update options: lazy, cost-sensitive and active learning",
 "In lazy mode a model is updated exactly on wrongly predicted records; in cost-sensitive mode (binary hinge loss, learners without a margin of their own) positive records are trained with the configured margin and negative ones with margin one, while with any other loss the training call is refused and changes nothing; with active learning a record is trained on with probability s/(s + margin), s the smoothness and margin the distance of its score from the decision (so always when the margin is zero), and a skipped record leaves the model as if it had not been seen, counters included. The reported prediction of a record is always the one made before its update.",
 ["inputs", "histories", "configurations"], "all record sequences, algorithms and option combinations",
 T_NONE + "update options are untested.",
 ["src/sol/model/online_linear_model.cc", "src/sol/model/online_model.cc", "src/sol/loss/hinge_loss.cc"],
 [("option handling in the training skeleton", "src/sol/model/online_linear_model.cc: Iterate")],
 observe=["weights, counters, predictions after each record"])

prop("C25", "Loss values and gradients are those of the named loss",
 "For every label, score vector and margin, each loss (0-1, hinge, logistic, square, and the max-score and uniform multi-class forms) returns the value its name defines and the gradient with respect to each class score; the gradient entries of a multi-class loss sum to zero, a zero loss of a margin-based loss comes with no update, and large scores (up to 1e15 in magnitude) give finite values.",
 ["inputs"], "all labels, score vectors (ties, extremes) and class counts",
 T_NONE + "losses are untested.",
 ["src/sol/loss/bool_loss.cc", "src/sol/loss/hinge_loss.cc", "src/sol/loss/logistic_loss.cc", "src/sol/loss/square_loss.cc"],
 [("loss/gradient pairs", "src/sol/loss/*.cc")],
 observe=["returned loss and gradient"])

prop("C26", "Data points sort, copy and report their dimension correctly",
 "Sorting a data point orders its features by index and keeps every index/value pair together, for any number and order of features, duplicates included; checking sortedness says true exactly for strictly ascending indexes, and the dimension of a sorted point is its last index plus one (0 without features). A clone equals the original and shares nothing with it: changing either one later never changes the other. Clearing, shrinking and appending keep exactly the remaining features. All of this also holds for a point that never held a feature.",
 ["inputs", "histories"], "all feature sequences and all histories of appending, sorting, cloning, clearing and modifying",
 T_PARIO + "sorting and cloning are sampled on few points.",
 ["src/sol/pario/data_point.cc", "include/sol/math/sparse_vector.h", "include/sol/math/vector.h", "include/sol/math/matrix_storage.h"],
 [("paired quick sort", "src/sol/pario/data_point.cc: QuickSort"), ("reference-counted storage", "include/sol/math/vector.h, matrix_storage.h")],
 observe=["indexes, values, dimension"])

prop("C27", "The command-line programs do what the library does, and say so when they cannot",
 "For every session of training, continuing from a saved model, testing, converting, concatenating, splitting, shuffling and analysing with the programs sol_train, sol_test, lsol_c, converter, concat, split, shuffle and analyze: a model file depends only on the history it comes from (algorithm, classes, settings, record sequence with its passes, earlier saved models), so the programs and the library called directly write identical models for it, whatever the data format, batch size and order of options; the printed training and test accuracy is one minus the error rate of the library, printed sparsity and model information are those of the model, and the results file of a test holds the header and one row per record with its label, prediction and scores, in order, agreeing with the printed accuracy. A request that cannot be met (unknown algorithm, format, option or parameter, malformed or out-of-range setting, missing input, unusable model or filter file, class number below two, unwritable destination) ends with a non-zero exit status, without a crash and without touching an existing output file unless writing it was what failed.",
 ["histories", "inputs", "configurations"], "all sessions: sequences of program runs over the files of a directory, option sets, formats and failing requests",
 T_NONE + "no test runs the programs.",
 ["tools/sol_train.cc", "tools/sol_test.cc", "tools/lsol_c.cc", "tools/converter.cc", "tools/concat.cc", "tools/split.cc", "tools/shuffle.cc", "tools/analyze.cc", "src/sol/c_api.cc", "external/cmdline/cmdline.h"],
 [("training program", "tools/sol_train.cc: train"), ("testing program", "tools/sol_test.cc: test"), ("C interface program", "tools/lsol_c.cc")],
 observe=["exit status, printed accuracy and sparsity, model files, results files, data files"])

prop("C28", "Vector and matrix arithmetic is element-wise, shape-checked and explicit about sharing",
 "For all dense vectors, sparse vectors and matrices with non-empty operands: an assignment or compound assignment (=, +=, -=, *=, /=) of a scalar, a vector or an expression of vectors (sums, differences, products, quotients, squares, absolute values, roots, truncation, slices) changes exactly the elements of its left side, each to the value of the element-wise formula in single precision; a sparse right side touches exactly its own indexes below the left side's size. Operands of different shapes are refused by an exception with nothing changed. Inner products and norms equal their definitions; element (x, y) of a matrix, written, read, or read through a constant or an expression, is that of column x and row y. A copied or assigned handle shows the same object as the original, copyto makes an equal but separate one, resizing, appending and clearing keep exactly the remaining elements, removing from an empty vector is refused, and a vector of finite numbers written as text is read back to the digits printed.",
 ["inputs", "histories"], "all programs of operations on vectors, sparse vectors and matrices that share objects, of any sizes and values",
 "util/test_matrix prints a few matrices and util tests sample a few expressions; aliasing, shape mismatches, sparse operands beyond the size and every operator/operand combination are unsampled.",
 ["include/sol/math/matrix.h", "include/sol/math/vector.h", "include/sol/math/sparse_vector.h", "include/sol/math/matrix_expression.h", "include/sol/math/expression.h", "include/sol/math/operator.h", "include/sol/math/matrix_storage.h"],
 [("expression templates evaluated element by element", "include/sol/math/matrix_expression.h"), ("reference-counted storage", "include/sol/math/matrix_storage.h, matrix.h"), ("sparse operands", "include/sol/math/matrix_expression.h: sparse assignment")],
 observe=["elements, sizes and shapes of every handle, returned numbers, exceptions"])

prop("C29", "Objects in one process are independent",
 "Any number of models, iterators, readers and writers can be used in one process, alternately in one thread in any order or in different threads at the same time (an object itself by one thread at a time; active learning, whose random source is common to all models, only in one thread): each behaves exactly as if it were alone - same weights, scores, counters, progress calls, saved files, delivered records and statuses - whatever the others are, whatever settings, algorithms and classes they have, and whenever they are created or released.",
 ["histories", "schedules", "configurations"], "all sets of objects, all interleavings of their calls, all schedules of their threads",
 T_NONE + "tests use one object at a time.",
 ["src/sol/model/model.cc", "src/sol/model/online_model.cc", "src/sol/model/online_linear_model.cc", "src/sol/model/olm", "src/sol/loss", "src/sol/pario", "src/sol/c_api.cc", "src/sol/util/reflector.cc"],
 [("per-object state", "include/sol/model/*.h, include/sol/pario/*.h members"), ("class registry shared by all", "src/sol/util/reflector.cc")],
 observe=["everything C03, C14, C19, C20 and C22 observe, per object"])

