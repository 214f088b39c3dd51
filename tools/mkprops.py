#!/usr/bin/env python3
# regenerates /verif/properties.jsonl (the single source of the property texts)
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Index compression is lossless for every ascending index list",
 "For every strictly ascending list of feature indexes of any supported width (16, 32 or 64 bit), compressing the list and decompressing the result gives back exactly the same list. Compression appends to the output it is given and never changes what was already there.",
 ["inputs"],"every ascending list of 16/32/64-bit indexes, including the largest representable values",
 "test_compress samples a few random small gaps; gaps of 2^28 and above and the 64-bit range are never reached.",
 ["include/sol/pario/compress.h"],[("comp_index / decomp_index, 7-bit run length coding","include/sol/pario/compress.h")])
p("C02","Binary format write/read round-trip is exact",
 "Writing any sequence of examples with the binary writer and reading the file back with the binary reader yields the same sequence: same labels, same indexes, bit-identical feature values, examples without features included, followed by end-of-file. Rewinding the reader delivers the same sequence again.",
 ["inputs","histories"],"every sequence of examples with ascending indexes, any labels and any float bit patterns",
 "test_binary round-trips one data file; labels, indexes and values outside that file, and empty examples, are not covered.",
 ["src/sol/pario/binary_writer.cc","src/sol/pario/binary_reader.cc","src/sol/pario/file_reader.cc","src/sol/pario/file_writer.cc"],
 [("BinaryWriter::Write / BinaryReader::Next","src/sol/pario/binary_writer.cc, src/sol/pario/binary_reader.cc")])
p("C03","Binary reader never accepts damaged or truncated records",
 "For every byte sequence presented as a binary data file, the reader stays within its buffers, terminates, and returns success only for a record that is completely and consistently present in the file; a truncated or inconsistent record gives a non-success status.",
 ["inputs","fault_sequences"],"every byte string used as the file content, in particular every truncation of a valid file",
 "No test feeds the binary reader anything but a file the writer just produced.",
 ["src/sol/pario/binary_reader.cc","include/sol/pario/compress.h","src/sol/pario/file_reader.cc"],
 [("status of each FileReader::Read is checked; decoded index count compared with feat_num","src/sol/pario/binary_reader.cc")])
p("C04","libsvm lines are parsed exactly or rejected",
 "For every text line, the libsvm reader stays within its buffers and either returns success with exactly the label and the index:value pairs written on the line (sorted by index), or returns a format error; a line of the form 'label index:value ...' is always accepted and a line with a missing label, index, ':' or value is always rejected.",
 ["inputs"],"every line of bounded length over all byte values",
 "test_svm reads one well-formed file and a few hand-written bad lines.",
 ["src/sol/pario/svm_reader.cc","include/sol/pario/numeric_parser.h","src/sol/pario/data_point.cc"],
 [("SVMReader::Next","src/sol/pario/svm_reader.cc"),("DataPoint::Sort","src/sol/pario/data_point.cc")])
p("C05","libsvm write/read round-trip",
 "An example written by the libsvm writer and read back by the libsvm reader has the same label, the same indexes and values equal up to the six significant digits that are written.",
 ["inputs"],"every label, every ascending index list, every value that is exactly representable in six significant digits",
 "test_svm compares one data file after a round trip.",
 ["src/sol/pario/svm_writer.cc","src/sol/pario/svm_reader.cc","src/sol/pario/file_writer.cc"],
 [("SVMWriter::Write","src/sol/pario/svm_writer.cc")])
p("C06","CSV write/read round-trip",
 "A data set written by the CSV writer (told the dimension) and read by the CSV reader gives the same examples: same labels, the same non-zero features at the same indexes with values equal up to six digits, and the header line is never delivered as an example, also after a rewind.",
 ["inputs","histories"],"every example over a bounded dimension, every pattern of zero and non-zero columns",
 "test_csv compares one data file after a round trip.",
 ["src/sol/pario/csv_writer.cc","src/sol/pario/csv_reader.cc"],
 [("CSVWriter::Write/SetExtraInfo","src/sol/pario/csv_writer.cc"),("CSVReader::Next/LoadFeatDim/Rewind","src/sol/pario/csv_reader.cc")])
p("C10","Blocking queue delivers every element once, in order, without deadlock",
 "For every schedule of producer and consumer threads on a BlockQueue: every enqueued element is delivered to exactly one consumer, unchanged and in the order its producer enqueued it; the queue never holds more than its capacity; list enqueue/dequeue keep the order; a forced list dequeue returns the full number asked for unless the end mark (null) comes first; no thread blocks forever when the numbers of elements put in and asked for match; a queue of owned elements destroys exactly what is left in it; there are no data races.",
 ["schedules","histories"],"every interleaving of the threads and every content of the queue",
 "Nothing tests the queue itself; test_data_iter exercises it on whatever schedule the machine happens to choose.",
 ["include/sol/util/block_queue.h","include/sol/util/mutex.h","include/sol/util/monitor.h","include/sol/util/thread.h"],
 [("Enqueue/Dequeue wait on two condition variables under one mutex","include/sol/util/block_queue.h")],
 [("count, head, tail of the circular buffer","number of elements and where they start and end","include/sol/util/block_queue.h")])
p("C11","Data iterator delivers every example of every pass once and in order",
 "For every schedule of the reader threads: DataIter delivers the examples of all added files, file by file, each file as often as its pass number says, in file order, unchanged, in batches of at most the batch size, and then null for good. A malformed line or record ends that file only: the examples before it and all other files are still delivered. A file that does not exist or has an unknown format is refused. The iterator can be destroyed at any time, without deadlock and without touching freed memory.",
 ["schedules","histories","fault_sequences"],"every interleaving of reader threads and consumer; every number of files, examples, passes, batch and buffer sizes; every moment of destruction",
 "test_data_iter reads one file on one schedule.",
 ["src/sol/pario/data_iter.cc","src/sol/pario/data_read_task.cc","include/sol/pario/data_iter.h","include/sol/pario/mini_batch.h","include/sol/util/block_queue.h"],
 [("reader task thread, free and filled batch queues","src/sol/pario/data_iter.cc")])
p("C12","Top-K heap always holds the K most important values",
 "For every list of values and every K from 1 to the number of values: exactly K indexes are members (isTopK) of a MinHeap or MaxHeap after Init and after every operation; the member at position 0 is always the least important one (MinHeap: the smallest, MaxHeap: the largest); get_pos and value_by_pos agree with the membership. UpdateHeap of a member changes no membership and says so (invalid_index); UpdateHeap of another index either leaves it out or takes it in for the least important member and returns the index left out, which is not more important than any member. After every index has been offered once, no value left out is more important than a member. Changed values are handled by BuildHeap and offering again; HeapSort orders the members by importance and keeps them.",
 ["inputs","histories"],"every value list, ties included, and every sequence of value changes",
 "No test touches the heap; feature selection relies on it.",
 ["include/sol/util/heap.h"],[("heapify / BuildHeap / UpdateHeap / HeapSort","include/sol/util/heap.h")])
p("C15","First-order learners follow their published update rules",
 "One training step of perceptron, ogd, pa, pa1, pa2 and alma2, for two or more classes: the step returns the prediction and scores made with the weights before the update; if the loss is zero no weight changes and no update is counted; otherwise the weights of the label and of the strongest rival class (binary: the one weight vector) move by -eta*gradient*x, the bias by -bias_eta*eta*gradient, and no other weight changes. eta is 1 (perceptron, bool loss), eta0*t^-power_t (ogd, hinge loss), loss/(c*|x|^2), min(C, loss/(c*|x|^2)) and loss/(c*|x|^2+1/(2C)) (pa, pa1, pa2; c is 1 for two classes and 2 for more), C/sqrt(k) with hinge margin (1-alpha)/(alpha*sqrt(k)) and projection onto the unit ball (alma2, k one plus the number of updates so far). Iterations and updates are counted, and prediction after training uses the learned weights.",
 ["inputs","histories"],"every example, label, start weight and hyper-parameter value, and every short sequence of steps",
 "The tests train on a data set at most and look at no weight.",
 ["src/sol/model/olm/perceptron.cc","src/sol/model/olm/ogd.cc","src/sol/model/olm/pa.cc","src/sol/model/olm/alma2.cc","src/sol/model/online_linear_model.cc","src/sol/loss/hinge_loss.cc","src/sol/loss/bool_loss.cc"],
 [("Iterate / Update / TrainPredict","src/sol/model/online_linear_model.cc, src/sol/model/olm/*.cc")],[("w_","weights, bias at index 0","include/sol/model/online_linear_model.h")])
p("C16","Second-order and adaptive learners follow their published update rules",
 "One training step of sop, cw, eccw, arow, ada-fobos and ada-rda, for two or more classes: the step returns the prediction and scores made before the update; without loss nothing changes; otherwise weights and per-feature confidences of the classes involved change by the closed forms of the algorithms: arow: step loss/(V+r), variance S/(1+S*x^2/r); cw and eccw: the closed-form step for the margin phi*V resp. phi*sqrt(V), variances S/(1+shrink*S*x^2); sop: v summed over mistakes, w = v/(a+sum x^2 [+ x^2 of the current example]); ada-fobos: w -= eta*g*x/(delta+sqrt(sum of squared gradients)); ada-rda: w = -eta*(sum of gradients)/(delta+sqrt(sum of squared gradients)). Updates and iterations are counted; the weights after training are the ones learned.",
 ["inputs","histories"],"every example, label and hyper-parameter value, and every short sequence of steps",
 "The tests train on a data set at most and look at no weight.",
 ["src/sol/model/olm/sop.cc","src/sol/model/olm/cw.cc","src/sol/model/olm/eccw.cc","src/sol/model/olm/arow.cc","src/sol/model/olm/ada_fobos.cc","src/sol/model/olm/ada_rda.cc"],
 [("TrainPredict / Update of each learner","src/sol/model/olm/*.cc")],[("Sigmas_ / H_ / X_ / v_ / ut_","per-feature confidence and gradient statistics","include/sol/model/olm/*.h")])
p("C17","Sparse learners: lazy L1 truncation equals truncation after every example",
 "For stg, fobos-l1, ada-fobos-l1, rda, rda-l1, erda-l1 and ada-rda-l1, scores and predictions during training and the weights after EndTrain are the same as if every weight (the bias at its own rate) had been shrunk towards zero by the learner's threshold after every example (stg: every k-th example, by k times the threshold, and the remainder at the end), although the code shrinks a weight only when its feature next occurs. Weights below the truncation threshold become exactly zero, a feature never seen keeps weight zero, and model_sparsity is the fraction of zero weights without the bias.",
 ["inputs","histories"],"every short sequence of examples with any pattern of absent features, any values and parameters",
 "The tests look at no weight; laziness only shows when features are absent between updates.",
 ["src/sol/model/olm/ogd.cc","src/sol/model/olm/ada_fobos.cc","src/sol/model/olm/rda.cc","src/sol/model/olm/ada_rda.cc","include/sol/model/regularizer.h","src/sol/model/regularizer.cc"],
 [("LazyOnlineL1Regularizer, last update time per feature","include/sol/model/regularizer.h"),("EndTrain of each sparse learner","src/sol/model/olm/*.cc")])
p("C18","Online feature selection keeps at most B features, the most important ones",
 "With pet, fofs, sofs, adafobos-ofs and adarda-ofs and a budget B, after every training step and after training at most B features (the bias not counted) carry weight in any class; a feature that carried weight is dropped only if at least B features are at least as important (importance: sum over classes of |w| for pet and fofs, confidence (small variance) for sofs, accumulated gradient size for the adaptive ones); a feature that is kept has exactly the weight of the learner's update rule; the bias is not subject to selection; without a budget no feature is dropped.",
 ["inputs","histories"],"every short sequence of examples, values and labels",
 "The tests look at no weight.",
 ["src/sol/model/olm/fofs.cc","src/sol/model/olm/ogd.cc","src/sol/model/olm/arow.cc","src/sol/model/olm/ada_fobos.cc","src/sol/model/olm/ada_rda.cc","include/sol/util/heap.h"],
 [("MinHeap/MaxHeap over an importance vector; truncation of the index that UpdateHeap returns","src/sol/model/olm/*.cc")])
p("C09","Data in memory (numpy arrays, csr matrices) is read as it lies there",
 "Reading a numpy array (rows any distance apart, labels given or not) or a scipy csr matrix (row pointers starting anywhere, columns in any order), directly or through sol_loadArray/sol_loadCsrMatrix, delivers one example per row in order: the label of the row, every non-zero entry (csr: every stored entry) as a feature numbered from one in ascending order with its value, nothing else, then end-of-file; the same again after Rewind and for every further pass.",
 ["inputs"],"every small array and matrix with any values, zeros and row patterns",
 "The readers are not covered by any test of the repository.",
 ["src/sol/pario/numpy_reader.cc","src/sol/pario/csr_matrix_reader.cc","src/sol/c_api.cc"],
 [("NumpyReader::Next, CsrMatrixReader::Next","src/sol/pario/*_reader.cc"),("sol_loadArray, sol_loadCsrMatrix","src/sol/c_api.cc")])
p("C13","Losses and their gradients are the published ones and agree with each other",
 "For every score vector, label and margin: bool, hinge (any margin, also one set by a margin handler), logistic and square loss, and their max-score and uniform multi-class forms, return the loss of their definition, from loss() and from gradient() alike; whenever the loss is positive gradient() gives the derivative with respect to every score (label -1 times the slope, the strongest rival resp. all classes ahead of the label in equal parts +1 times the slope, others 0); scores handed in are unchanged; values are finite, also on ties and when no class is ahead of the label.",
 ["inputs"],"every score vector for up to four classes, every label and margin",
 "No test looks at a loss value.",
 ["src/sol/loss/bool_loss.cc","src/sol/loss/hinge_loss.cc","src/sol/loss/logistic_loss.cc","src/sol/loss/square_loss.cc"],
 [("Loss::loss, Loss::gradient of each class","src/sol/loss/*.cc")])
p("C19","A saved model comes back as it was",
 "For every algorithm, hyper-parameter setting and state: a model saved and restored is of the same algorithm with the same class number, dimension, weights (up to the digits written), and every parameter that was set; saving the restored model writes the same file; after training through the C interface (sol_Train, sol_SaveModel, sol_RestoreModel) the restored model has the weights training ended with and predicts as the original; training continued with the restored model makes the same scores, updates and weights as training continued without saving.",
 ["inputs","histories"],"every hyper-parameter value in range, every weight, every further example, all 24 algorithms",
 "The tests save nothing; state that is lost shows only in later training or for particular parameter values.",
 ["src/sol/model/model.cc","src/sol/model/online_model.cc","src/sol/model/online_linear_model.cc","src/sol/model/regularizer.cc","src/sol/model/olm/*.cc","src/sol/c_api.cc"],
 [("Model::Save, Model::Load, GetModelInfo/SetModelInfo, GetModelParam/SetModelParam","src/sol/model/*.cc"),("sol_SaveModel, sol_RestoreModel","src/sol/c_api.cc")])
p("C14","Predictions follow from the weights, and testing counts them truthfully",
 "For every model and example the score of a class is its bias plus the sum of weight times value over the features the model knows (unknown ones count nothing); the label is the sign of the score (zero is positive) resp. the first class with the highest score; predicting again gives the same, and neither predicting nor testing changes weights, counters or the features of an example. sol_Predict reports label, prediction and scores of every example of every pass in order and returns their number; sol_Test returns the fraction of wrong predictions (labels other than 1 are the negative class in binary problems) and writes a header and one line of label, prediction and scores per example, the same with and without an output file.",
 ["inputs"],"every weight vector, example and label set within small dimensions, all algorithms",
 "The tests look at no score; ties, unknown features, empty examples and several passes are not sampled.",
 ["src/sol/model/online_linear_model.cc","src/sol/model/model.cc","src/sol/c_api.cc"],
 [("OnlineLinearModel::Predict","src/sol/model/online_linear_model.cc"),("Model::Test","src/sol/model/model.cc"),("sol_Predict, sol_Test","src/sol/c_api.cc")])
p("C22","Training takes one step per example and reports truthfully",
 "sol_Train takes exactly one learning step per example of every pass, in order, and returns the fraction of examples that were predicted wrongly before their step, over all examples the model has seen (also in earlier calls). The inspection callback gets the number of examples, iterations, updates and the error rate when the number of examples reaches 2, 4, 8 ... (exp_show b: powers of b; step_show s: multiples of s) and at the end. An example counts as an update iff its loss is positive (lazy_update: iff it was predicted wrongly); with cost_margin positive examples use that margin, others 1; with active_smoothness s an example is learned from iff the random draw is below s/(s+margin), and an example that is not queried changes neither weights nor the iteration count. Testing, predicting or asking for the sparsity between two calls of sol_Train does not change what is learned.",
 ["inputs","histories"],"every short sequence of examples, passes and calls, every draw of the generator",
 "No test looks at counters, reports, lazy, cost-sensitive or active learning, or trains twice.",
 ["src/sol/model/online_model.cc","src/sol/model/online_linear_model.cc","src/sol/model/model.cc","src/sol/c_api.cc","src/sol/model/regularizer.cc"],
 [("OnlineModel::Train, ExpIterDisplayer, StepIterDisplayer","src/sol/model/online_model.cc"),("OnlineLinearModel::Iterate","src/sol/model/online_linear_model.cc"),("EndTrain of each learner","src/sol/model/olm/*.cc")])
p("C21","Examples are prepared the same way for training, testing and prediction",
 "Before a model sees an example its label becomes 1 (if it was 1) or -1 in binary problems and stays in multi-class ones; with a filter file exactly the listed features keep their value and all others become zero; with norm L1 or L2 every value is divided by the sum of magnitudes resp. the euclidean length of the (filtered) example, and an example without non-zero values stays as it is; features neither appear, disappear nor move. sol_Train, sol_Test and sol_Predict prepare alike. A filter file that is missing, empty, or contains anything but positive numbers and comments is refused.",
 ["inputs"],"every small example, label, norm and filter, every two-character filter file",
 "The tests use neither filter nor normalisation; zero examples and refused files are not sampled.",
 ["src/sol/model/model.cc","include/sol/model/model.h","src/sol/c_api.cc"],
 [("Model::PreProcess, FilterFeatures, LoadPreSelFeatures","src/sol/model/model.cc"),("CalibrateLabel","include/sol/model/model.h")])
p("C20","Damaged model files are refused, never crash, hang or half-load",
 "sol_RestoreModel of a file saved by sol_SaveModel that was cut short anywhere before its last line break returns NULL. A file with any single byte changed, or with settings of a wrong type or range (unknown model or loss, impossible class numbers, non-numbers, settings that are no JSON object), gives either NULL or a model that predicts one of its classes and can be released; weights that are missing or are no numbers are refused. No file makes loading throw, access memory outside its buffers or loop for ever.",
 ["inputs","faults"],"every truncation, every single changed byte, every short text in place of a setting",
 "The tests load only files that were just saved; damaged files are not sampled.",
 ["src/sol/model/model.cc","src/sol/model/online_model.cc","src/sol/model/online_linear_model.cc","include/sol/math/matrix.h","external/json/jsoncpp.cpp"],
 [("Model::Load, SetModelInfo, SetModelParam","src/sol/model/model.cc"),("OnlineLinearModel::SetModelParam","src/sol/model/online_linear_model.cc"),("sol_RestoreModel","src/sol/c_api.cc")])
p("C25","Parameters are accepted or refused as a whole, and take effect",
 "sol_SetModelParameter accepts a parameter of the algorithm with a value in its range (eta, bias_eta, power_t, lambda, rou, B, t, dim: at least 0; delta, sigma, k, active_smoothness, cost_margin: more than 0, the last one for two classes only; alpha: in (0,1]; loss: a loss for the number of classes, bool losses only for perceptron and sop, hinge losses only for alma2, cw, eccw, arow and sofs; norm: None, L1, L2 or 0 to 2, L2 only for alma2) and refuses everything else: unknown names, texts that are no numbers, values out of range. An accepted value is reported by sol_GetModelParameters and other parameters stay; a refused one changes neither a parameter nor any later training. A parameter changed between two training runs has the same effect as on the saved and restored model. No name or value makes the call throw or later training crash.",
 ["inputs","histories"],"every number, short text and short name, before and after training",
 "The tests set only valid values before training, and never look at a refused one.",
 ["src/sol/model/model.cc","src/sol/model/online_model.cc","src/sol/model/regularizer.cc","src/sol/model/olm/*.cc","src/sol/c_api.cc"],
 [("SetParameter of Model, OnlineModel, Regularizer and each learner, BeginTrain","src/sol/model"),("sol_SetModelParameter, sol_GetModelParameters","src/sol/c_api.cc")])
p("C07","Text files are read line by line, whatever the length of the lines",
 "Reading a text file line by line (FileReader::ReadLine, and the libsvm and csv readers on top of it) delivers every line completely and in order, with its line break if it has one, whatever its length compared with the buffer (which starts at 4096 bytes and grows), also the last line without line break; then end-of-file; the same again after Rewind. Files with zero bytes are read to their end without touching memory outside the buffer and without growing it without need.",
 ["inputs"],"every short file with every buffer size, lines around each buffer size",
 "The test files have short lines that end with a line break.",
 ["src/sol/pario/file_reader.cc","src/sol/pario/svm_reader.cc","src/sol/pario/csv_reader.cc","src/sol/pario/data_reader.cc"],
 [("FileReader::ReadLine","src/sol/pario/file_reader.cc"),("SVMReader::Next","src/sol/pario/svm_reader.cc"),("CSVReader::Next, LoadFeatDim, Rewind","src/sol/pario/csv_reader.cc")])
p("C08","Learning depends on the values of features, not on their numbers",
 "For every algorithm: if the features of all examples are renumbered in ascending order (also to numbers far apart, so that the model grows during training), predictions, scores and updates stay the same and the weights move with the features; features that never occurred have weight zero. Examples in which absent features are stored with value zero teach the same as examples without them. Unknown or new features in between never disturb what was learned.",
 ["inputs","histories"],"every value of the examples, every algorithm, several renumberings",
 "Tests train on one data set with fixed numbering and compare only the accuracy.",
 ["src/sol/model/olm/*.cc","src/sol/model/online_linear_model.cc","src/sol/model/regularizer.cc","include/sol/math/*.h","include/sol/util/heap.h"],
 [("update_dim of each learner","src/sol/model/olm/*.cc"),("Vector::resize, sparse expressions","include/sol/math"),("HeapBase::set_N","include/sol/util/heap.h")])
p("C26","The command-line programs do what the library does with the same options",
 "sol_train and lsol_c save exactly the model the library trains from the same data, format, algorithm, number of classes, passes, batch size and parameters, started afresh or from a saved model; sol_test and lsol_c write the predictions of the model, with or without a feature filter; the accuracy shown is one minus the error rate. concat writes every example of every input in the given order; converter, split, shuffle and analyze write what the library functions write. A request that cannot be carried out (unknown algorithm, format, parameter value or number, missing data, model or parameter value, results that cannot be written) ends with a non-zero exit status and leaves no model or predictions behind; one that was carried out ends with zero.",
 ["inputs","faults"],"small data sets chosen by the solver, several option sets, formats, refused requests and failing writes",
 "No test runs the programs.",
 ["tools/*.cc","external/cmdline/cmdline.h","src/sol/model/model.cc","src/sol/c_api.cc"],
 [("main, train, test, getparser of the programs","tools/*.cc"),("Model::Save","src/sol/model/model.cc")])
p("C27","Vector and matrix expressions compute every element, and only those",
 "For vectors and matrices (math::Vector, Matrix, SVector) of equal shape and numbers, +, -, *, /, their compound assignments, truncate, L1, L2 and Sqrt compute every element of the target from the elements of the operands at the same place, also where the target is an operand, and leave operands alone; operands of different size are refused (runtime_error) and nothing changes. With a sparse operand exactly the stored indexes that the target has change (slice selects them), and products sum over exactly these. Norm1, Norm2, dotmul and reduce are the sums they name. Appending, taking away, clearing, resizing and reserving keep the elements in place; copies share their elements, copyto makes new ones; element (x,y) is column x of row y, for constant matrices and expressions too.",
 ["inputs","histories"],"every value of small operands, every small set of indexes, every short sequence of storage operations",
 "test_matrix samples a few shapes with fixed values.",
 ["include/sol/math/*.h"],
 [("CalcExp, dot, reduce, MatrixExp","include/sol/math/matrix_expression.h"),("BinaryMapExp, UnaryMapExp","include/sol/math/expression.h"),("Matrix, MatrixStorage","include/sol/math/matrix.h"),("Vector::resize, push_back","include/sol/math/vector.h"),("SVector","include/sol/math/sparse_vector.h")])
p("C23","Converting, shuffling and splitting keep every example",
 "sol_convert_data writes exactly the examples of the source, in order, in the format asked for (csv: for data with at least one feature); with binarize every stored value becomes 1 if it is above the threshold and -1 otherwise. sol_shuffle_data writes every example of the source exactly once, in any order. sol_split_data writes fold files <prefix><i>.<type>; put together in order they are the source (with shuffle: each example exactly once), and each has ceil(examples/fold) examples as long as they last. A destination type of NULL means the source type (shuffle, split). Labels, indexes and values are unchanged, whatever the number of examples and batches. A source that cannot be opened, an unknown type, a fold number below one, or a destination that cannot be written (completely) is reported with a non-zero status.",
 ["inputs","histories"],"every small data set and pair of formats, every outcome of the random draws, data larger than the buffers",
 "The tests never call the data tools.",
 ["src/sol/tools.cc","src/sol/c_api.cc","include/sol/pario/data_point.h","src/sol/pario/*.cc"],
 [("convert, shuffle, split","src/sol/tools.cc"),("sol_convert_data, sol_shuffle_data, sol_split_data","src/sol/c_api.cc"),("DataPoint::Clone","include/sol/pario/data_point.h")])
p("C24","Data analysis counts examples, features and classes correctly",
 "sol_analyze_data writes the number of examples, the number of stored features, the highest feature number (0 if there are no features), the number of distinct features, the number of classes, the share of the dimensions that no example uses, and the number of examples of each class in ascending order of the labels, for data of every format, also empty data and more examples than a batch holds. A source that cannot be opened, an unknown type or a destination that cannot be written is reported with a non-zero status.",
 ["inputs"],"every small data set of every format",
 "The tests never call the analysis; the python scripts take dimension and class number from it.",
 ["src/sol/tools.cc","src/sol/c_api.cc"],
 [("analyze","src/sol/tools.cc"),("sol_analyze_data","src/sol/c_api.cc")])
#END
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P),"properties")
