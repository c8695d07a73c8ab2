#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run by hand after editing; not part of any check)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism]))
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    d["anchors"]["hook_needed"] = None
    P.append(d)

MO="src/matrix_operations.c"; AC="src/activation.c"; NN="src/neuralnet.c"; OP="src/optimizer.c"
NA="npy_array/npy_array.c"; NL="npy_array/npy_array_list.c"

prop("K01","Vector kernels apply their operation to exactly n elements on every CPU",
 "For every vector length n (including 0, lengths below and between SIMD widths) and every supported instruction-set build, the elementwise vector routines (accumulate, scale, divide, saxpy, saxpby, square) set each of the first n result elements to the documented operation of the operands' old values, and neither skip an element, apply the operation twice to one, nor read or write outside the first n elements.",
 ["inputs","configurations"],"every n >= 0, every operand content, every ISA configuration (AVX-512, AVX2+FMA, AVX, baseline)",
 "Tests reach these routines only through small networks on the one CPU they run on; the remainder/strip boundaries depend on n modulo 8 and 16 and each ISA has its own code.",
 [MO,"src/matrix_operations.h"],[("strip-mined SIMD loops with scalar remainder",MO+": vector_*")],["content of the result vector after the call"])
prop("K02","Matrix kernels compute the affine map, its transpose product and outer product",
 "For every matrix shape and every supported instruction-set build, the forward kernel computes bias + input*W, the backward kernel computes W*v row by row, and the outer-product kernel fills the matrix with x_i*y_j (a zero x_i leaving its pre-zeroed row alone), each result element being complete (every term included exactly once), with no access outside the given matrices and vectors.",
 ["inputs","configurations"],"every shape n,m >= 1, every content, every ISA configuration",
 "Tests compare a few fixed layer sizes on one ISA; each kernel has separate 16-wide, 8-wide and scalar strips and special cases for zero and one inputs whose boundaries depend on the shape.",
 [MO],[("matrix_vector_multiply / vector_vector_outer / vector_matrix_multiply",MO)],["result matrix/vector after the call"])
prop("K03","Each activation maps every element by its named function at any length",
 "For every vector length (softmax: at least one element), buffer alignment and supported instruction-set build, applying the activation registered under a name (sigmoid, tanh, softmax, softplus, softsign, relu, hard_sigmoid, exponential, linear) replaces each of the n elements by that mathematical function of its old value (softmax: of the whole vector, normalised to sum one and shifted by the maximum so it cannot overflow), to float approximation accuracy; the SIMD body and the scalar remainder implement the same function and every element is processed exactly once.",
 ["inputs","configurations"],"every n >= 1, every finite element value, every start alignment of the buffer, every ISA configuration",
 "The generated tests use three fixed vector lengths with inputs in [0,1) on aligned buffers and one ISA; tails, peeled prefixes, large or negative inputs and other ISA bodies are never compared.",
 [AC],[("activation functions and exp256_ps",AC)],["content of the vector after the activation"])
prop("K04","Activation derivatives are the derivatives of the forward activations",
 "For every length and supported instruction-set build, the derivative routine paired with an activation multiplies each of the n incoming gradient elements by f'(x), expressed through the activation's own output f(x) (softmax excepted, whose derivative is folded into its matching loss); every element is multiplied exactly once and the activation values are not modified.",
 ["inputs","configurations"],"every n >= 1, every activation output in the function's range, every ISA configuration",
 "Gradient tests sample a few tiny networks with values near zero; the SIMD bodies only run for 16 or more outputs and saturation regions are not visited.",
 [AC],[("*_derivative functions",AC)],["gradient vector after the derivative call"])
prop("K05","Loss gradients are the derivatives of the same-named metric",
 "For every number of outputs n and every prediction/target pair, including negative targets, each loss routine writes for all n outputs the partial derivative of the same-named metric with respect to that prediction (for the two cross-entropies: with respect to the pre-activation of the matching sigmoid/softmax output; categorical cross-entropy without the 1/n factor).",
 ["inputs"],"every n >= 1, every pair of finite prediction and target vectors away from kinks",
 "Loss tests use three lengths with all values in [0,1); sign errors for negative targets, wrong scaling in n, or a drifting metric/loss pair stay invisible.",
 ["src/loss.c","src/metrics.c"],[("loss functions","src/loss.c"),("metric functions","src/metrics.c")],["gradient written by the loss"])
prop("K06","Metrics return their documented statistic over all n outputs",
 "For every n >= 1 and every prediction/target pair each metric returns its documented value: mean squared, absolute and absolute-percentage error and the two cross-entropies (predictions clipped away from 0 and 1) as means over all n outputs, binary accuracy as the fraction of outputs whose rounded prediction equals the rounded target (the target being clipped to [0,1] first), categorical accuracy as 1 exactly when prediction and target have their (first) maximum at the same index.",
 ["inputs"],"every n >= 1 and all finite prediction and target vectors",
 "Metric tests use three lengths and inputs in [0,1); negative targets, out-of-range predictions, ties and maxima at the boundary positions are not sampled.",
 ["src/metrics.c"],[("metric functions","src/metrics.c")],["returned value"])
prop("K07","SIMD accesses that need alignment only touch addresses proven aligned",
 "No prediction, batch prediction, evaluation, backpropagation or optimizer step executes an alignment-requiring SIMD load or store on an address that is not a multiple of the required alignment, whatever the layer sizes, number of samples, position of the layer in the network, and (for predictions) whatever the alignment of the caller's input and output buffers.",
 ["inputs","configurations"],"all network topologies, sample counts, user buffer alignments (float-aligned), and ISA configurations",
 "A misaligned aligned-access only faults for particular layer-size combinations, and compilers may fold it away on one build; the few tested topologies avoid it.",
 [MO,AC,NN,"src/simd.h","src/RMSprop.c","src/adagrad.c","src/adam.c"],[("aligned allocation and stack buffers","src/simd.h"),("aligned vs unaligned intrinsics",MO+", "+AC)],["fault on execution"])
prop("N01","Name registries are closed, consistent and total",
 "Every documented activation, loss and metric name (and alias) resolves to its own function, mapping that function back to a name and resolving it again yields the same function, every built-in activation has its own derivative, every loss has a metric of the same name, and an unknown loss or metric name yields no function while an unknown function yields the name '(unknown)'.",
 ["inputs"],"all registered names and functions, and every other string",
 "Tests look up a handful of names through the code paths they need; they never check the reverse mappings, aliases or the closure of the tables as a whole.",
 [AC,"src/loss.c","src/metrics.c"],[("get_*_func / get_*_name / get_activation_derivative",AC+", src/loss.c, src/metrics.c")],["returned function or name"])
prop("N02","Prediction chains all layers in order; batches equal single predictions",
 "For every network, prediction computes layer by layer, from input to output, the layer's activation applied to bias + weights*previous output, with the last layer's result and nothing else written to the caller's output; batch prediction does this independently for every one of the n samples at its own row of the input and output matrices.",
 ["inputs","schedules"],"all topologies (one or more layers, all sizes >= 1), all inputs, all sample counts, all thread schedules",
 "Tests predict a few fixed small nets; the chaining through an internal workspace depends on the number of layers and on layer sizes relative to the SIMD width.",
 [NN,"src/neuralnet_predict_batch.c"],[("neuralnet_predict",NN),("neuralnet_predict_batch","src/neuralnet_predict_batch.c")],["output buffer"])
prop("N03","Backpropagation fills the whole gradient by the chain rule",
 "For every network, sample and loss, backpropagation overwrites every parameter's slot of the gradient, regardless of its previous contents, with the value the chain rule gives: the output layer starts from the loss, every earlier layer receives the next layer's weights times the next layer's gradient, each layer's gradient is multiplied by its own activation derivative before use, the bias gradient is that vector and the weight gradient its outer product with the layer's input.",
 ["inputs"],"all topologies, inputs, targets, losses and initial contents of the gradient buffer",
 "The gradient tests compare a few tiny topologies; layer indexing mistakes that only show with three or more layers of differing widths are not sampled.",
 [NN],[("neuralnet_backpropagation",NN)],["gradient buffer"])
prop("N04","One flat parameter order is shared by count, export, update and gradient",
 "For every network the flat parameter vector holds, layer by layer from input to output, the layer's biases followed by its weights in storage order, and the parameter count, parameter export, parameter update and gradient all use exactly this layout: updating adds element k of the vector to the parameter that export places at k, and all cover exactly the counted number of elements.",
 ["inputs"],"all topologies and parameter values",
 "Tests exercise each function on a few shapes where a consistent permutation or offset error could cancel; agreement for every topology is a relation between four functions.",
 [NN,"src/neuralnet.h"],[("total_n_parameters","src/neuralnet.h"),("get_parameters / update / backpropagation",NN)],["parameters after update", "exported vector"])
prop("N05","Setting a loss pairs derivatives with activations on every layer",
 "After setting a known loss every layer's derivative is the one belonging to its activation, except that the output layer's is the identity exactly when binary cross-entropy meets sigmoid or categorical cross-entropy meets softmax, no matter which loss was set before; an unknown loss name leaves no loss set and the layers untouched.",
 ["inputs","histories"],"all loss names, activations per layer, numbers of layers and sequences of loss changes",
 "Tests set one loss once per network; changing the loss and mismatched pairs are never compared.",
 [NN],[("neuralnet_set_loss",NN)],["gradients computed afterwards"])
prop("N06","Initialisation fills every weight at its documented scale and zeroes biases",
 "Initialising a network assigns every weight of every layer a finite random value (Xavier: uniform within sqrt(6/(n_in+n_out)); Kaiming: normal with standard deviation sqrt(2/n_in); chosen explicitly or from the layer's activation), sets every bias to zero, and cannot produce a NaN or infinity for any outcome of the random generator.",
 ["inputs","histories"],"all topologies, initializer lists, activation assignments and random sequences",
 "Tests use lucky random draws; degenerate draws and untested activation/initializer combinations need a universal argument.",
 [NN],[("neuralnet_initialize, fill_data, random_normal",NN)],["weights and biases afterwards"])
prop("N07","All network buffers are accessed within bounds for every topology",
 "For every topology, sample and batch, prediction, backpropagation, evaluation, parameter export/update and the optimizers' epoch loops read and write only inside the layers' arrays, the caller's arrays of the documented sizes and their own workspaces, including every pointer table and every parallel reduction buffer.",
 ["inputs","configurations"],"all topologies with sizes >= 1, batch sizes, sample counts and ISA configurations",
 "Out-of-bounds accesses by a few floats land in padding for the tested sizes; only particular layer-size sums overflow.",
 [NN,OP,"src/SGD.c","src/RMSprop.c","src/adagrad.c","src/adam.c","src/evaluate.c"],[("workspace sizing and pointer tables",NN),("reduction section",OP)],["memory safety"])
prop("T01","SGD follows its documented update rule for every setting",
 "Each SGD step, for every combination of momentum, Nesterov and decay settings, changes the parameters and the optimizer's state exactly by the documented recurrence: velocity <- momentum*velocity - rate*gradient, added to the parameters (plain: -rate*gradient), Nesterov taking the gradient after the momentum part is applied and then applying only the remainder, and decay multiplying the rate by 1/(1+decay*steps so far) before it is used.",
 ["inputs","histories"],"all hyper-parameter settings, parameter vectors, gradients and step counts",
 "Tests train toy problems for a few steps with one or two settings; wrong state updates in other settings or late steps go unnoticed.",
 ["src/SGD.c"],[("SGD_run_epoch","src/SGD.c")],["parameters after each step"])
prop("T02","RMSprop and Adagrad follow their documented update rules",
 "Each RMSprop step keeps r <- rho*r + (1-rho)*g^2 and each Adagrad step r <- r + g^2, both change parameters by -rate*g/(eps+sqrt(r)) elementwise with the decayed rate, and RMSprop applies momentum and Nesterov exactly as SGD does, for every hyper-parameter setting, vector length and instruction-set build.",
 ["inputs","histories","configurations"],"all settings, parameter vectors, gradients, lengths and ISA configurations",
 "No test compares these optimizers against a reference; they are only exercised by example programs.",
 ["src/RMSprop.c","src/adagrad.c"],[("RMSprop_run_epoch","src/RMSprop.c"),("adagrad_run_epoch","src/adagrad.c")],["parameters after each step"])
prop("T03","Adam follows its documented bias-corrected update with weight decay",
 "Each Adam step updates both moment estimates, s <- b1*s+(1-b1)*g and r <- b2*r+(1-b2)*g^2, and changes the parameters by -rate*s_hat/(sqrt(r_hat)+eps) with s_hat = s/(1-b1^t) and r_hat = r/(1-b2^t), t counting that optimizer's own steps from one, minus weight_decay times the parameter when weight decay is positive, for every setting, length and instruction-set build.",
 ["inputs","histories","configurations"],"all settings, lengths, gradients and step histories, including several optimizers in one process",
 "No test compares Adam to a reference, and the correction terms depend on the whole step history.",
 ["src/adam.c"],[("adam_run_epoch and its kernels","src/adam.c")],["parameters after each step"])
prop("T04","An epoch uses every training sample exactly once, in mean batch gradients",
 "For every number of training samples and batch size (including sizes that do not divide the sample count or exceed it), with or without shuffling, one epoch visits each training sample exactly once, pairing each input row with its own target row, and each step uses the mean of the gradients of exactly the samples of its batch.",
 ["inputs","schedules"],"all sample counts >= 1, batch sizes >= 1, random permutations and thread schedules",
 "Tests use one or two sample counts that divide evenly; coverage of the remainder batch and of the permutation are universal claims.",
 [OP],[("prepare_shuffle_pivot, fisher_yates_shuffle, optimizer_calc_batch_gradient",OP)],["samples used by the steps of an epoch"])
prop("T05","Optimizers and callbacks in one process never influence each other",
 "The behaviour of a network, an optimizer or a callback instance depends only on its own configuration and its own history: creating, running or freeing any number of other instances in the same process, in any interleaving and with any sample counts or losses, changes nothing about it (the process-wide random generator and registry of loaded activations aside).",
 ["histories"],"all interleavings of operations on any number of instances",
 "Every test program creates one optimizer and at most one callback of a kind; hidden shared state needs two instances to show.",
 [OP,"src/adam.c","src/earlystopping.c","src/modelcheckpoint.c"],[("per-instance state vs static storage",OP+", src/adam.c, src/earlystopping.c, src/modelcheckpoint.c")],["results of one instance with and without the other"])
prop("T06","Early stopping and checkpointing act on the best monitored score",
 "For every sequence of finite epoch results, in both the smaller-is-better and greater-is-better mode, and for every monitored index (default: first validation metric if validation was given, else first training metric), the checkpoint callback saves exactly in those epochs whose monitored score is better than all earlier ones of that instance (the first always), and the early-stopping flag rises once more than `patience` consecutive epochs passed without such an improvement and never falls again.",
 ["histories"],"all score sequences, patience values, modes and monitored indices",
 "No test covers the callbacks; the property ranges over histories of scores.",
 ["src/earlystopping.c","src/modelcheckpoint.c"],[("*_callback_run","src/earlystopping.c, src/modelcheckpoint.c")],["saved files, stop flag"])
prop("T07","Evaluation returns each metric's mean over all samples",
 "Evaluating a network on n samples writes, for every metric of the list in order, the mean over all n samples of that metric applied to the network's prediction for the sample and the sample's own target row, independent of previous contents of the result array, the number of threads and their schedule; an epoch reports training metrics first and, only if validation data is given, validation metrics directly after them.",
 ["inputs","schedules"],"all sample counts >= 1, metric lists, data sets and thread schedules",
 "Tests evaluate tiny sets on one machine; parallel reduction and result ordering over arbitrary metric lists are not sampled.",
 ["src/evaluate.c",OP],[("evaluate","src/evaluate.c"),("optimizer_run_epoch",OP)],["results array"])
prop("T08","Logging never overruns its buffers and resumes the epoch count safely",
 "For every number and kind of metrics, epoch number and metric value (including NaN, infinities and very large values) each epoch's log line is written completely, without overrunning internal storage or aborting, and starting a logger on any existing file - empty, short, without newline, or containing unrelated text - is safe and continues from the last logged epoch plus one when one is found.",
 ["inputs","histories"],"all metric lists, values, epoch counts and pre-existing log file contents",
 "No test covers the logger; overflow needs many metrics with validation, and the parser's failures need odd files.",
 ["src/logger.c"],[("logger_callback_run, find_last_epoch_from_logfile","src/logger.c")],["log file and process survival"])
prop("F01","Written .npy headers are well-formed for every array shape and type",
 "For every array with up to the supported number of dimensions, element type and shape, the header written consists of the magic string, version 1.0, a little-endian length field equal to the number of dictionary bytes that follow, and a dictionary stating the array's type, order and full shape, padded by spaces and ended by a newline so that data starts at a multiple of 64 bytes; building it never overruns its buffers.",
 ["inputs"],"all element types and sizes, dimension counts and extents",
 "Only the shapes of tiny networks are ever written in tests.",
 [NA],[("npy_array_get_header",NA)],["bytes of the written file"])
prop("F02","Reading any byte sequence as an array is memory-safe and never aborts",
 "Loading or memory-mapping any file content as an array - truncated, malformed, or with hostile header fields - either returns an array whose data buffer really holds the number of bytes its shape and element size state, or reports failure by returning nothing; it never reads or writes outside its buffers, never aborts the process, and header lengths up to 65535 are honoured.",
 ["inputs","fault_sequences"],"all file contents and short reads",
 "Tests only read files the library itself has just written.",
 [NA],[("_read_matrix, read_mapped, npy_array_mmap",NA)],["returned array or failure"])
prop("F03","Archive loading treats stored names and entries as untrusted data",
 "Loading an archive of arrays is safe for every archive: entry names are stored as data, whatever characters and length they have, unreadable or invalid entries are skipped without aborting the process, and the returned list holds every readable array once, in archive order.",
 ["inputs","fault_sequences"],"all archives: entry names, counts and contents",
 "Tests only load archives written by the library, with its own harmless names.",
 [NL],[("npy_array_list_load and list construction",NL)],["returned list"])
prop("F04","Loading a network validates the file before using it",
 "Loading a network from any archive either returns a network whose layers chain, whose weights and biases are exactly the file's float32 arrays and whose activations are the file's names, or reports failure by returning nothing; mismatched shapes, wrong element sizes, wrong dimension counts, missing or surplus arrays, missing or too few activation names, or Fortran order never cause out-of-bounds accesses, uninitialised parameters or an abort.",
 ["inputs","fault_sequences"],"all archives of arrays",
 "Tests load only archives written by the library for valid networks.",
 [NN],[("neuralnet_load",NN)],["returned network or failure"])
prop("F05","Saved networks carry exactly what loading needs, in the same order",
 "For every network, saving writes, layer by layer, the weight array of shape (inputs, outputs) and then the bias array of shape (outputs), as float32 in storage order, followed by one array with each layer's activation name, and loading reads the arrays back by the same convention, so that a saved and reloaded network has the same layers, parameters and activations.",
 ["inputs"],"all topologies, parameters and built-in activations",
 "Tests save and load one or two nets; agreement between writer and reader for every topology is a relation between two functions.",
 [NN,NL,NA],[("neuralnet_save",NN),("neuralnet_load",NN)],["archive contents, reloaded network"])
prop("F06","Failing file operations are reported and survived, never silent or fatal",
 "When creating, writing or closing an output file or archive fails (unwritable path, full disk, rejected entry), saving an array, a list of arrays or a network prints a warning and returns to the caller, releasing the archive; it never aborts the process, and a list save that did not reach the disk does not report its arrays as written.",
 ["fault_sequences"],"all outcomes of the underlying file and archive operations",
 "Tests always save to writable paths.",
 [NL,NA,NN],[("npy_array_list_save_compressed",NL),("npy_array_save",NA),("neuralnet_save",NN)],["return value, stderr, process survival"])
prop("F07","No caller text or file text is ever used as a format string by mistake",
 "Only the documented printf-style parameters (file name of a network save, entry name of a list append, progress label) are interpreted as formats; a name that comes from a file, an archive entry, a configuration setting or an activation is always treated as plain text.",
 ["inputs"],"all strings supplied by configuration or files",
 "Tests use names without percent signs.",
 ["src/modelcheckpoint.c",NL,NN,"src/logger.c"],[("printf-like call sites","all sources")],["output text and memory safety"])
prop("R01","Every acquired resource is released exactly once on every path",
 "In saving, loading, mapping, creating and freeing networks, arrays, lists, optimizers and log files, every memory block, file, descriptor, mapping, archive and archive entry acquired is on every path - including each error path - either released exactly once or handed to the caller or to an object that releases it, and nothing is used after its release.",
 ["inputs","fault_sequences"],"all execution paths including every failing allocation or file operation",
 "Tests run the success path once and do not observe leaks or double frees.",
 [NN,NA,NL,AC,OP,"src/logger.c"],[("acquire/release pairs","npy_array/*.c, src/neuralnet.c, src/activation.c, src/logger.c")],["resource balance"])
prop("R02","Prediction and gradients are pure and parallel regions are race-free",
 "Predicting, batch predicting, evaluating and backpropagating never modify the network, its parameters or the input and target data, and keep no state between calls, so any number of threads may run them on one network at once; inside every parallel loop each thread writes only its own sample's outputs, private variables or declared reductions.",
 ["schedules","inputs"],"all thread counts, schedules and inputs",
 "Tests run on one machine without checking for races; a benign-looking shared variable fails only under contention.",
 [NN,"src/neuralnet_predict_batch.c","src/evaluate.c",OP,"src/adam.c"],[("const network parameters",NN),("OpenMP regions",OP+", src/evaluate.c, src/neuralnet_predict_batch.c, src/adam.c")],["results under concurrency"])
prop("A01","Trained networks agree numerically with reference frameworks",
 "Training or predicting with the same data, parameters and settings gives the same results as a reference implementation (Keras/NumPy) within float rounding tolerance.",
 ["inputs"],"all networks and data sets","Tests compare a few samples; rounding accumulates with data and summation order.",
 ["src"],[("whole computation","src")])
prop("A02","Training makes progress on learnable problems",
 "Running any of the optimizers for enough epochs with a suitable rate reduces the training loss of a learnable problem.",
 ["histories","inputs"],"all learnable data sets and suitable settings","Convergence depends on data and random initialisation.",
 ["src"],[("optimizers","src")])
prop("A03","Shuffles and initial weights have the documented distribution",
 "Shuffled sample orders are uniformly distributed over permutations and initial weights follow the documented uniform and normal distributions.",
 ["histories"],"all random generator states","Distribution is a statistical claim about the platform's generator.",
 [OP,NN],[("fisher_yates_shuffle",OP),("random_normal",NN)])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
import re
for d in P:
    assert len(d["title"])<=80,(d["id"],len(d["title"]))
with open(out,"w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
print(len(P),"properties")
