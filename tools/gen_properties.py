#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so the wording lives in one place)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(zip(("name","meaning","where"), s)) for s in (state or [])],
        "mechanism": [dict(zip(("name","where"), m)) for m in mechanism],
        "observe_at": observe or [], "hook_needed": hook}})

NET, TEN, LAY = "src/network.rs", "src/tensor.rs", "src/layer.rs"
FC, CV, MP, SM = (f"src/layer/{n}.rs" for n in ("fully_connected","convolutional","max_pool","softmax"))
CONV = "src/tensor/operations/convolution.rs"
HELP = "src/tensor/helper.rs"
ALL = [NET, TEN, LAY, FC, CV, MP, SM, CONV, HELP]

prop("S01", "A successfully saved network or tensor reloads exactly",
 "Once saving a network or a tensor to a path has reported success, loading that path succeeds, in the same process or after a restart, whatever file stood there before and however the operating system splits or interrupts the reads and writes. The loaded object is the saved one: same layers in the same order with the same names and shapes, every parameter identical bit for bit, and the same inference results. With no storage fault, a save never fails.",
 ["inputs","fault_sequences","histories"],
 "every network built from the four layer kinds and every tensor (any shape, any float bit patterns, any names), every previous content of the path, every pattern of short and interrupted reads and writes, every hash seed, with or without a process restart between save and load",
 "The tests save one 3x4x5 tensor to a fresh temporary file on a healthy disk and serialise single layers in memory; no network ever goes through a file, no read or write is ever short or interrupted, no older file is overwritten and no process restarts.",
 [NET, TEN, LAY, FC, CV, MP, SM],
 [("network save/load through bincode","src/network.rs: save_to_file, load_from_file"),("tensor save/load","src/tensor.rs: save_to_file, from_file"),("per-layer serialised key/value maps","src/layer/*.rs: get_serialized, load_from_serialized")],
 [("file content","bincode image of the layer list or tensor","the path given by the caller")],
 ["Network::save_to_file","Network::load_from_file","Tensor::save_to_file","Tensor::from_file","Layer::get_serialized","Network::infer"])

prop("S02", "Storage failures are reported, never swallowed",
 "If storage refuses or fails a step of saving or loading a network or tensor (full disk, I/O error, permission denied, no more file handles, missing file or directory), the operation returns an error instead of panicking or reporting success with an incomplete result. The object being saved is unchanged by the attempt, and the same operation succeeds once the fault has cleared.",
 ["fault_sequences","inputs"],
 "every storage step of a save or load at which an error can strike, every error kind, one-shot or persistent, for every network and tensor",
 "No test makes any file operation fail; the error paths of saving and loading are never executed.",
 [NET, TEN, "src/storage.rs"],
 [("error propagation of save and load","src/network.rs, src/tensor.rs: save_to_file, load_from_file, from_file")],
 None, ["results of the four save/load calls","content of the path afterwards"])

prop("S03", "A failed or interrupted save never destroys the previous file",
 "If saving a network or tensor fails, or the process or the whole machine dies at any instant during it, the path afterwards holds either the complete previous content or the complete new content (or is still absent if nothing was there), and loads accordingly. No other file is altered, and a file the process has no permission to write is not replaced.",
 ["crash_points","fault_sequences","inputs"],
 "every instant during a save at which the process is killed or power is lost, every subset of not-yet-durable writes that survives the power loss, every failing storage step",
 "No test interrupts a save; every test save runs to completion on a healthy disk into an empty directory.",
 [NET, TEN, "src/storage.rs"],
 [("replacing the file in one step","src/network.rs, src/tensor.rs: save_to_file")],
 None, ["content of the path after restart"])

prop("S04", "Acknowledged saves survive power loss",
 "Once saving a network or tensor has reported success, a power failure at any later instant leaves that path loading as the saved object, until a later save to the same path begins to replace it. This also holds when earlier saves to the path failed or were interrupted.",
 ["crash_points","histories"],
 "every history of saves to several paths followed by a power failure at any later instant, every subset of not-yet-durable data and directory changes that the failure discards",
 "No test models durability: file contents are read back from the page cache of the same boot.",
 [NET, TEN, "src/storage.rs"],
 [("making data and directory entry durable before reporting success","src/network.rs, src/tensor.rs: save_to_file")],
 None, ["content of the path after power loss"])

prop("S05", "Concurrent saves and loads of one path are atomic",
 "When several threads or processes save and load the same path at the same time, every load returns exactly one complete saved version, never a mixture or a partial one, and never fails once a complete file exists. The results agree with some single order of the operations that respects their real-time order, and the file ends up as the last version in that order, also when some of the savers are killed half-way.",
 ["schedules","crash_points"],
 "every interleaving, at storage-step granularity, of saves and loads of up to four clients on shared paths, with and without clients dying in the middle",
 "All tests are single-threaded users of private temporary files.",
 [NET, TEN, "src/storage.rs"],
 [("replacing the file in one step from a private temporary","src/network.rs, src/tensor.rs: save_to_file")],
 None, ["history of save/load calls with their results"])

prop("S06", "A failed load leaves the network untouched",
 "If loading a file into a network fails for any reason (missing or unreadable file, truncated or damaged content, a file of another kind, layers that do not fit the existing ones), the load returns an error and the network is exactly as before: same layers, shapes, parameters, mode and last output, and the same results from later inference and backward passes. A successful load into a network that already has layers appends the file's layers in order.",
 ["fault_sequences","histories","inputs"],
 "every network state (empty or not, either mode, with or without a pending forward pass), every load failure cause and position in the file",
 "No test performs a load that fails, nor a load into a network that already holds layers.",
 [NET, LAY, FC, CV, MP, SM],
 [("load and append","src/network.rs: load_from_file, populate_network; src/layer.rs: add_to_network")],
 [("layers, intermediate states and gradients, input/output shapes","the network's visible state","src/network.rs: Network")],
 ["Network::load_from_file","get_layers","get_output","get_intermediate_state","get_input_shape","get_output_shape","infer","backward"])

prop("S07", "Damaged files are rejected or give a well-formed object, never a crash",
 "Loading a truncated, overwritten or otherwise corrupted network or tensor file never panics, aborts or hangs: it either returns an error or produces a well-formed object. Well-formed means that a tensor holds exactly as many elements as its shape says and all are readable, and that a network's layers chain, accept inference on an input of the reported shape in both modes, run backward, and can be saved and reloaded.",
 ["fault_sequences","inputs"],
 "every saved file and every truncation, bit flip, overwritten word, zeroed, duplicated or swapped block, or spliced tail of it (objects of practical size)",
 "No test loads anything but an intact image it has just written.",
 [NET, TEN, LAY, FC, CV, MP, SM, HELP],
 [("deserialisation and validation of layers and tensors","src/layer/*.rs: load_from_serialized, fill_from_state; src/tensor.rs: Deserialize")],
 None, ["Network::load_from_file","Tensor::from_file","and every later call on the loaded object"])

prop("S08", "Files written by the earlier release still load",
 "Every network or tensor file written by the earlier release of the library (the pinned base commit) loads in the current one as the same object: same layers, names and shapes, and inference results equal up to rounding. This holds whatever order the earlier release happened to write its unordered fields in, and after the file was left behind by a crash or power loss that kept it complete.",
 ["histories","inputs"],
 "every network and tensor the earlier release can save, every field order its hash seeds produce, upgrade by restart into the current build",
 "Tests only read what the same build has just written, so a change of the on-disk form is invisible to them.",
 [NET, TEN, LAY, FC, CV, MP, SM, HELP],
 [("on-disk enum and field layout","src/layer.rs: SerializedLayer; src/layer/*.rs: *SerialKeys; src/tensor.rs: Tensor; src/tensor/helper.rs")],
 None, ["Network::load_from_file","Tensor::from_file","Network::infer"])

prop("S09", "Saves and loads leave nothing behind",
 "When saving or loading a network or tensor returns, successfully or with an error, every file handle it opened has been closed. The directory holds no file that was not there before, other than the target of a save, unless storage also refused the clean-up itself. A save over an existing file gives nobody access to it who had none before.",
 ["fault_sequences","histories"],
 "every sequence of saves and loads, each hit by any storage fault at any step, including thousands of repeated failures under a low handle limit",
 "Tests perform one successful save and never look at handles or directory contents.",
 [NET, TEN, "src/storage.rs"],
 [("closing and cleaning up on every exit path","src/network.rs, src/tensor.rs: save_to_file, load_from_file, from_file")],
 None, ["open handles and directory listing after each call"])

prop("H01", "Inference depends only on the parameters and the input",
 "After any history of operations, successful or failed (inferences, backward passes, mode switches, additions, rejected calls, failing layers, saves, loads and restarts), inference on a finite input gives, up to rounding, the composition of the network's layers as mathematically defined: dense layer with ReLU, strided multi-channel convolution with bias and ReLU, max pooling, softmax. The result is the same in training and in inference mode, and every intermediate state equals the corresponding partial composition.",
 ["histories","inputs","fault_sequences"],
 "every history of session operations with injected layer failures, storage faults, crashes and restarts, over every chain of layers, shapes, strides, channels, parameters and finite inputs",
 "Tests run each layer once or twice on one or two fixed tiny tensors from a fresh state; the two execution paths (training and inference) are compared on a single convolution example and never across a history.",
 ALL,
 [("layer-by-layer forward pass over cached intermediate states","src/network.rs: infer"),("two forward paths per layer, chosen by mode","src/layer/*.rs: forward")],
 [("intermediate states","cached input and output of every layer","src/network.rs: intermediate_states")],
 ["Network::infer","get_output","get_intermediate_state"])

prop("H02", "Mode is coherent and gates training",
 "At every point of every history a network reports the mode last requested at creation or by a switch, and every layer it holds, whether added before or after the switch or loaded from a file, is in that mode. Backward passes, on a network or a layer, are refused with an error outside training mode and accepted in training mode once an inference has been run since that mode was entered; no order of switches, additions, loads and passes makes a call panic.",
 ["histories"],
 "every history of creations, switches, additions, loads, inferences and backward passes, including failed ones",
 "One test performs a single inference-training-inference sequence and checks only the layers' modes.",
 [NET, FC, CV, MP, SM],
 [("mode switches propagate to layers and gradient buffers","src/network.rs: switch_to_training, switch_to_inference, add_layer"),("mode checks in backward","src/network.rs, src/layer/*.rs: backward")],
 [("run_state","current mode","src/network.rs, src/layer/*.rs")],
 ["get_run_state","get_run_mode","backward"])

prop("H03", "Backward gives the gradient of the most recent inference",
 "In training mode, a backward pass after an inference hands every layer, and the network's input, the gradient with respect to that layer's output or the input, of the network output weighted by the incoming gradient, evaluated at the most recent inference run since training mode was entered; inactive ReLU units and non-maximal pooled elements pass nothing. Nothing else in the history matters: earlier inferences, earlier backward passes on the same inference, clearing of gradients, rejected calls, mode switches or reloads.",
 ["histories","inputs"],
 "every history of session operations ending in training-mode inference and backward, over every chain of layers, shapes, strides, channels, parameters, inputs and incoming gradients",
 "Backward is tested once per layer on one tiny stride-1 example; the convolution test only checks that the gradient is not zero, and no test repeats a pass or mixes it with other operations.",
 [NET, FC, CV, MP, SM, CONV, TEN],
 [("reverse sweep over cached states","src/network.rs: backward"),("per-layer backward with state kept from forward","src/layer/*.rs: backward"),("convolution adjoints","src/tensor/operations/convolution.rs")],
 [("relu masks and pooling origins","what forward remembers for backward","src/layer/*.rs")],
 ["Layer::backward (outgoing gradient)","gradients received by a user-defined layer inside a network"])

prop("H04", "Parameter gradients accumulate per backward pass until cleared",
 "Every successful backward pass adds, to each dense and convolutional layer's accumulated gradients, the gradient of the weighted output with respect to its weights or kernels and its biases at the most recent inference run since training mode was entered. Clearing a layer's gradients, entering training mode or giving the layer a new state (filled in or loaded) resets them to zero; clearing does not disturb a backward pass that is still to come, and rejected calls (wrong shape, wrong mode, no layers) and inferences add nothing.",
 ["histories","inputs"],
 "every history of inferences, backward passes, clears and switches over every dense and convolutional geometry",
 "Each layer's gradients are tested for one backward pass on one example (dense layer only); accumulation, clearing and convolution gradients with several channels are never tested.",
 [FC, CV, CONV, NET],
 [("accumulating gradient tensors","src/layer/fully_connected.rs, src/layer/convolutional.rs: backward, clear_gradients"),("kernel adjoint","src/tensor/operations/convolution.rs: convolution_backprop_kernel")],
 [("weights_gradients, bias_gradients, kernel_gradients","accumulated parameter gradients","src/layer/fully_connected.rs, src/layer/convolutional.rs")],
 ["the layers' accumulated gradients"], "a guarded accessor for the accumulated gradients (cfg rn_sim)")

prop("H05", "Rejected operations have no effect, accepted ones take effect",
 "An operation that cannot be carried out (layer geometry that does not fit, an added layer whose input does not match, an input or gradient of the wrong shape, inference on an empty network, a layer that fails during a pass) is answered with an error, never with a panic and never with success and a stale result. A rejected addition or wrongly shaped call leaves layers, shapes, mode, outputs and pending backward passes exactly as they were, and after a layer failure later inferences give the same results as if it had not happened.",
 ["histories","inputs","fault_sequences"],
 "every history of valid and invalid operations at every position, every geometry including zero strides and kernels larger than the image, every layer failing at any pass",
 "Two tests provoke one error each from a fresh object and look only at the return value.",
 [NET, LAY, FC, CV, MP, SM, TEN, CONV],
 [("shape checks before acting","src/network.rs: add_layer, infer, backward; src/layer/*.rs: fill_from_state, forward; src/tensor/operations/convolution.rs: check_convolution_dimensions")],
 None, ["results of every call and the visible state afterwards"])

prop("H06", "Networks used side by side do not influence each other",
 "Any number of networks, layers and tensors used by different threads at the same time, or interleaved in one thread, give exactly the results each would give alone: inference, backward, gradients, random fills, saves and loads of one never change another. No interleaving deadlocks or panics.",
 ["schedules","histories"],
 "every interleaving, at allocation, layer-call and system-call granularity, of the operations of up to four threads each owning its own objects",
 "Tests never use two networks at once, and the test harness's own threads only ever overlap by accident.",
 ALL,
 [("no shared mutable state between objects","whole crate")],
 None, ["results of every call compared with a solo execution"])

prop("R01", "Uniform fills are fresh, in range and uniform",
 "For any finite bounds min <= max, a uniform fill replaces every element of the tensor by an independent draw uniformly distributed over [min, max], leaves the shape alone and never panics. This holds for whatever the entropy source delivers, however it interrupts or shortens its answers, on every thread; repeated fills, different tensors and different threads or processes get different values.",
 ["inputs","fault_sequences","schedules"],
 "every tensor shape, all bounds including equal ones, every entropy stream with short and interrupted reads, across reseeding of the generator, up to four threads",
 "One test fills a single 24-element tensor once and checks the bounds of whatever the machine's entropy gave.",
 [TEN],
 [("uniform distribution over the thread's generator","src/tensor.rs: fill_with_uniform")],
 None, ["tensor elements after the fill"])

prop("R02", "Gaussian fills are fresh, finite and normally distributed",
 "For any finite mean and standard deviation >= 0 of ordinary magnitude, a Gaussian fill replaces every element of the tensor by an independent finite draw from the normal distribution with that mean and standard deviation, leaves the shape alone and never panics. This holds for whatever the entropy source delivers, however it interrupts or shortens its answers, on every thread; repeated fills, different tensors and different threads or processes get different values.",
 ["inputs","fault_sequences","schedules"],
 "every tensor shape, means and standard deviations including zero, every entropy stream with short and interrupted reads, across reseeding of the generator, up to four threads",
 "The only test that fills with Gaussian values never looks at them.",
 [TEN],
 [("normal distribution over the thread's generator","src/tensor.rs: fill_with_gaussian")],
 None, ["tensor elements after the fill"])

prop("H07", "Tensors hold exactly what their history says",
 "After any history of operations on tensors (writes, fills, clones, in-place and out-of-place algebra, matrix products and transposes, convolutions and their adjoints, pooling, softmax, saves and loads that succeed or fail, restarts), every tensor has the shape and the elements the accepted operations define, exactly for copies, writes and element-wise arithmetic and up to rounding for sums; norm, dot product, equality and reads agree with that content. No operation changes a tensor that is not its result, reads outside the shape give zero and writes outside it are ignored. An operation whose operands do not fit together changes nothing, does not panic, and returns an error where it returns a result at all.",
 ["histories","inputs","fault_sequences"],
 "every history of tensor operations over every combination of shapes (empty ones included) and values, with storage faults, kills and power failures around the saves and loads in it",
 "The tests apply each operation once to one or two fixed fitting operands; nothing chains operations, none checks that a refused one left its operands alone, none goes on with a tensor that came from a file.",
 [TEN, HELP, CONV],
 [("loops over strided data guarded by shape checks","src/tensor.rs"),("strides derived from the shape","src/tensor/helper.rs"),("convolution and adjoints","src/tensor/operations/convolution.rs")],
 [("shape, strides, data","a tensor's content","src/tensor.rs: Tensor")],
 ["Tensor::get_item","get_shape","total_items","get_norm","dot","==","results of every call"])

prop("H08", "Long sessions stay bounded and give everything back",
 "However often operations are repeated (inferences, backward passes, clears, mode switches, tensor and layer operations, saves and loads, refused and failing ones included), the memory a session holds, the work per operation and the size of the files it rewrites do not grow with the number of repetitions. Dropping networks, layers and tensors gives back all memory they held.",
 ["histories","fault_sequences"],
 "every repeated cycle of operations, with storage faults in it, over every network; growth is judged over 160 repetitions, leaks over repeated lives of the objects",
 "No test repeats anything more than twice or looks at memory or work.",
 ALL,
 [("state replaced, not accumulated, by each pass","src/network.rs: infer, backward, add_layer; src/layer/*.rs: forward, backward, switch_to_training")],
 [("gradients, masks, origins, intermediate states","what passes leave behind","src/network.rs, src/layer/*.rs")],
 ["allocated bytes","executed basic blocks","file sizes"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
