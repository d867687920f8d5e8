#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run after editing it)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
T = "smart_dnn/"
def m(name, where): return {"name": name, "where": where}

P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, na=None, tech=None, note=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  state=state, observe=observe, na=na, tech=tech, note=note))

SIM = "deterministic simulation: seeded search over "
TRUST = " Assumes sequentially consistent memory between scheduling points (a happens-before race detector covers the rest), g++ -O1 code generation and the C library; what no generated plan reached is not covered."

prop("C01", "Parallel computation gives the sequential result",
 "Every tensor operation, layer, activation, loss and optimizer step returns the same values whether it runs on one thread or on an OpenMP team of any size, under any interleaving of the team, up to floating-point rounding of reordered sums. No two team members access the same memory without ordering while one of them writes.",
 ["schedules", "inputs"], "every library computation, input shape and data, team size, nesting and interleaving of the team",
 "The unit tests run each operation on a few tiny tensors with whatever team and interleaving the machine happens to give; a race between iterations needs a particular interleaving and usually leaves those results unchanged.",
 [T+"Tensor/TensorOperations.hpp", T+"Tensor/AdvancedTensorOperations.hpp", T+"Tensor/TensorFactory.hpp", T+"Layers/Conv2DLayer.hpp", T+"Optimizers/AdamOptimizer.hpp"],
 [m("OpenMP loops whose iterations write disjoint elements", T+"Tensor/TensorOperations.hpp"), m("reductions and per-thread index buffers", T+"Tensor/AdvancedTensorOperations.hpp")],
 observe=["returned tensors", "every load and store of the compiled library (race detector)"],
 tech=SIM+"OpenMP team interleavings, with a happens-before race detector and comparison against the one-thread run")

prop("C02", "Independent callers in different threads do not influence each other",
 "Threads that use the library on tensors, layers, optimizers and models of their own, or only read tensors they share, obtain exactly the results each of them obtains alone. The library has no hidden shared mutable state other than the one random engine.",
 ["schedules", "programs"], "every mix of computations by 2-4 caller threads and every interleaving of them",
 "No test calls the library from two threads.",
 [T+"Tensor/TensorOperations.hpp", T+"Tensor/AdvancedTensorOperations.hpp", T+"SmartDNN/SmartDNN.impl.hpp", T+"RandomEngine.hpp", T+"Layers/", T+"Optimizers/"],
 [m("all state lives in the objects the caller owns", T+"Layer.hpp"), m("const operations write nothing", T+"Tensor/TensorOperations.hpp")],
 observe=["results of each caller", "every load and store of the compiled library (race detector)"],
 tech=SIM+"interleavings of caller threads, compared with each caller running alone")

prop("C03", "Concurrent random draws are those of one shared sequence",
 "Random numbers drawn by several threads at once after one seeding are the numbers a single thread would draw in some order consistent with the real-time order of the calls: none is lost, torn or handed out twice. A seeding concurrent with draws takes effect at one moment.",
 ["schedules", "histories"], "every interleaving of draws, initialisation draws and reseedings by 2-4 threads",
 "No test draws from two threads; a lost update of the engine state needs a preemption inside the generator.",
 [T+"RandomEngine.hpp"], [m("one engine behind a lock", T+"RandomEngine.hpp")],
 state=[{"name": "the shared engine", "meaning": "position in the pseudo-random sequence", "where": T+"RandomEngine.hpp"}],
 observe=["values returned by the draws, with call and return stamps"],
 tech=SIM+"thread interleavings, linearizability check of the recorded history against the library's own one-thread sequence")

prop("C04", "Seeding makes a program repeatable",
 "After seeding the random engine, everything a program obtains (random tensors, layer initialisation, dropout, trained parameters, predictions) is a function of the seed and the program alone. Team size, thread schedule, memory contents, allocation addresses, clock, process id, system entropy and earlier work never change it beyond floating-point rounding, and random values keep the sequence in which a single thread draws them.",
 ["schedules", "programs", "configurations"], "every program, seed, team size, schedule and environment",
 "A test compares two runs in one environment; dependence on schedule, addresses or uninitialised memory shows only when they change.",
 [T+"RandomEngine.hpp", T+"Tensor/TensorFactory.hpp", T+"Layers/", T+"Regularisation/DropoutLayer.hpp", T+"SmartDNN/SmartDNN.impl.hpp"],
 [m("one engine, drawn from in a fixed order", T+"Tensor/TensorOperations.hpp"), m("setSeed", T+"RandomEngine.hpp")],
 observe=["every value the program computes"],
 tech=SIM+"environments and schedules: one program executed in three different simulated environments must agree")

prop("C05", "Every parameter follows its optimizer's rule over its own history",
 "Each update by the SGD, RMSProp or Adam optimizer changes a parameter by the documented rule evaluated on that parameter's own gradient history and nothing else: not on other parameters, how many of them are updated per call or in which order, other optimizer objects, copies or where tensors live in memory. Finite gradients keep parameters finite however long the history. A call whose gradients do not match the parameters in number or size is refused and changes neither parameters nor later updates.",
 ["histories", "programs", "configurations"], "every history of updates of several parameters by several optimizers, with copies, moves, deletions, refused calls, options and allocation patterns",
 "The tests apply one to three updates to a single tensor; state kept under the wrong key shows only when several parameters, optimizers or reused addresses meet in one history.",
 [T+"Optimizers/SGDOptimizer.hpp", T+"Optimizers/RMSPropOptimizer.hpp", T+"Optimizers/AdamOptimizer.hpp"],
 [m("per-parameter state maps", T+"Optimizers/AdamOptimizer.hpp")],
 state=[{"name": "momentum, variance and moment buffers", "meaning": "history of one parameter", "where": T+"Optimizers/"}],
 observe=["parameter values after every update"],
 tech=SIM+"histories, addresses and schedules, refinement against a double-precision per-parameter model")

prop("C06", "Running out of memory never corrupts a value",
 "When an allocation fails inside any tensor, shape, layer, loss or model-building operation, the operation either completes or reports the failure, and every object the caller still holds remains usable: operands that are not written keep their value and a tensor being written has either its old value or the new one with a shape that fits its storage. Repeating the operation with memory available gives the normal result.",
 ["fault_sequences", "programs"], "every allocation of every operation failing, singly or in bursts, over short programs",
 "No test makes an allocation fail.",
 [T+"Tensor/TensorData.hpp", T+"Tensor/TensorDataCPU.impl.hpp", T+"Tensor/Tensor.impl.hpp", T+"Shape/Shape.hpp", T+"Layers/"],
 [m("copy first, then commit without throwing", T+"Tensor/TensorDataCPU.impl.hpp"), m("build new dimensions before replacing", T+"Shape/Shape.hpp")],
 observe=["values and shapes of all tensors after each failure", "process not terminated"],
 tech=SIM+"allocation-failure sequences, against an undisturbed twin")

prop("C07", "A failing training step leaves no partial effect",
 "When a step of training fails (a layer, the loss or the optimizer reports an error, a sample or target is malformed, or memory runs out), training stops with an error, the parameters are those of the completed steps, and later training and prediction continue from there as if the failed step had never been started; only where the update itself fails may each parameter, as a whole, have its old or its new value. Different numbers of samples and targets, or a model that was never compiled, are refused before anything is read or changed.",
 ["fault_sequences", "histories"], "every model, history of training calls and point of failure",
 "The tests train only where nothing fails.",
 [T+"SmartDNN/SmartDNN.impl.hpp", T+"Layers/FullyConnectedLayer.hpp", T+"Layers/Conv2DLayer.hpp", T+"Optimizers/"],
 [m("parameters change only after the whole backward pass", T+"SmartDNN/SmartDNN.impl.hpp")],
 observe=["parameters after every call", "later training and predictions"],
 tech=SIM+"failure points in training histories, against an undisturbed twin trained on the completed steps")

prop("C08", "Loading a data set yields exactly the samples in the files",
 "Loading from intact image and label files yields every sample the caller asked for, in file order, with pixel values scaled to 0..1 and one-hot labels, grouped in the requested batches, regardless of how the operating system splits or interrupts the reads. Repeated and concurrent loads yield the same.",
 ["inputs", "fault_sequences", "schedules"], "every pair of well-formed files, batch size and sample limit, and every way of delivering the bytes",
 "There is no test of the loader.",
 [T+"Datasets/MNistLoader.hpp"], [m("buffered binary reads, big-endian header decoding", T+"Datasets/MNistLoader.hpp")],
 observe=["returned tensors"],
 tech=SIM+"read splitting, interruptions and thread interleavings, against the generator of the files")

prop("C09", "Damaged data files are refused, never half loaded",
 "A data set whose files are missing, unreadable, of the wrong kind, or, within the samples requested, truncated at any byte, mislabelled, inconsistent with each other or too short is refused with an error; the loader never returns samples whose bytes were not in the files and never crashes or hangs. After a refused load the same loader loads intact files normally.",
 ["fault_sequences", "inputs", "crash_points"], "every byte at which a file ends or a read fails, every header damage, every failing open",
 "There is no test of the loader; the examples only ever read intact files.",
 [T+"Datasets/MNistLoader.hpp"], [m("header and length validation, stream state checked after every read", T+"Datasets/MNistLoader.hpp")],
 observe=["exception or returned tensors"],
 tech=SIM+"disk faults and file damage at every position")

prop("C10", "Synthetic data sets have the announced size, shape and law",
 "The linear data set generators return exactly the requested number of samples (batched: all full batches plus a last partial one), inputs within the announced range, and targets on the announced line plus noise of the requested spread, whatever the system's entropy delivers. When entropy or memory is unavailable the call reports an error and later calls work.",
 ["inputs", "configurations", "fault_sequences"], "every size, batch size, noise level, entropy stream and failure of entropy or memory",
 "There is no test of the generators, and their randomness cannot be controlled from a test.",
 [T+"Datasets/SampleGenerator.hpp"], [m("uniform inputs plus normal noise from a device-seeded engine", T+"Datasets/SampleGenerator.hpp")],
 observe=["returned tensors"],
 tech=SIM+"entropy streams and entropy or allocation failures, against the announced law")

prop("C11", "Inference is a pure, repeatable function of parameters and input",
 "In evaluation mode a prediction depends only on the trained state of the model and on that input: not on earlier, refused or failed predictions, mode changes, other inputs in the same list, or random numbers, and it leaves the input, the parameters and the random stream unchanged. Predicting a list gives, in order, the predictions of its elements.",
 ["histories", "programs", "fault_sequences"], "every model and history of training, predictions, refused inputs, failures and mode changes",
 "The tests predict once; a dependence on history needs several calls in a particular order.",
 [T+"SmartDNN/SmartDNN.impl.hpp", T+"Regularisation/DropoutLayer.hpp", T+"Regularisation/BatchNormalizationLayer.hpp", T+"Layers/"],
 [m("evaluation mode reaches every layer", T+"SmartDNN/SmartDNN.impl.hpp"), m("running statistics and masks untouched in evaluation mode", T+"Regularisation/")],
 observe=["predictions", "parameters", "random stream position"],
 tech=SIM+"histories of predictions, failures and mode changes, against a model that was only trained")

prop("C12", "Dropout removes each element at its rate, consistently in both directions",
 "In training mode a dropout layer drops each element independently with its rate, scales the survivors so that the expectation is preserved, draws a fresh pattern for every call, and passes the gradient back through exactly the pattern of the last forward call, scaled alike. In evaluation mode it is the identity in both directions, and a gradient that fits no remembered pattern is refused.",
 ["histories", "inputs", "configurations"], "every rate, input, seed and history of forward, backward, mode changes and failures",
 "The tests look at one call with one rate; frequencies, independence and the pairing of forward and backward over a history are not observable there.",
 [T+"Regularisation/DropoutLayer.hpp"], [m("per-element draws from the shared engine; remembered mask", T+"Regularisation/DropoutLayer.hpp")],
 state=[{"name": "mask", "meaning": "pattern of the last training forward call", "where": T+"Regularisation/DropoutLayer.hpp"}],
 observe=["outputs and gradients"],
 tech=SIM+"histories under controlled randomness, against the remembered pattern and the announced frequencies")

prop("C13", "A layer's results depend only on the matching call, not on older ones",
 "For every layer, the output of a forward call depends only on that input and the layer's parameters, and a backward call returns the gradients for the most recent forward call, whatever shapes, calls, refused calls or memory failures came before; gradients are replaced, never accumulated. A backward call before any forward call is refused.",
 ["histories", "inputs", "fault_sequences"], "every layer and history of forward and backward calls with changing shapes, refused calls and failures",
 "The tests use each layer object for one forward and one backward call.",
 [T+"Layers/", T+"Regularisation/", T+"Activations/"], [m("each layer remembers its last input", T+"Layers/FullyConnectedLayer.hpp")],
 state=[{"name": "remembered input, shape, mask, gradients", "meaning": "context of the last forward and backward call", "where": T+"Layers/"}],
 observe=["outputs, input gradients and parameter gradients"],
 tech=SIM+"call histories and failures, against a fresh layer that makes only the last calls")

prop("C14", "Training visits every sample, layer and parameter exactly as specified",
 "Training runs the requested number of epochs over the samples in the given order; each sample goes forward through the layers in order, the loss sees the final output with that sample's target, the gradient goes back through the layers in reverse order, and then every layer is updated exactly once with the compiled optimizer. The loss reported for an epoch is the mean over its samples; mode changes reach every layer and hold until the next one, and prediction only runs the layers forward in order.",
 ["programs", "histories", "fault_sequences"], "every stack of layers, number of samples and epochs, and history of training, prediction, recompilation, mode changes and failures",
 "The tests observe only that a loss value was computed or that parameters changed.",
 [T+"SmartDNN.hpp", T+"SmartDNN/SmartDNN.impl.hpp"], [m("training loop", T+"SmartDNN/SmartDNN.impl.hpp")],
 observe=["calls received by layers, loss and optimizer, with the tensors passed"],
 tech=SIM+"model programs with failing participants, the recorded call history checked against the protocol")

prop("C15", "Parallel training is gradient descent on the loss",
 "Training a network of fully connected layers with element-wise activations and the squared-error loss follows the textbook gradient-descent trajectory of that loss for the given samples, in order, to floating-point accuracy, whatever the team size, schedule and memory layout.",
 ["schedules", "inputs", "configurations"], "every small network, data set, number of epochs, options of the plain gradient-descent optimizer, team size and schedule",
 "The tests check single gradients on fixed numbers or that the loss decreases; a wrong step in a rare shape or schedule still decreases the loss.",
 [T+"Layers/FullyConnectedLayer.hpp", T+"Activations/", T+"Loss/MSELoss.hpp", T+"SmartDNN/SmartDNN.impl.hpp", T+"Tensor/"],
 [m("backward passes of layers, loss and activations", T+"Layers/FullyConnectedLayer.hpp")],
 observe=["parameters and predictions after training"],
 tech=SIM+"schedules, team sizes and memory layouts of whole training runs, against a double-precision reference")

prop("C16", "Batch statistics accumulate over successful training batches only",
 "A batch normalization layer normalizes a training batch with that batch's own mean and variance, and its running statistics are the exponential average, with its momentum, over exactly the training batches that completed: batches refused or failed do not count, and evaluation, gradients and updates leave them alone. In evaluation mode it normalizes with those running statistics and its current scale and shift.",
 ["histories", "inputs", "fault_sequences"], "every history of training, evaluation, backward, update, refused and failing calls on 2-D and 4-D batches",
 "The tests run one batch and look at its normalized output; running statistics over a history with failures are never observed.",
 [T+"Regularisation/BatchNormalizationLayer.hpp"], [m("running statistics replaced together at the end of a training forward call", T+"Regularisation/BatchNormalizationLayer.hpp")],
 state=[{"name": "running mean and variance", "meaning": "exponential averages over completed training batches", "where": T+"Regularisation/BatchNormalizationLayer.hpp"}],
 observe=["outputs in training and evaluation mode"],
 tech=SIM+"histories and failures, against a double-precision model of the statistics")

prop("C17", "Tensors are independent values",
 "A tensor is a value: writing to a tensor, in place or by assignment, never changes another tensor, whether copied, assigned, moved, sliced, reshaped or returned from it earlier; pure operations leave their operands unchanged, and operations whose operands are the same tensor give the result they would give for equal copies. Moved-from tensors stay usable and a refused operation changes nothing.",
 ["programs", "inputs"], "every program of copies, assignments, moves, slices, reshapes, in-place and pure operations, including self-assignment and aliased operands",
 "The tests check single operations on fresh tensors; sharing shows only when an earlier relative of the written tensor is looked at again.",
 [T+"Tensor/Tensor.impl.hpp", T+"Tensor/TensorData.hpp", T+"Tensor/TensorDataCPU.impl.hpp", T+"Shape/Shape.hpp"],
 [m("deep copies, exclusive ownership of storage", T+"Tensor/TensorDataCPU.impl.hpp")],
 observe=["all live tensors after every operation"],
 tech=SIM+"programs, memory reuse and schedules, every live tensor compared with a shadow model after every step")

prop("C18", "Memory is bounded by live state and returned when objects die",
 "Repeating the same training, prediction, loading or tensor work does not grow memory, also when some of the repetitions fail part-way; when all objects are destroyed, all memory and open files the library took are returned. What training needs at most does not depend on how many epochs it runs or how many samples it sees.",
 ["histories", "fault_sequences"], "every model and repeated work with failures at any point",
 "The tests never measure memory; a leak on an error path or a state map that grows is invisible to them.",
 [T+"Tensor/TensorDataCPU.impl.hpp", T+"Optimizers/", T+"SmartDNN/SmartDNN.impl.hpp", T+"Datasets/MNistLoader.hpp"],
 [m("owning containers and smart pointers", T+"Tensor/TensorDataCPU.impl.hpp")],
 observe=["number and bytes of live allocations, open files"],
 tech=SIM+"repeated histories with failures, live allocations, live and peak bytes and open files counted by the simulator")

prop("C23", "Activations and losses carry no memory of earlier calls",
 "Every activation function and loss is a pure function of its arguments: value and gradient depend only on the tensors passed to that call, not on earlier, refused or failed calls of the same or another object, copies, or other threads using the same object at that moment. Arguments are left unchanged, returned tensors belong to the caller and never change later, and arguments of shapes that cannot be combined are refused.",
 ["histories", "schedules", "fault_sequences"], "every history of calls on activation and loss objects with changing shapes, refused calls, memory failures, copies and sharing between threads",
 "The tests call each function once on a fresh object; a remembered intermediate result shows only when calls with different inputs follow each other, fail in between or overlap in time.",
 [T+"Activations/", T+"Loss/", T+"Activation.hpp", T+"Loss.hpp"], [m("stateless const activation functions", T+"Activation.hpp"), m("losses without members", T+"Loss/MSELoss.hpp")],
 observe=["returned tensors, arguments, earlier results still held"],
 tech=SIM+"call histories, failures and thread interleavings on shared objects, every result against the formula in double precision")

NA = "A pure function of its arguments: no schedule, timing, I/O, failure or history changes the outcome, so a simulator has nothing to decide; property-based testing against a reference would. "
prop("C19", "Convolution, pooling and batch normalization compute their formulas",
 "For every channel count, batch size, stride, padding and dilation a layer accepts, its output and gradients are those of the mathematical definition.",
 ["inputs", "configurations"], "every accepted configuration and input", "The tests use one channel, one sample, stride one and no padding.",
 [T+"Layers/Conv2DLayer.hpp", T+"Regularisation/MaxPooling2DLayer.hpp", T+"Regularisation/BatchNormalizationLayer.hpp"], [m("direct loops", T+"Layers/Conv2DLayer.hpp")],
 na=NA + "Reading shows it does not hold (the convolution ignores all channels but the first, stride, padding and dilation; its gradients only cover sample and channel 0); see DESIGN.md.")
prop("C20", "Broadcast, reduction and slicing agree with their index definitions",
 "Element-wise operations on broadcast shapes, reductions over any set of axes, products, transposes and views compute, for every shape, the element-wise mathematical definition.",
 ["inputs"], "every combination of shapes and axes", "The tests use a few small shapes.",
 [T+"Tensor/AdvancedTensorOperations.hpp", T+"Tensor/BroadcastView.hpp", T+"Tensor/SliceView.hpp", T+"Shape/ShapeOperations.hpp"], [m("stride arithmetic", T+"Tensor/BroadcastView.hpp")],
 na=NA + "C01 still executes all of them, but decides only agreement between schedules.")
prop("C21", "Activations and losses are numerically stable and mutually consistent",
 "Activations and losses return finite values and gradients that agree with finite differences for every finite input, however large.",
 ["inputs"], "every finite input", "The tests use small inputs.",
 [T+"Activations/", T+"Loss/"], [m("closed formulas", T+"Activations/Tanh.hpp")],
 na=NA + "Known weak spots from reading (tanh overflow, softmax followed by cross-entropy) are described in DESIGN.md.")
prop("C22", "Malformed arguments are refused",
 "Value lists of the wrong length, axes or indices out of range, rates outside 0..1 and non-positive layer sizes are refused with an error instead of reading or writing outside the tensor.",
 ["inputs"], "every malformed argument", "The tests try a handful of malformed arguments.",
 [T+"Tensor/Tensor.impl.hpp", T+"Shape/ShapeOperations.hpp", T+"Layers/"], [m("argument validation", T+"Shape/ShapeOperations.hpp")],
 na=NA + "Malformed samples inside a training or inference history are covered by C07, C11 and C13.")

def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            a = {"files": p["files"], "mechanism": p["mech"]}
            if p["state"]: a["state"] = p["state"]
            if p["observe"]: a["observe_at"] = p["observe"]
            a["hook_needed"] = None
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]},
                                "why_tests_cant": p["why"], "anchors": a}) + "\n")
            assert len(p["title"]) <= 80, p["id"]
    checks, na = [], []
    for p in P:
        if p["na"]:
            na.append({"property": p["id"], "reason": p["na"]})
        elif os.path.exists(os.path.join(V, "props", p["id"].lower() + ".cpp")):
            checks.append({"property": p["id"], "quick_cmd": "bin/check %s" % p["id"], "thorough_cmd": "bin/check %s --tier thorough" % p["id"],
                           "evidence_file": "evidence/%s.json" % p["id"], "technique": p["tech"], "level": "exploration",
                           "level_note": "Real library code in one process under a seeded scheduler, allocator and fault injector; every failure is reproduced from its replay file before it is reported." + TRUST})
        else:
            na.append({"property": p["id"], "reason": "Scenario not built yet."})
    man = {"version": 1, "setup_cmd": "bin/setup",
           "hooks": {"guard": "SMARTDNN_SIM", "enable": "No hooks are needed: the simulator interposes on the OpenMP runtime, pthreads, operator new, file reads, clocks and entropy at link time, and on memory accesses by compiler instrumentation. The guard name is reserved and unused.", "source_commits": []},
           "checks": checks, "not_applicable": na,
           "notes": "See DESIGN.md. known-findings.json lists recorded and repaired defects."}
    json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
    print(len(P), "properties,", len(checks), "claimed")

main()
