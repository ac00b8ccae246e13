prop("C22", "Losses of learnable wavelets measure reconstruction and orthogonality",
     "For every filter bank of one filter length, ProductFilter and SoftOrthogonalWavelet report "
     "the perfect-reconstruction, alias-cancellation, product-filter, orthogonality and total "
     "losses as defined by their polynomial formulas: half of the first two is the energy of the "
     "error wavedec/waverec make on an even and an odd impulse, banks that reconstruct have zero "
     "loss, gradients are exact and reach all four filters, and the losses keep dtype and device "
     "and change no parameter.",
     ["inputs", "configurations"],
     "pywt banks, random orthonormal lattices, biorthogonal, perturbed and arbitrary banks of any "
     "scale, even and odd length, float32 and float64, any torch default dtype",
     "Tests evaluate the losses of a few named wavelets only, where they are zero.",
     ["wavelets_learnable.py"],
     [("losses", "wavelets_learnable.py:WaveletFilter, SoftOrthogonalWavelet")],
     ["loss values, their components and gradients", "waverec(wavedec(impulse)) with the bank"],
     "reference-model and metamorphic monitor on loss evaluations, virtual accelerator mode",
     "Every loss of a random bank is compared with numpy polynomials and with the observed "
     "reconstruction error.")

prop("C23", "Execution contexts of PyTorch do not change results",
     "A torch.jit.trace of a transform recorded on one input computes, for all other values of "
     "that shape (and other filters, where they are traced inputs), what the direct call computes, "
     "with the same gradients, also after saving and loading. Calls in no_grad and inference mode "
     "give the same values, and objects first used there can be trained with later. vmap, jvp, "
     "vjp, torch.compile with the eager backend, checkpointing, saved-tensor hooks, anomaly "
     "detection, deterministic algorithms, checked sparse tensors, tensor subclasses, parameters "
     "as data, repeated backward passes, copies and pickles agree with plain calls.",
     ["inputs", "configurations", "histories"],
     "all transforms and inverses (tracing: those without sparse matrices), example inputs that "
     "are zero, constant or huge, save and load, objects before and after use, nine settings "
     "of autograd and tensor types, and programs compiled for one input and run on others",
     "Tests trace five functions and evaluate the traces on a single other input; traces which "
     "bake in values pass them when the values are alike.",
     ["conv_transform.py", "conv_transform_2.py", "conv_transform_3.py",
      "separable_conv_transform.py", "stationary_transform.py", "continuous_transform.py",
      "packets.py", "matmul_transform.py", "_util.py"],
     [("filters as tensors", "_util.py:_get_filter_tensors"),
      ("stored matrices", "_util.py:_outside_inference_mode")],
     ["results of traced, mapped, differentiated, copied and mode-switched calls"],
     "differential monitor between execution contexts",
     "Every traced, mapped or copied execution is compared with the direct one.")

prop("C24", "Concurrent calls give the results of sequential calls",
     "Calls made by several threads at once - on own or shared input tensors, with shared wavelet "
     "objects, with different arguments, and on one matrix object that was already called for the "
     "shape and dtype - return and differentiate exactly as when made one after the other, raise "
     "nothing and do not block, and leave later calls and the settings of the process (warning "
     "filters, torch, numpy and interpreter settings) unaffected.",
     ["schedules", "inputs"],
     "2-4 threads, equal or different programs out of all transforms, interleavings at torch "
     "calls under a microsecond switch interval and random yields",
     "The tests are single-threaded; state shared between calls only shows in an interleaving.",
     ["_util.py", "conv_transform.py", "stationary_transform.py", "continuous_transform.py",
      "packets.py", "matmul_transform.py", "matmul_transform_2.py", "matmul_transform_3.py"],
     [("absence of state shared between calls", "conv_transform.py, _util.py"),
      ("stored matrices are only read in later calls", "matmul_transform.py:MatrixWavedec")],
     ["result of every call in every thread", "global order of the torch calls",
      "settings of the process before and after"],
     "schedule stress with injected delays, results checked against the sequential run",
     "Millions of logged torch calls and about a million observed thread switches per run; "
     "interleavings are sampled, not enumerated.")

prop("C25", "Equivalent spellings of arguments give the same result",
     "Arguments that mean the same have the same effect in every transform, class and packet tree: "
     "a wavelet as name, synonym, pywt object, user object, tensor tuple or learnable wavelet, "
     "axes counted from either end or left at their defaults, documented defaults omitted or spelt "
     "out, level None or the maximal level, deprecated argument names (which warn at "
     "the caller's line, and are rejected next to the new name), positional or keyword, list or tuple containers, any key "
     "order, scales as array or tensor, data given to the constructor or to transform().",
     ["inputs", "configurations"],
     "all transforms, inverses, classes and trees on random programs; every applicable spelling",
     "Tests use one or two spellings per function; a default or alias that drifts is invisible as "
     "long as the tests spell the argument out.",
     ["_util.py", "conv_transform.py", "conv_transform_2.py", "conv_transform_3.py",
      "separable_conv_transform.py", "matmul_transform.py", "matmul_transform_2.py",
      "matmul_transform_3.py", "packets.py", "stationary_transform.py",
      "continuous_transform.py", "constants.py"],
     [("argument normalisation", "_util.py:_as_wavelet, _ensure_axes, _get_len"),
      ("aliases", "_util.py:_deprecated_alias")],
     ["results of the differently spelt calls"],
     "differential monitor between spellings of one call",
     "All applicable spellings of each random program are executed and compared.")

prop("C26", "Interrupted calls do not change what later calls return",
     "If an exception or interrupt is raised inside any call - while matrices are built, while a "
     "packet node is computed, while a tree is rebuilt - the caller gets an exception, the "
     "arguments are unchanged, and repeating the call or making other calls on the same object "
     "gives what an object that was never interrupted gives.",
     ["crash_points", "fault_sequences", "histories"],
     "all functions, matrix objects (new, used, used for another shape) and trees; error or "
     "interrupt before or after random torch calls inside the call",
     "No test injects faults; a half-updated cache only shows after one.",
     ["matmul_transform.py", "matmul_transform_2.py", "matmul_transform_3.py", "packets.py",
      "_util.py"],
     [("order of state updates", "matmul_transform.py:MatrixWavedec.__call__"),
      ("lazy nodes", "packets.py:BaseDict, WaveletPacket.__getitem__")],
     ["exception of the faulted call", "results of the calls after it"],
     "fault injection at every torch call with a fresh-object oracle",
     "Injection points are sampled per program (5 quick, 16 thorough).",
     [("stored matrices", "matrices, sizes and paddings of the last shape",
       "matmul_transform.py:MatrixWavedec"),
      ("nodes", "computed packet nodes", "packets.py:WaveletPacket.data")])

prop("C27", "Calls keep nothing alive and state stays bounded",
     "When a call has returned or raised and the caller drops its values, nothing the caller gave "
     "or got stays in memory: input tensors, results, saved tensors of the graph and the wavelet "
     "object are released; results do not hold on to inputs; a matrix object keeps no data of the "
     "calls made with it, a packet tree none of earlier transforms. Repeating calls - with the "
     "same or with alternating shapes, with gradients, with rejected arguments - does not make "
     "the objects, trees or module state grow without bound.",
     ["histories", "inputs"],
     "all transforms, inverses and trees, 12 to 224 repetitions on fresh values, with and without "
     "gradients, on new and on reused objects",
     "Tests check values; memory that is never released only shows in long training runs.",
     ["matmul_transform.py", "matmul_transform_2.py", "matmul_transform_3.py", "packets.py",
      "conv_transform.py", "_util.py", "continuous_transform.py"],
     [("state of the objects", "matmul_transform.py:MatrixWavedec"),
      ("stored transforms of a tree", "packets.py:WaveletPacket._matrix_wavedec_dict")],
     ["liveness of tensors, storages, saved tensors and wavelets after each call",
      "number of live objects, size of object and module state"],
     "weak-reference and growth monitor on repeated calls",
     "Liveness is observed through weak references to the tensors' storages after a garbage "
     "collection.",
     [("storage liveness", "weak references to the memory of inputs and results",
       "observed from outside")])

prop("C28", "Copies and pickles answer like the original and live on their own",
     "A matrix transform object, a packet tree, a coefficient container, a filter tuple or a "
     "learnable wavelet (discrete or continuous) that is "
     "copied (copy.copy, copy.deepcopy, the mapping's copy method) or serialised (pickle in every "
     "protocol, torch.save, state_dict) in any state - new, used, used for another shape, partly expanded - "
     "answers like the original, with the same node set, level, parameters and container types. Later calls, "
     "node edits, transforms, reconstructions and training of one do not show in the other, and a deep copy "
     "or pickle shares no memory with it.",
     ["histories", "inputs", "configurations"],
     "all matrix classes, both packet trees, the results of all analyses and the filter tuples; "
     "eight ways of copying; new, used and re-used states",
     "No test copies anything, but data loaders, checkpoints and module copies do.",
     ["matmul_transform.py", "matmul_transform_2.py", "matmul_transform_3.py", "packets.py",
      "constants.py", "_util.py"],
     [("object state", "matmul_transform.py:MatrixWavedec"),
      ("tree state", "packets.py:WaveletPacket.data"),
      ("tuples", "constants.py:WaveletDetailTuple2d, WaveletTensorTuple")],
     ["answers of original and copy after interleaved use", "node sets of both",
      "container types"],
     "differential monitor between originals and copies",
     "Histories after the copy are one to two rounds long.",
     [("objects", "matrices and node dictionaries that a copy must not share",
       "matmul_transform.py, packets.py")])

prop("C29", "Results do not depend on interpreter and process settings",
     "The same calls in another Python process give the same results, the same order of dictionary "
     "keys, tree nodes and node lists, and the same rejections, whatever the hash seed, -O or -OO, "
     "development mode, warnings turned into errors, number of threads, import order, locale, "
     "working directory, frequency of garbage collection, or if run after a fork, in a thread or "
     "under a profiler. Nothing is printed to stdout, and importing the package changes no "
     "process-wide setting (random states, torch and numpy settings, warning filters, signal "
     "handlers, environment).",
     ["configurations", "inputs"],
     "batches of 32 programs over all transforms, trees, sparse helpers and malformed calls in "
     "13 process settings",
     "The tests run in one interpreter with asserts enabled and one hash seed.",
     ["packets.py", "_util.py", "matmul_transform.py", "matmul_transform_2.py",
      "matmul_transform_3.py", "conv_transform.py", "conv_transform_2.py", "conv_transform_3.py",
      "separable_conv_transform.py", "sparse_math.py", "constants.py", "__init__.py"],
     [("rejections", "packets.py:reconstruct"),
      ("sets and dictionaries", "packets.py:_filter_keys; "
                                "separable_conv_transform.py:_separable_conv_dwtn_"),
      ("import", "__init__.py, constants.py")],
     ["results, key orders and exceptions of two interpreters", "stdout",
      "process settings before and after the import"],
     "differential monitor across interpreters started with different settings",
     "The settings are a fixed list; hash seeds, thread counts and import orders are random.")

prop("C30", "Work and memory grow in proportion to the data and matrices are built once",
     "For a fixed wavelet, mode and level, making one axis of the data four times as long, be it "
     "transformed or not, makes neither the number of operations, nor the sum of the sizes of all "
     "tensors which a call produces, nor the size of its largest tensor grow by more than about a "
     "factor of four (sparse matrices count by their entries; along the transformed axes of the "
     "non-separable two-dimensional matrices nothing is promised). A matrix object called again "
     "with the same shape, dtype and device does not build its matrices again. Access to one node "
     "of a packet tree computes its ancestors and not the whole tree, and a known node is not "
     "computed again.",
     ["inputs", "histories"],
     "pairs of runs of every transform, inverse and tree under a meter of all tensors produced",
     "The tests look at values, a dense matrix or a repeated construction does not show in them.",
     ["conv_transform.py", "conv_transform_2.py", "conv_transform_3.py",
      "separable_conv_transform.py", "stationary_transform.py", "continuous_transform.py",
      "matmul_transform.py", "matmul_transform_2.py", "matmul_transform_3.py", "packets.py",
      "sparse_math.py"],
     [("matrices", "sparse_math.py:batch_mm, construct_strided_conv_matrix"),
      ("stored matrices", "matmul_transform.py:MatrixWavedec.__call__"),
      ("lazy nodes", "packets.py:WaveletPacket.__getitem__, _expand_node")],
     ["every tensor produced by an operation of torch, with its size", "number of operations of "
      "repeated calls and node accesses"],
     "metering of all torch operations on pairs of runs",
     "Growth by a factor of four along one axis; buffers inside of one torch operation are not "
     "seen.",
     [("torch operations", "a dispatch mode sees what each operation returns",
       "torch, observed from outside")])

prop("C31", "The example programs compute what they document",
     "The wavelet layer of examples/network_compression is the documented product S W^-1 G P W B "
     "for every filter bank, even depth and number of scales: its decomposition is that of pywt, "
     "its reconstruction inverts it (known finding: not with two or more scales), P is a permutation, dropout only removes or rescales "
     "diagonal entries, every factor and filter is trained, and outputs follow the trained "
     "filters. Its training program runs in both compression modes (known finding: not without compression) and records the losses and "
     "accuracies of the trained network. The packet pictures of examples/deepfake_analysis are "
     "pywt's frequency ordering for every image size and degree, and the two analysis scripts "
     "show the transforms and frequencies of their chirps.",
     ["inputs", "configurations", "histories"],
     "random banks, depths, scales, diagonals, batches, dtypes and dropout rates, a training step; "
     "random pictures and degrees; the scripts as they are",
     "No test runs the examples.",
     ["examples/network_compression/wavelet_linear.py",
      "examples/network_compression/mnist_compression.py",
      "examples/deepfake_analysis/packet_plot.py", "wavelets_learnable.py", "packets.py"],
     [("layer", "examples/network_compression/wavelet_linear.py:WaveletLayer"),
      ("pictures", "examples/deepfake_analysis/packet_plot.py:generate_frequency_packet_image")],
     ["outputs of the layer and of its parts before and after training", "recorded scalars",
      "arrays handed to matplotlib"],
     "reference-model monitor on the example programs, with recorders for absent packages",
     "torchvision, tensorboard, pystow, tqdm and matplotlib are stand-ins which record the calls.")
