#!/opt/venv/bin/python
"""Write properties.jsonl and MANIFEST.json from the table below."""

import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/ptwt/"
P = []


def place(name):
    return name if name.startswith("examples/") else S + name


def prop(pid, title, statement, over, quant, tests, files, mech, observe, technique, note,
         state=()):
    P.append({
        "id": pid, "title": title, "statement": statement, "over": over, "quant": quant,
        "tests": tests, "files": [place(f) for f in files],
        "mech": [{"name": n, "where": place(w)} for n, w in mech],
        "state": [{"name": n, "meaning": m, "where": S + w} for n, m, w in state],
        "observe": observe, "technique": technique, "note": note,
    })


prop("C01", "wavedec computes pywt's padded 1d transform",
     "wavedec returns, for every wavelet (by name, pywt object or filter tuple), padding mode, "
     "level (also automatic), signal length, axis, batch shape and value, the coefficient list of "
     "pywt.wavedec for the same arguments: same number of entries, same lengths, same order and "
     "same values up to rounding of the dtype. A NaN or an infinity "
     "among the values makes exactly those coefficients non-finite that it does in pywt.",
     ["inputs", "configurations"],
     "all 106 discrete pywt wavelets and arbitrary filter banks, 5 modes, all feasible levels and "
     "lengths, any batch shape, axis, dtype, memory layout and kind of values",
     "The tests compare a few dozen fixed (wavelet, mode, length, level) combinations; the claim "
     "is over all of them, and off-by-one padding only shows at particular parities and lengths.",
     ["conv_transform.py", "_util.py"],
     [("padding, filter orientation, strided convolution", "conv_transform.py:wavedec"),
      ("pad width and mode translation", "_util.py:_get_pad/_fwt_padn")],
     ["return value of ptwt.wavedec"],
     "monitor on every wavedec call against a reference model (pywt)",
     "Every wavedec event of a random workload is compared with pywt's C code.")

prop("C02", "wavedec2 computes pywt's padded 2d transform",
     "wavedec2 returns, for every wavelet, mode, level (also automatic), image size, pair of axes, "
     "batch shape and value, the coefficients of pywt.wavedec2: the approximation followed by "
     "(horizontal, vertical, diagonal) named tuples from coarse to fine, with pywt's shapes and "
     "values up to rounding. A NaN or an infinity "
     "among the values makes exactly those coefficients non-finite that it does in pywt.",
     ["inputs", "configurations"],
     "wavelets as names, objects and tensor tuples, 5 modes, all feasible levels, even, odd and "
     "non-square sizes, axes in any order and sign, any batch shape, dtype and layout",
     "Tests use mostly square images and a handful of wavelets; band order and padding errors "
     "only show on non-square, odd or axis-permuted inputs.",
     ["conv_transform_2.py", "_util.py"],
     [("outer-product filters and band split", "conv_transform_2.py:wavedec2")],
     ["return value of ptwt.wavedec2"],
     "monitor on every wavedec2 call against a reference model (pywt)",
     "Every wavedec2 event of a random workload is compared with pywt's C code.")

prop("C03", "wavedec3 computes pywt's padded 3d transform",
     "wavedec3 returns, for every wavelet, mode, level (also automatic and zero), volume size, "
     "triple of axes, batch shape and value, the coefficients of pywt.wavedecn: the approximation "
     "followed by one dictionary per level with exactly the seven keys aad, ada, add, daa, dad, "
     "dda and ddd, whose letters name the filter of each axis in the order of the axes argument. A NaN or an infinity "
     "among the values makes exactly those coefficients non-finite that it does in pywt.",
     ["inputs", "configurations"],
     "wavelets in all forms, 5 modes, all feasible levels, sizes, axes, batch shapes, dtypes",
     "Tests cover few cubes; key-to-band mix-ups are invisible on symmetric or constant data.",
     ["conv_transform_3.py", "_util.py"],
     [("filter construction and key assignment", "conv_transform_3.py:wavedec3")],
     ["return value of ptwt.wavedec3"],
     "monitor on every wavedec3 call against a reference model (pywt)",
     "Every wavedec3 event of a random workload is compared with pywt's C code.")

prop("C04", "fswavedec2 and fswavedec3 compute the separable transform",
     "fswavedec2 and fswavedec3 return, for every wavelet, mode, level (also automatic), size, "
     "axes, batch shape and value, the coefficients of pywt.wavedecn: the approximation followed "
     "by one dictionary per level with exactly the 3 respectively 7 detail keys, whose letters "
     "name the filter of each axis in the order of the axes argument. A NaN or an infinity "
     "among the values makes exactly those coefficients non-finite that it does in pywt.",
     ["inputs", "configurations"],
     "wavelets in all forms (also tensor tuples with automatic level), 5 modes, all feasible "
     "levels, sizes, axes, batch shapes, dtypes and layouts",
     "The tests compare a few sizes and wavelets; separable recursion over axes has failure modes "
     "in key order, axis order and level choice that only some inputs show.",
     ["separable_conv_transform.py", "_util.py"],
     [("axis recursion", "separable_conv_transform.py:_separable_conv_dwtn_")],
     ["return values of ptwt.fswavedec2 and ptwt.fswavedec3"],
     "monitor on every fswavedec call against a reference model (pywt)",
     "Every fswavedec event of a random workload is compared with pywt's C code.")

prop("C05", "The padded transforms reconstruct their input",
     "For every perfect-reconstruction wavelet, mode, level, size, axes, batch shape and dtype, "
     "applying waverec, waverec2, waverec3, fswaverec2 or fswaverec3 with the same wavelet and "
     "axes to the coefficients of the matching decomposition returns the input, with at most one "
     "extra sample per odd axis, up to rounding and the defect of the tabulated filters.",
     ["inputs", "configurations"],
     "all perfect-reconstruction wavelets (dmey excluded), all five convolution transforms, modes, "
     "levels, sizes, axes, batch shapes, dtypes and layouts",
     "Round trips are tested for fixed shapes and levels; the composition has to hold for all "
     "parities on all levels at once.",
     ["conv_transform.py", "conv_transform_2.py", "conv_transform_3.py",
      "separable_conv_transform.py", "_util.py"],
     [("removal of the padding and of the odd sample", "_util.py:_adjust_padding_at_reconstruction")],
     ["the pair of return values of a decomposition and its reconstruction"],
     "round-trip monitor over recorded decomposition/reconstruction pairs",
     "Round trips of random programs are compared with the input.")

prop("C06", "The reconstructions are pywt's synthesis for arbitrary coefficients",
     "waverec, waverec2, waverec3, fswaverec2 and fswaverec3 return, for arbitrary coefficient "
     "values of a valid structure (edited, thresholded, random, a single non-zero entry, only an "
     "approximation), the result of pywt.waverec, waverec2 and waverecn for the same coefficients, "
     "wavelet and axes. A NaN or an infinity "
     "among the values makes exactly those samples non-finite that it does in pywt.",
     ["inputs", "configurations"],
     "arbitrary coefficients of every valid structure (levels 0 and up, odd and even sizes), "
     "wavelets, axes, batch shapes, dtypes and layouts",
     "The tests only invert untouched coefficients, where errors of analysis and synthesis can "
     "cancel; users edit coefficients (compression, denoising) before synthesis.",
     ["conv_transform.py", "conv_transform_2.py", "conv_transform_3.py",
      "separable_conv_transform.py"],
     [("transposed convolutions", "conv_transform.py:waverec"),
      ("band stacking", "conv_transform_2.py:waverec2, conv_transform_3.py:waverec3")],
     ["return values of the five synthesis functions"],
     "monitor on every synthesis call against a reference model (pywt)",
     "Synthesis events on arbitrary coefficients are compared with pywt.")

prop("C07", "The matrix transforms reconstruct their input",
     "For every orthogonal wavelet, both orthogonalization methods, every level, even or odd size, "
     "axes, batch shape and dtype, MatrixWaverec, MatrixWaverec2 (separable or not) and "
     "MatrixWaverec3 applied to the coefficients of the matching MatrixWavedec object return the "
     "input, followed by at most one extra sample per odd axis.",
     ["inputs", "configurations"],
     "orthogonal wavelets up to 20 taps (qr) or 12-16 taps (gramschmidt), levels (automatic, "
     "natural, too large), all sizes, axes, batch shapes, dtypes, layouts and odd-length paddings",
     "Tests cover a few wavelets and mostly even sizes; odd lengths on inner levels and too large "
     "levels take other code paths.",
     ["matmul_transform.py", "matmul_transform_2.py", "matmul_transform_3.py"],
     [("padding of odd lengths and its removal", "matmul_transform.py:MatrixWavedec, MatrixWaverec")],
     ["the pair of return values of the analysis and synthesis objects"],
     "round-trip monitor over matrix transform objects",
     "Round trips of random programs are compared with the input.")

prop("C08", "The matrix analysis is an orthonormal boundary wavelet transform",
     "For orthogonal wavelets MatrixWavedec, MatrixWavedec2 and MatrixWavedec3 act on even sizes as "
     "an orthonormal matrix whose inner rows are the decomposition filters and whose border rows "
     "are the orthogonalised cut filters (up to sign), deeper levels repeat the single level on "
     "the approximation, and energy is preserved. The published sparse_fwt_operator and "
     "sparse_ifwt_operator equal the calls, and the results are returned under pywt's names and "
     "order of the bands.",
     ["inputs", "configurations"],
     "orthogonal wavelets, both orthogonalizations, sizes, levels and the four matrix classes",
     "Tests check reconstruction and a few inner coefficients; nothing checks the operator itself, "
     "the border rows, energy or the names of bands.",
     ["matmul_transform.py", "matmul_transform_2.py", "matmul_transform_3.py", "sparse_math.py"],
     [("boundary matrices", "matmul_transform.py:_construct_a, construct_boundary_a"),
      ("orthogonalisation", "matmul_transform.py:orthogonalize")],
     ["return values of MatrixWavedec* on unit vectors, sparse_fwt_operator, sparse_ifwt_operator"],
     "operator extraction on the running code against a dense reference model",
     "The operator observed on unit vectors is compared with a dense model built with numpy. Known "
     "finding: separable 2d details carry exchanged horizontal/vertical names.",
     [("fwt_matrix_list", "cached per-level matrices", "matmul_transform.py")])

prop("C09", "Matrix transform objects do not depend on the calls they served before",
     "A MatrixWavedec, MatrixWavedec2, MatrixWavedec3, MatrixWaverec, MatrixWaverec2 or "
     "MatrixWaverec3 object returns for every call what a fresh object with the same arguments "
     "returns, after any sequence of earlier calls with other sizes, levels, dtypes, batch shapes "
     "or coefficient depths, rejected calls, and edits of earlier results.",
     ["histories"],
     "call histories of any length over sizes, dtypes, depths, batch shapes and rejected calls",
     "The tests call each object once or with inputs of equal shape; the caches only matter over "
     "histories.",
     ["matmul_transform.py", "matmul_transform_2.py", "matmul_transform_3.py"],
     [("cache invalidation on size, dtype, device, level change", "matmul_transform.py:__call__")],
     ["return values over histories of one object"],
     "differential history monitor: long-lived object against fresh object",
     "Random call histories; each result compared with a fresh object's.",
     [("fwt_matrix_list, ifwt_matrix_list, input_length, size_list, padded",
       "matrices and sizes of the last construction", "matmul_transform.py, matmul_transform_2.py")])

prop("C10", "1d wavelet packet nodes are their filter path, however reached",
     "WaveletPacket[path] is the input filtered along the path of letters a and d with the chosen "
     "wavelet, mode and axis, independent of which nodes were accessed or initialised before and "
     "in which order, and expanding a node that was assigned by the user uses the assigned value. "
     "Invalid or too long paths are rejected without changing the tree, and transform() replaces "
     "the whole tree.",
     ["histories", "inputs"],
     "random configurations and access/edit/initialize/re-transform histories, all modes incl. "
     "boundary",
     "Tests expand full trees once; lazily expanded, edited and re-used trees are histories that "
     "no fixed test enumerates.",
     ["packets.py"],
     [("lazy expansion", "packets.py:WaveletPacket.__getitem__, _expand_node")],
     ["node values, keys, exceptions of WaveletPacket"],
     "reference-model monitor over tree histories",
     "Each observed node is compared with a model tree driven by the same history.",
     [("data", "dictionary of expanded nodes", "packets.py")])

prop("C11", "2d wavelet packet nodes are their filter path, however reached",
     "WaveletPacket2D[path] is the image filtered along the path of letters a, h, v and d as in "
     "pywt, in separable and non-separable operation, all modes and axes, independent of the order "
     "of accesses, initialisation and node assignments. Invalid or too long paths are rejected "
     "without changing the tree, and transform() replaces the whole tree.",
     ["histories", "inputs"],
     "random configurations and access/edit/initialize/re-transform histories, all modes incl. "
     "boundary, separable and not",
     "Tests expand full trees once on square images; see C10.",
     ["packets.py"],
     [("lazy expansion", "packets.py:WaveletPacket2D.__getitem__, _expand_node")],
     ["node values, keys, exceptions of WaveletPacket2D"],
     "reference-model monitor over tree histories",
     "Each observed node is compared with a model tree. Known finding: separable=True with padding "
     "modes exchanges the labels h and v.",
     [("data", "dictionary of expanded nodes", "packets.py")])

prop("C12", "Packet trees are rebuilt from their leaves",
     "reconstruct() of WaveletPacket and WaveletPacket2D recomputes every inner node from the "
     "deepest level's current node values, so unedited trees give back the input and edited leaves "
     "give pywt's synthesis of the edited values, repeatedly and after re-transforms. Missing "
     "leaves are reported as an error, and leaves themselves stay unchanged.",
     ["histories", "inputs"],
     "histories of initialise, edit and reconstruct over random configurations, all modes incl. "
     "boundary, odd sizes, 1d and 2d, separable and not",
     "Tests reconstruct untouched trees of a few sizes.",
     ["packets.py"],
     [("bottom-up merge and size correction", "packets.py:reconstruct")],
     ["node values after reconstruct"],
     "reference-model monitor over tree histories",
     "Each node after a reconstruct is compared with a model tree. Known finding: see C11.",
     [("data", "dictionary of expanded nodes", "packets.py")])

prop("C13", "Packet orderings list every path once, in natural or frequency order",
     "get_level returns for every level all node paths exactly once, in lexicographic order for "
     "'natural' and ordered by the centre frequency of the bands (Gray code, per axis in 2d) for "
     "'freq', as pywt does; other orders are rejected. The node at position k of the frequency "
     "order holds the k-th frequency band of the signal for every mode and input.",
     ["inputs", "configurations"],
     "levels 0-10 (1d) and 0-5 (2d), all modes; Haar sequencies and random tones in random bands",
     "Tests compare two levels of labels with pywt; nothing checks that labels match the actual "
     "spectral content.",
     ["packets.py"],
     [("Gray code order", "packets.py:get_level, get_freq_order")],
     ["get_level lists; node energies for tones; sign changes of Haar packets"],
     "trace monitor on orderings and node energies against a spectral oracle",
     "Orderings exhaustively to level 10 / 5; spectral content on random tones.")

prop("C14", "swt and iswt are pywt's stationary transform and its inverse",
     "For every wavelet, level, axis, batch shape and length that is a multiple of 2^level, swt "
     "returns the coefficients of pywt.swt (trimmed approximation, norm off), iswt inverts it and "
     "equals pywt.iswt on arbitrary coefficients, and swt commutes with circular shifts. A NaN or an infinity "
     "among the values makes exactly those coefficients non-finite that it does in pywt.swt.",
     ["inputs", "configurations"],
     "all wavelets and arbitrary filters, lengths (also shorter than the filter), levels, axes, "
     "batch shapes, dtypes and layouts",
     "Tests cover three sizes and a few wavelets.",
     ["stationary_transform.py", "_util.py"],
     [("dilated circular convolution", "stationary_transform.py:swt, iswt")],
     ["return values of ptwt.swt and ptwt.iswt"],
     "reference-model and metamorphic monitors on swt/iswt calls",
     "Every event compared with pywt, plus inverse and shift relations.")

prop("C15", "cwt computes pywt's continuous transform and frequencies",
     "cwt returns, for every continuous wavelet (name, pywt object or differentiable object), "
     "scales given as array, tensor or scalar, sampling period, precision, axis-last signal shape "
     "and dtype, the coefficients (scale axis first, complex exactly for complex wavelets) and "
     "frequencies of pywt.cwt; scales too small for a single sample are rejected.",
     ["inputs", "configurations"],
     "all continuous wavelet families, orthogonal discrete wavelets, differentiable Shannon and "
     "Morlet wavelets, random scales, periods, precisions, shapes",
     "Tests use a few scale ranges and families.",
     ["continuous_transform.py"],
     [("resampling of the integrated wavelet", "continuous_transform.py:cwt"),
      ("differentiable wavelets", "continuous_transform.py:_ShannonWavelet, "
                                  "_ComplexMorletWavelet")],
     ["return value of ptwt.cwt"],
     "reference-model monitor on cwt calls (direct convolution and pywt)",
     "Every cwt event is compared with pywt and with a direct model.")

prop("C16", "Axes and batch dimensions only select; batch elements never mix",
     "For every transform, inverse and packet tree, transforming along chosen axes (positive or "
     "negative, any order) equals moving these axes to the end, transforming, and moving back. "
     "Each batch element's result depends on that element only (also when other elements hold NaN "
     "or infinity) and does not change when batch dimensions are folded, split or permuted; an "
     "empty batch gives the same containers with an empty dimension.",
     ["inputs", "configurations"],
     "23 transforms and inverses with random axes and 0-5 batch dimensions, also empty ones",
     "Tests use a few axes and batch shapes; leaks between batch elements are invisible when only "
     "shapes or single samples are compared.",
     ["_util.py", "conv_transform.py", "conv_transform_2.py", "conv_transform_3.py",
      "separable_conv_transform.py", "matmul_transform.py", "matmul_transform_2.py",
      "matmul_transform_3.py", "packets.py", "stationary_transform.py", "continuous_transform.py"],
     [("folding and axis swaps", "_util.py:_preprocess_tensor, _postprocess_coeffs, _fold_axes")],
     ["return values of related calls"],
     "metamorphic relation monitor with poisoned batch elements",
     "Relations between observed calls, incl. NaN/Inf isolation.")

prop("C17", "Calls leave arguments, earlier results and global state alone",
     "No transform, inverse or packet operation modifies its arguments (tensors, coefficient "
     "containers, wavelet objects), results of earlier calls, or global random and torch state. "
     "Equal calls give bitwise equal results, and writing into a returned coefficient changes "
     "neither later results nor, if a level was transformed, the input.",
     ["histories", "inputs"],
     "all transforms, inverses and packets, fresh and reused objects, random inputs",
     "Tests never look at the arguments after a call.",
     ["conv_transform.py", "conv_transform_2.py", "conv_transform_3.py",
      "separable_conv_transform.py", "matmul_transform.py", "matmul_transform_2.py",
      "matmul_transform_3.py", "packets.py", "stationary_transform.py", "continuous_transform.py",
      "_util.py"],
     [("copies of caller-owned containers", "separable_conv_transform.py, matmul_transform_3.py")],
     ["version counters, values, containers and global state around each call"],
     "snapshot monitor around every call",
     "State snapshots before and after each call of a random workload.")

prop("C18", "Transforms are linear and their gradients are exact",
     "Every transform and inverse is linear in its data, and automatic differentiation through it "
     "gives the exact transposed map with respect to the data or every single coefficient. "
     "Gradients with respect to filter tensors and to the parameters of the differentiable "
     "continuous wavelets are correct.",
     ["inputs", "configurations"],
     "all transforms and inverses, random data, cotangents, filters and parameters in float64",
     "Tests check that gradients exist in single cases, not that they are right.",
     ["conv_transform.py", "conv_transform_2.py", "conv_transform_3.py",
      "separable_conv_transform.py", "matmul_transform.py", "matmul_transform_2.py",
      "matmul_transform_3.py", "packets.py", "stationary_transform.py", "continuous_transform.py",
      "_util.py"],
     [("torch ops only, no detach", "conv_transform.py etc."),
      ("filters kept as tensors", "_util.py:_get_filter_tensors")],
     ["gradients recorded by autograd"],
     "adjoint-identity monitor and finite differences on recorded calls",
     "Inner-product identities on random programs; finite differences for filters.")

prop("C19", "Results keep dtype and device and depend on the values only",
     "Every transform and inverse (except cwt, for dtype) returns all tensors in the dtype of its "
     "input and creates no intermediate tensors on another device than the input's. float32 and "
     "float64 calls agree up to rounding, and memory layout, torch's default dtype, requires_grad "
     "and the dtype of filter tensors do not influence the result.",
     ["inputs", "configurations"],
     "all transforms and inverses, both dtypes, several layouts, default dtypes, a virtual "
     "accelerator device",
     "The test machines have no accelerator and tests never change the default dtype or layout.",
     ["_util.py", "conv_transform.py", "conv_transform_2.py", "conv_transform_3.py",
      "separable_conv_transform.py", "matmul_transform.py", "matmul_transform_2.py",
      "matmul_transform_3.py", "packets.py", "stationary_transform.py", "sparse_math.py",
      "continuous_transform.py"],
     [("dtype and device arguments of created tensors", "_util.py:_get_filter_tensors, "
       "matmul_transform.py, sparse_math.py")],
     ["dtype and bookkept device of every tensor of every torch call"],
     "dtype/device sanitizer: virtual accelerator over every torch call",
     "A torch function mode tags tensors with a virtual device and reports every mix.")

prop("C20", "Malformed calls are rejected and do no damage",
     "Calls with an unsupported dtype, too few dimensions, wrong or repeated axes, unknown mode, "
     "wavelet, orthogonalization or order, filters of different lengths, an invalid level, or a coefficient container with a "
     "wrong type, count, key set, shape, dtype or device are answered with an exception, never "
     "with a result. Afterwards the arguments are unchanged and an object used in the call still "
     "works as a fresh one.",
     ["inputs", "fault_sequences"],
     "random valid calls of all transforms made invalid in one of 26 ways",
     "Tests check a few dozen malformed calls, always with the same shape and on fresh objects.",
     ["_util.py", "conv_transform.py", "conv_transform_2.py", "conv_transform_3.py",
      "separable_conv_transform.py", "matmul_transform.py", "matmul_transform_2.py",
      "matmul_transform_3.py", "packets.py", "stationary_transform.py"],
     [("argument validation", "_util.py:_preprocess_tensor, _check_same_device_dtype, "
                              "_check_axes_argument")],
     ["exception or result of each malformed call"],
     "fault injection at the API boundary with a rejection monitor",
     "Only the defects listed in mon/props/c20.py are injected.")

prop("C21", "Sparse helpers equal dense linear algebra and convolution",
     "sparse_kron, cat_sparse_identity_matrix, sparse_diag, sparse_replace_row, the construct_* "
     "convolution matrices, batch_mm, orthogonalize and construct_boundary_* return valid sparse "
     "tensors that equal their dense definitions for every size, filter, stride and mode, keep the "
     "dtype, and reject unknown modes. The boundary matrices are orthonormal and the synthesis "
     "matrix inverts the analysis matrix.",
     ["inputs", "configurations"],
     "random sparse matrices (empty, uncoalesced, rectangular), filters, sizes, modes, strides; "
     "some with 2^16 to 2^24 rows and products beyond 2^31",
     "Tests compare a few sizes with scipy.",
     ["sparse_math.py", "matmul_transform.py", "matmul_transform_2.py"],
     [("index arithmetic", "sparse_math.py")],
     ["return values, with torch's sparse invariant checker enabled"],
     "reference-model monitor plus torch's sparse tensor invariant sanitizer",
     "Random calls compared with dense numpy/scipy code under the sparse invariant checker.")

EXTRA = os.path.join(ROOT, "tools", "meta_extra.py")
if os.path.exists(EXTRA):
    exec(compile(open(EXTRA).read(), EXTRA, "exec"))

NOT_APPLICABLE = []


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            anchors = {"files": p["files"], "mechanism": p["mech"], "observe_at": p["observe"],
                       "hook_needed": None}
            if p["state"]:
                anchors["state"] = p["state"]
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["quant"]},
                "why_tests_cant": p["tests"], "anchors": anchors}) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "true",
        "checks": [{
            "property": p["id"],
            "quick_cmd": f"./run.py {p['id']} quick",
            "thorough_cmd": f"./run.py {p['id']} thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": "runtime monitoring: " + p["technique"],
            "level": "exploration",
            "level_note": p["note"] + " Held on the executions observed, not proved; the counts "
                          "and samples are in the evidence file.",
        } for p in P],
        "not_applicable": NOT_APPLICABLE,
        "notes": "Pure Python on torch: the monitors run the code from /repo/src on CPU in 8 "
                 "processes; nothing is built and no hook in /repo is needed.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


def design():
    """Fill the tables of DESIGN.md."""
    import ast

    rows = []
    for p in P:
        src = open(os.path.join(ROOT, "mon", "props", p["id"].lower() + ".py")).read()
        meta = {}
        for node in ast.parse(src).body:
            if isinstance(node, ast.Assign) and node.targets[0].id in ("COUNT", "RULE"):
                meta[node.targets[0].id] = ast.literal_eval(node.value)
        rows.append(f"| {p['id']} | {p['technique']} | {meta['RULE']} | "
                    f"{meta['COUNT']['quick']} / {meta['COUNT']['thorough']} |")
    seeded = []
    path = os.path.join(ROOT, "tools", "seeded_results.json")
    res = json.load(open(path)) if os.path.exists(path) else {}
    for sid in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
        with open(os.path.join(ROOT, "seeded", sid, "meta.json")) as f:
            m = json.load(f)
        seeded.append(f"| {sid} | {m['property']} | {m['what_it_breaks']} | "
                      f"{', '.join(res.get(sid, [])) or 'not run'} |")
    head = "| bug | property | what it breaks | caught by |\n|---|---|---|---|\n"
    with open(os.path.join(ROOT, "tools", "DESIGN.in.md")) as f:
        text = f.read()
    text = text.replace("@@TABLE@@", "\n".join(rows))
    text = text.replace("@@SEEDED@@", head + "\n".join(seeded))
    with open(os.path.join(ROOT, "DESIGN.md"), "w") as f:
        f.write(text)


if __name__ == "__main__":
    main()
    design()
