#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that it stays well formed)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))

prop("C01", "Each row is exactly the set of Voronoi face neighbours",
 "For points in general position in the open unit cube and a given k, the row of a point lists, each exactly once and never the point itself, precisely those of its k nearest points that own a face of the cell cut out of the unit cube by the k bisectors. With k = n-1 (or more) this is exactly the set of points whose Voronoi cell shares a face with it inside the cube, for every integer and floating-point type the template accepts.",
 ["inputs", "configurations"], "every point set in general position, every k, grid resolution, every instantiation (int/long, float/double)",
 "The tests only check std::includes(row, voro++ neighbours) on four datasets, so extra or duplicated neighbours and every other input are invisible to them.",
 ["src/votess.ipp", "src/cc.ipp", "src/knn.ipp", "src/planes.ipp", "src/boundary.ipp", "src/sradius.ipp"],
 [("bisector clipping", "src/cc.ipp cci::compute"), ("plane arithmetic", "src/planes.ipp"), ("row filtering and compaction", "src/cc.ipp end of cci::compute"), ("row packing", "src/votess.ipp tmpnn_fill, tmpnn_getdnn")],
 [("T", "vertices of the current cell as triples of planes", "src/cc.ipp"), ("P", "planes bounding the cell", "src/cc.ipp"), ("knn/dknn", "candidate neighbours and the plane each one produced", "src/cc.ipp")],
 ["returned dnn rows", "the reordered caller's point array"])

prop("C02", "A cell certified by the security radius is final, and the report counts it",
 "A cell that the library counts as complete (security radius reached) has the same neighbours it would have with every other point taken into account. The number of cells the status report gives as not reaching the security radius is exactly the number of cells for which none of the k nearest points, taken in order of distance, lies farther away than twice the distance of the farthest vertex the cell has at that moment (before that point's own cut); cells whose capacity ran out are unfinished and count too; so a report of zero failures means every row is the true Voronoi row.",
 ["inputs", "configurations"], "every point set, every k, including cells on the cube's boundary and cells that are certified at the last neighbour",
 "No test reads the report or the state of a cell, and the rows of the datasets are compared as supersets for a k that is large enough.",
 ["src/sradius.ipp", "src/cc.ipp", "src/votess.ipp", "src/status.ipp"],
 [("sr::update / sr::is_reached", "src/sradius.ipp"), ("loop exit on certification", "src/cc.ipp"), ("status summary", "src/votess.ipp tesellate")],
 [("states[i]", "per-point flags, bit security_radius_reached", "src/status.ipp")],
 ["status report on stdout (dev_suppress_stdout=false)", "rows"])

prop("C03", "Recompute makes every cell complete, and terminates",
 "With use_recompute enabled every row is the true Voronoi row of its point, whatever the initial k and working capacities were (as long as the final cells fit the hard limits of the data types), rows that were already complete are unchanged, and the call terminates. The status report printed after a recompute describes the cells as they are returned: no overflow is counted, and only those cells count as not reaching the security radius that even all other points cannot certify.",
 ["inputs", "configurations", "histories"], "every point set, every initial k >= 1, initial capacities, thread count and chunking, on CPU and GPU first pass",
 "Only a few regression tests switch recompute on, for k and capacities that already suffice, and compare supersets.",
 ["src/votess.ipp"],
 [("__cpu__recompute loop", "src/votess.ipp"), ("doubling of k, p and t capacities", "src/votess.ipp"), ("re-filling of rows by index", "src/votess.ipp tmpnn_fill")],
 [("indices", "points still incomplete", "src/votess.ipp __cpu__recompute"), ("states", "flags that drive the loop", "src/votess.ipp")],
 ["rows", "status report", "termination"], "VOTESS_TRACE round/cell events (optional)")

prop("C04", "Chunking never changes the result",
 "For a given point set and parameters, every value of use_chunking and chunksize (one, larger than the set, dividing it or not, zero or negative) gives the same reordered points, rows and status report as no chunking.",
 ["configurations", "inputs"], "every n and chunk size, in combination with any thread count and with recompute",
 "The tests use a handful of chunk sizes and compare supersets, so a chunk that is skipped into raw candidates or attributed to another point's slot passes.",
 ["src/votess.ipp"],
 [("chunk bounds _cstart/_cend, nruns", "src/votess.ipp __cpu__tesellate, __gpu__tesellate"), ("re-initialisation of heaps per chunk", "src/votess.ipp"), ("tmpnn_fill by global index", "src/votess.ipp")],
 [("indices", "global index of each slot of the chunk", "src/votess.ipp")],
 ["rows", "status report"], "VOTESS_TRACE round events (optional)")

prop("C05", "Thread count and scheduling never change the result; no data races",
 "For every thread count (including more threads than points and the hardware default) and every interleaving of the workers the result is the same as with one thread, and no two workers access the same memory without ordering when one of them writes.",
 ["schedules", "configurations", "inputs"], "every thread count, every interleaving of workers, first pass and recompute rounds",
 "Tests run one schedule each; a lost update or a slot shared by two workers appears only under some interleavings.",
 ["src/votess.ipp", "src/cc.ipp", "src/knn.ipp", "src/heap.ipp"],
 [("partition of slots among threads", "src/votess.ipp _tstart/_tend"), ("per-slot segments of heap, P, T, dR, knn, dknn, states", "src/cc.ipp, src/knn.ipp")],
 [("heap_id, heap_pq, P, T, dR, dknn, states", "shared arrays, one segment per slot", "src/votess.ipp")],
 ["rows under perturbed schedules", "ThreadSanitizer events"], "VOTESS_TRACE worker events used as yield points")

prop("C06", "k-nearest search is exact for every grid resolution",
 "The candidates considered for a point are its k nearest other points in non-decreasing distance (any choice among equal distances), for every grid resolution from one cell to far more cells than points, every position of the point in the grid and every distribution of points. Hence the result of a tessellation, up to the relabelling given by the reordered points, does not depend on the grid resolution.",
 ["inputs", "configurations"], "every point set, k, grid resolution and query position (corner, edge, face, interior cells, empty shells)",
 "The tests never inspect the candidate list; a search that stops one shell early only loses neighbours for particular positions and resolutions.",
 ["src/knn.ipp", "src/heap.ipp", "src/xyzset.ipp"],
 [("shell enumeration", "src/knn.ipp knni::compute, is_inshell"), ("stopping rule", "src/knn.ipp heap_pq[h0] < square(gl*r+min)"), ("bounded max-heap", "src/heap.ipp")],
 [("heap_id/heap_pq", "best k candidates so far", "src/knn.ipp"), ("offset", "grid cell to point range", "src/xyzset.ipp")],
 ["candidate list of the search", "rows"])

prop("C07", "Spatial sort permutes the points into grid order with exact ranges",
 "Sorting rearranges the caller's points without losing, duplicating or altering any; afterwards the points are in non-decreasing order of the grid cell that contains them, the cell ids returned are those of the points, and the offset table gives for each of the grid_resolution^3 cells exactly the range of its points. This holds for every point in the open unit cube, including coordinates arbitrarily near 0 and 1, and every grid resolution, including ids of several bytes.",
 ["inputs", "configurations"], "every point set, element type and grid resolution",
 "The tests validate a few random sets of moderate resolution with a checker that repeats the same formula, never looking at the offset table.",
 ["src/xyzset.ipp", "include/xyzset.hpp"],
 [("cell id computation", "src/xyzset.ipp sort"), ("LSD radix passes", "src/xyzset.ipp sort"), ("prefix sums", "src/xyzset.ipp sort")],
 [("id, offset", "cell of each sorted point and start of each cell", "src/xyzset.ipp")],
 ["return value of the sort", "the caller's array"])

prop("C08", "The result is a well-formed jagged array and its text forms are faithful",
 "The returned container has one row per point, its rows partition the neighbour list in order, element access and row sizes agree with the stored list and offsets (also for empty rows and an empty container), and printing or saving it as text writes one line per row, in order, with exactly the row's entries.",
 ["inputs", "histories"], "every jagged array (any row lengths, including empty first, middle and last rows) and every tessellation result",
 "No test calls print or savetxt; only index access on non-empty rows is exercised.",
 ["src/dnn.ipp", "src/votess.ipp"],
 [("offset prefix sums", "src/votess.ipp tmpnn_getdnn"), ("proxy indexing and size", "src/dnn.ipp"), ("print / savetxt", "src/dnn.ipp")],
 [("list, offs", "flattened rows and row starts", "src/dnn.ipp")],
 ["rows via operator[]", "printed text", "saved file"])

prop("C09", "Parameters read back what was written and reach the computation unchanged",
 "A parameter set starts with the documented defaults, reading a key returns the value last assigned to it - exactly in the type it was assigned in, and whole numbers exactly in any arithmetic type that can represent them (finite values; character types aside) -, assigning one key changes no other, an unknown key raises an error and adds nothing, copies are independent, and a tessellation never modifies the caller's parameter set.",
 ["histories", "inputs"], "every sequence of assignments, reads, copies, failed accesses and calls, over all keys and arithmetic types",
 "The tests assign and read a handful of values once each.",
 ["include/arguments.hpp", "src/votess.ipp"],
 [("string conversion in vtargref", "include/arguments.hpp"), ("key lookup", "include/arguments.hpp vtargs::operator[]"), ("by-value argument", "include/votess.hpp")],
 [("map", "key to textual value", "include/arguments.hpp")],
 ["values read back", "exceptions", "get_xyzset/get_knn/get_cc"])

prop("C10", "Capacity overflow is reported and confined to the cell concerned",
 "When a cell needs more planes or vertices than the configured capacity the report counts exactly the cells concerned (no more, no fewer) as plane or vertex overflow, nothing outside that cell's own working storage is touched, and every other row and count is what it would be with ample capacity. The row of a cell that overflowed still contains only distinct valid indices of other points.",
 ["inputs", "configurations"], "every point set and every capacity of at least the initial cube (6 planes, 8 vertices), up to beyond the range of a byte, on CPU and GPU",
 "No test sets a small or a very large capacity together with a check of the other rows or of the report.",
 ["src/cc.ipp", "src/boundary.ipp", "src/votess.ipp"],
 [("capacity guards", "src/cc.ipp p_size >= p_maxsize, t_size >= t_maxsize"), ("segment strides", "src/cc.ipp"), ("status summary", "src/votess.ipp")],
 [("P, T, dR", "per-slot segments of the given capacity", "src/cc.ipp")],
 ["status report", "rows", "address sanitizer"])

prop("C11", "The GPU path gives the CPU result for every work size and chunking",
 "Running on the GPU device yields, for every work-group size, chunk size, k, capacity and order in which work items execute, the same rows and status report as the CPU, with no work item touching memory of another or reading memory nobody wrote, and falls back to the CPU when no GPU is present.",
 ["schedules", "inputs", "configurations"], "every order of work items, every gpu_ndsize, chunking and parameters",
 "There is no GPU in the test environment: the tests that ask for one silently run the CPU fallback, so the kernels are compiled but never executed.",
 ["src/votess.ipp", "src/cc.ipp", "src/knn.ipp", "src/heap.ipp", "src/boundary.ipp"],
 [("buffers, accessors and nd_range", "src/votess.ipp __gpu__tesellate"), ("interleaved addressing", "src/knn.ipp, src/cc.ipp, src/heap.ipp SYCL variants")],
 [("bheap_id, bheap_pq, bP, bT, bstates, bdknn", "device buffers shared by all work items", "src/votess.ipp")],
 ["rows", "status report", "accesses recorded by the device stand-in"])

prop("C12", "Standard output is silent when asked and always restored",
 "With output suppression on (the default) a tessellation writes nothing to standard output, and after every call - successful, failing with an exception, first or repeated, suppressed or not, with whatever stream buffer the caller has installed - the caller's output stream is the one it had before - buffer, format and error state - and works as before. With suppression off the progress and the report do appear.",
 ["histories", "fault_sequences"], "every sequence of calls with suppression on or off, caller-installed stream buffers, and exceptions thrown inside the call",
 "No test captures the output or makes a call fail.",
 ["src/votess.ipp"],
 [("suppress::stdout guard object", "src/votess.ipp"), ("dev_suppress_stdout", "include/arguments.hpp")],
 [("std::cout.rdbuf()", "the stream buffer in use", "src/votess.ipp")],
 ["captured stdout", "std::cout.rdbuf() before and after"])

prop("C13", "The command line maps options and files to the library faithfully",
 "clvotess prints, for any point file and any combination and order of its documented file, device and parameter options, short and long, exactly the rows the library returns for those points and parameters, in the library's text form on standard output and with exit status 0. A missing or unreadable input file, or one with a malformed line, gives an error message on standard error, no rows and a non-zero exit status.",
 ["inputs", "programs", "configurations"], "every option sequence (short, long, repeated), every point file",
 "No test runs the executable.",
 ["src/main.cpp"],
 [("getopt table and switch", "src/main.cpp parse_args"), ("file reading", "src/main.cpp main"), ("dnn.print", "src/dnn.ipp")],
 [("vtargs, infile, device", "parsed options", "src/main.cpp")],
 ["stdout, stderr and exit status of clvotess"])

prop("C14", "The Python module gives the library's results with safe lifetimes",
 "pyvotess.tesellate returns for every point array, parameter set and device the rows the C++ library returns for the same points, parameter assignments of Python ints, bools and floats mean the same as in C++, parameters can be read back, wrong keys, wrong value types and indices out of range raise a Python exception, and a row obtained from a result stays valid for as long as the row object is held.",
 ["inputs", "histories"], "every point array, parameter assignment and order of object destruction",
 "No test imports the module.",
 ["src/pybind11/pyvotess.cpp"],
 [("type dispatch in __setitem__", "src/pybind11/pyvotess.cpp"), ("return value policies", "src/pybind11/pyvotess.cpp"), ("tesellate wrapper", "src/pybind11/pyvotess.cpp")],
 [("Proxy", "row object that refers to its container", "src/pybind11/pyvotess.cpp")],
 ["Python-level results and exceptions"])

prop("C15", "The result depends only on the set of points, not on order or call history",
 "After a call the caller's array is a permutation of the points passed in and row i describes the point now at position i; in terms of coordinates, the neighbour relation is the same for every order in which the same points are supplied, and for every earlier call made in the same process (other sizes, parameters, devices, failed calls, a result of which is still held).",
 ["inputs", "histories"], "every permutation of the input, every sequence of preceding calls",
 "Tests call each dataset once in a fresh order.",
 ["src/votess.ipp", "src/xyzset.ipp", "src/cc.ipp"],
 [("in-place sort", "src/xyzset.ipp"), ("locally allocated working storage", "src/votess.ipp"), ("state reset", "src/votess.ipp")],
 [("states, tmpnn", "created per call", "src/votess.ipp tesellate")],
 ["rows and reordered points"])

prop("C16", "Hole stitching returns the boundary cycle, whatever the triangle order",
 "When the vertices (triangles of planes) cut off by a bisector form a disc, the hole-closing step returns, for every order of those triangles, the single closed cycle of planes around the disc in its orientation and nothing else, within the storage given to it; when they do not form a disc it terminates and reports failure or a closed cycle, never looping forever.",
 ["inputs", "schedules"], "every triangulated disc, every order of its triangles and rotation of each triangle, in any slot of shared storage, for every capacity up to the limit of the index type",
 "Tests check a fixed list of small discs in one storage slot.",
 ["src/boundary.ipp"],
 [("edge matching and insertion", "src/boundary.ipp boundary::compute"), ("retry by swapping", "src/boundary.ipp"), ("duplicate-successor rejection", "src/boundary.ipp")],
 [("cycle", "successor of each plane on the boundary", "src/boundary.ipp")],
 ["resulting cycle, head and status"])

prop("C17", "The bounded heap keeps the k smallest and sorts them, in its own segment",
 "For every sequence of insertions into a heap segment by replacing its root when the new value is smaller, the segment holds the k smallest values seen (with their ids), sorting yields them in non-decreasing order as the same pairs, and no element outside the segment changes, for every layout (contiguous or interleaved) and segment position.",
 ["inputs", "histories"], "every value sequence (with ties and infinities), k, segment position and stride",
 "The tests sort a few fixed arrays in a segment that starts at zero.",
 ["src/heap.ipp", "include/heap.hpp"],
 [("maxheapify", "src/heap.ipp"), ("sort", "src/heap.ipp"), ("swap", "src/heap.ipp")],
 [("heap_id/heap_pq", "parallel arrays", "src/heap.ipp")],
 ["arrays after each operation"])

prop("C18", "Every valid call returns a well-formed result, degenerate inputs included",
 "For every set of points in the open unit cube - empty, one or two points, coincident points, points on a line, plane, lattice or sphere - and every valid parameter (any k including 1, n and more than n, any grid resolution, chunking, threads, recompute) the call returns without crashing, hanging or touching memory out of bounds, the array is a permutation of the input and each row contains only distinct indices of other points, at most k and at most n-1 of them.",
 ["inputs", "configurations"], "every point set in the open cube and every valid parameter combination",
 "The tests use random sets in general position and three fixed configurations.",
 ["src/votess.ipp", "src/cc.ipp", "src/knn.ipp", "src/boundary.ipp"],
 [("early returns on errors", "src/cc.ipp"), ("retry counters", "src/boundary.ipp"), ("heap padding", "src/votess.ipp")],
 [("states", "error flags", "src/status.ipp")],
 ["termination, exit, sanitizer events, rows"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
