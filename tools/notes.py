# property -> (technique, level note)
TV = "TLC model checking + trace validation of the real code"
def note(i, tech, text):
    NOTE[i] = (tech, text)
note("C01", "TLA+ cell-construction spec (Cell.tla), TLC exhaustive + trace validation of real tessellations",
 "Clipping is model-checked against the definition of a Voronoi face on all small lattice configurations; "
 "every row recorded from the real code (int/long, float/double, many shapes of point sets, k, grids) must be "
 "the face set of a behaviour of the same spec, computed exactly in integers. Trusts TLC and that lattice "
 "inputs are representative; cells exact arithmetic finds degenerate are not judged.")
note("C02", "TLA+ cell spec with the certification rule (Cell.tla CertFinal), " + TV + " (CellTrace, FinalTrace)",
 "That a certified cell is final is model-checked on all small lattices; recorded calls must report exactly the "
 "number of cells the spec leaves uncertified, and rows counted as complete must equal the rows for all points.")
note("C03", "TLA+ orchestration spec (Tessellate.tla: rounds, growth, termination), " + TV + " (CellTrace, TessTrace, FinalTrace)",
 "Termination and completeness of the recompute loop model-checked for small sets, capacities and limits; recorded "
 "recompute calls must give the spec's complete rows and report, and keep rows that were complete.")
note("C04", "TLA+ orchestration spec (Tessellate.tla chunks), " + TV + " (MemoTrace, TessTrace)",
 "All chunk sizes for small n in the model; recorded calls that differ in chunking only must agree row by row and "
 "in the report, and their events must be a behaviour of the model.")
note("C05", "TLA+ worker/slot ownership spec (Tessellate.tla), " + TV + " (MemoTrace, TessTrace), race reports as events",
 "All interleavings of few workers in the model; the real code runs under perturbed schedules (yield points at the "
 "hooks) and ThreadSanitizer, whose reports are events no behaviour of the spec contains.")
note("C06", "TLA+ grid search spec (Knn.tla: shells and stopping rule), " + TV + " (KnnTrace, MemoTrace)",
 "Stopping rule model-checked on all small grids and positions; candidate lists recorded from the real search must "
 "be the k nearest in order, for every resolution drawn.")
note("C07", "TLA+ sorting spec (SortGrid.tla), " + TV + " (SortTrace)",
 "Radix passes model-checked for all small inputs; recorded results (order, ids, offset table) must be the spec's, "
 "with cells bounded by rational arithmetic, not the code's formula.")
note("C08", "TLA+ jagged-array spec (Jagged.tla), " + TV + " (JaggedTrace)",
 "All small arrays model-checked; recorded rows, element access, sizes, printed text and saved files must agree.")
note("C09", "TLA+ parameter-store spec (Params.tla), " + TV + " (ParamsTrace)",
 "Histories enumerated by the model (assign, read, copy, failed access, call) replayed on the real parameter set "
 "for every arithmetic type; each recorded history must be a behaviour of the store.")
note("C10", "TLA+ cell spec with capacities (MCCell_caps), " + TV + " (CellTrace, CallTrace), sanitizer reports as events",
 "Capacity handling model-checked on small lattices; recorded reports must count exactly the spec's overflows and "
 "leave all other rows as specified; address/UB sanitizer aborts are events the spec does not have.")
note("C11", "TLA+ device spec (Device.tla: interleaved addressing, work items), " + TV + " (MemoTrace, CellTrace, CallTrace)",
 "All orders of few work items in the model; the real kernels run on a host stand-in for a SYCL device that permutes "
 "work items and records conflicting, foreign and out-of-range accesses. Trusts the stand-in (no GPU here).")
note("C12", "TLA+ stream-state spec (Stdout.tla), " + TV + " (StdoutTrace)",
 "Histories of calls (suppressed or not, failing, own buffers) enumerated by the model and replayed.")
note("C13", "TLA+ command-line spec (Cli.tla), " + TV + " (CliTrace)",
 "Option sequences enumerated by the model and random files are run through the real main(); parameters reaching "
 "the library, text, exit status and error output must be the spec's.")
note("C14", "TLA+ object-lifetime spec (PyLife.tla), " + TV + " (PyTrace)",
 "Histories of creation, indexing and destruction enumerated by the model are run in the real module; results must "
 "equal the C++ library's and rows stay valid while held.")
note("C15", "TLA+ orchestration spec (Tessellate.tla), " + TV + " (MemoTrace over histories of calls)",
 "Histories of calls in one process with permuted inputs; rows in terms of coordinates must agree.")
note("C16", "TLA+ hole-stitching spec (Boundary.tla), TLC-generated discs replayed + " + TV + " (BoundaryTrace)",
 "Every triangulated disc up to a bound and every absorption order model-checked; the discs printed by TLC and larger "
 "ones are replayed in the real function in many orders, slots and layouts.")
note("C17", "TLA+ heap spec (Heap.tla), TLC-generated histories replayed + " + TV + " (HeapTrace)",
 "All short value sequences model-checked; recorded array states after each operation must be the spec's, for each "
 "layout, stride and segment position.")
note("C18", "TLA+ call envelope (CallTrace) over the cell and orchestration specs, " + TV + ", sanitizer reports as events",
 "Degenerate sets (lines, planes, lattices, spheres, coincident points, ends of the interval) and all parameters; "
 "every recorded call must be one of the spec's, also under address/UB sanitizers and library assertions.")
