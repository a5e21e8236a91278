#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
      "quantifier": {"over": over, "text": " ".join(qtext.split())},
      "why_tests_cant": " ".join(why.split()),
      "anchors": {"files": files,
                  "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                  "observe_at": list(observe), "hook_needed": hook}})
K = "src/kernel/lib/"
C = "src/compiler/lib/"

prop("C01", "Tiled execution computes the equations point by point",
 """Running a solution over any range of steps stores in every point of every variable exactly what
 evaluating the declared equations once per point and step would store, and changes nothing else.
 This holds for every domain size, every nesting of tile sizes down to the innermost vector loop, every number
 of steps advanced per tile (temporal tiling), either step direction, and for a run split over several calls.""",
 ["inputs", "configurations"],
 """all domain sizes in a range around the vector length and tile sizes x all tile sizes at each level x
 temporal depths x step ranges and splits x solutions with one or several stages, several variables, misc
 indices, wide and asymmetric halos""",
 """The validation runs use a handful of sizes (48/63/64) and four tile settings per stencil and compare with
 the library's own reference mode with a tolerance; they cannot cover the combinations of remainders, clipped
 tiles and shifted wave-front angles, and errors shared by both modes cancel out.""",
 [K+"context.cpp", K+"setup.cpp", K+"stencil_calc.cpp", K+"stencil_calc.hpp", K+"settings.cpp", "utils/bin/gen_loops.pl"],
 [("run loop, mega-block/block/micro-block phases and shifts", K+"context.cpp run_solution..calc_micro_block"),
  ("wave-front and temporal-block angles", K+"setup.cpp update_var_info/update_tb_info"),
  ("peel/remainder masks in nano-blocks", K+"stencil_calc.hpp")],
 [("step storage", "ring buffer of step planes per variable", K+"yk_var.hpp")],
 ["run_solution()", "get_element()", "get_elements_in_slice()"])

prop("C02", "Splitting a problem over ranks does not change the result",
 """Running a problem on any arrangement of ranks gives, for every point of the overall domain, the same values
 as running it on one rank. This holds for every way of dividing the domain (including uneven ones), with or
 without computation/communication overlap, shared-memory exchange, temporal tiling across ranks and minimum-exterior settings.""",
 ["configurations", "inputs"],
 """all rank arrangements of 1..4 ranks (8 thorough) x small global or per-rank sizes x exchange options x
 temporal depths x solutions with several stages, corner-reading halos, misc and step-less variables""",
 """Stable tests run 4 ranks with two option sets on one size per stencil and check only against the reference
 mode on the same ranks.""",
 [K+"halo.cpp", K+"setup.cpp", K+"alloc.cpp", K+"context.cpp", K+"yk_var.hpp"],
 [("neighbor discovery, rank offsets", K+"setup.cpp setup_rank"),
  ("exchange buffer shapes", K+"alloc.cpp alloc_mpi_data"),
  ("pack/send/receive/unpack", K+"halo.cpp exchange_halos"),
  ("interior/exterior split", K+"context.cpp run_solution, setup.cpp find_bounding_boxes")],
 [("dirty flags", "which step planes still have to be exchanged", K+"yk_var.hpp")],
 ["run_solution()", "get_element() on every rank"])

prop("C03", "Halo exchange is independent of message timing and cannot hang",
 """Whatever the relative speed of the ranks and whatever order and moment messages are delivered in, a
 multi-rank run terminates with the same values on every rank. No rank ever waits for a message that is never
 sent, reads a buffer before its message has arrived or overwrites one that is still being sent.""",
 ["schedules"],
 """all interleavings of ranks at communication calls and all completion outcomes of tests and waits within a
 bound on deviations from the default order, for 2-4 ranks and several steps, eager and rendezvous sends,
 shared-memory and message exchange""",
 """The tests run under one MPI library on one machine, where small messages complete in nearly always the same
 order; a missing wait or an early buffer reuse is hidden by eager delivery.""",
 [K+"halo.cpp", K+"utils.hpp", K+"context.cpp", K+"setup.cpp"],
 [("irecv/pack/isend/unpack/wait phases and progress tests", K+"halo.cpp"),
  ("shared-memory buffer lock", K+"utils.hpp SimpleLock"),
  ("communication-thread polling", K+"halo.cpp adv_halo_exchange")],
 [("requests", "outstanding message per buffer", K+"settings.hpp MPIData")],
 ["values on every rank after run_solution()", "MPI calls"])

prop("C04", "Results do not depend on thread count or thread schedule",
 """Within a parallel region no two threads touch the same memory location in conflicting ways without
 synchronisation (lanes of a vector load that are discarded and stores that do not change memory do not count), and the values stored by a run are the same for every number of outer and inner threads and
 every assignment of tiles to threads and order of their execution.""",
 ["schedules", "configurations"],
 """all assignments of work chunks to threads and all orders of thread bodies for small regions; 1..4 outer x
 1..3 inner threads; solutions with scratch variables, conditions and several stages; variable set/reduce calls""",
 """Tests run with the machine's default threads once; a race shows up rarely or never and tolerance-based
 comparison hides lost updates.""",
 [K+"stencil_calc.cpp", K+"context.cpp", K+"setup.cpp", "src/common/common_utils.hpp", K+"utils.cpp", "src/common/tuple.hpp", K+"indices.hpp"],
 [("parallel loop helpers", "src/common/common_utils.hpp yask_parallel_for"),
  ("per-thread scratch memory and trackers", K+"context.cpp, alloc.cpp"),
  ("outer/inner thread split", K+"setup.cpp set_num_outer_threads")],
 [("scratch arena", "one per outer thread", K+"context.hpp")],
 ["memory accesses inside parallel regions", "values after run_solution()"])

prop("C05", "Vector folding and code-generation choices do not change results",
 """The same solution compiled with any vector fold, fold order, element layout, inner-loop dimension,
 loop-generation option, precision-preserving optimisation switch or target instruction set computes the same
 values (up to floating-point rounding, exactly when the arithmetic is exact).""",
 ["configurations", "programs"],
 """all folds of the vector length over the domain dimensions incl. non-multiples of domain sizes x layout, inner
 loop, pointer-use and early-load options x targets runnable on this machine, for solutions whose reads straddle
 vectors in every direction""",
 """Each stencil is tested with one fold and one target; folding bugs depend on the pair of read offset and fold shape.""",
 [C+"Vec.cpp", C+"Cpp.cpp", C+"CppIntrin.cpp", C+"YaskKernel.cpp", K+"realv.hpp", K+"yk_var.hpp"],
 [("aligned-vector decomposition of unaligned reads", C+"Vec.cpp, CppIntrin.cpp"),
  ("loop/pointer generation", C+"Cpp.cpp, YaskKernel.cpp"),
  ("vector primitives, masked stores", K+"realv.hpp")], (),
 ["values after run_solution() per build"])

prop("C06", "Element access behaves like an exact map from indices to values",
 """Reading an element returns the value most recently stored at those indices by any call, or accumulated by
 an add, for every variable shape, misc index base, step ring position and padding; no other element changes.
 An access outside the reported valid range is refused with an exception (or reported as having no effect when
 non-strict) and modifies nothing, and storing to a new step makes that step the newest valid one.""",
 ["histories", "inputs"],
 """all sequences up to a depth of set/add/get/query calls over an alphabet of in-range, edge and out-of-range
 indices, for variables with/without step, misc and vectorised dimensions, fixed-size and user-created""",
 """The API tests execute one fixed call sequence per variable kind.""",
 [K+"yk_var_apis.cpp", K+"yk_var.cpp", K+"yk_var.hpp", K+"generic_var.cpp", "include/aux/yk_var_api.hpp"],
 [("bounds check", K+"yk_var.cpp check_indices"), ("index to address", K+"yk_var.hpp get_elem_ptr"),
  ("valid-step window", K+"yk_var.cpp update_valid_step")],
 [("valid step window", "first..last step stored", K+"yk_var.hpp _local_offsets[step]")],
 ["get_element()", "set_element()", "add_to_element()", "are_indices_local()", "get_first/last_valid_step_index()"])

prop("C07", "Slice copies and reductions agree with element-wise access",
 """Copying a slice out, copying it in, filling it or reducing it has exactly the effect and result of the same
 operation applied to each element of the slice in row-major order, for every slice shape, element type and
 thread count. Elements outside the slice are untouched, a non-strict call affects exactly the part of the slice that
 exists, and each reduction reports the value of the reduction that was requested.""",
 ["inputs", "histories"],
 """all first/last index pairs (inside, straddling, outside, empty) over small variables x strict/non-strict x
 float/double buffers x reduction masks x values of every sign""",
 """Tests copy a few in-range slices and reduce only positive values.""",
 [K+"yk_var.hpp", K+"yk_var.cpp", "include/aux/yk_var_api.hpp"],
 [("slice visitor and clipping", K+"yk_var.hpp _visit_elements_in_slice"),
  ("vector-wise copies", K+"yk_var.hpp _copy_vecs_in_slice"),
  ("reduction join", K+"yk_var.hpp _reduce_elements_in_slice")], (),
 ["get/set_elements_in_slice()", "set_elements_in_slice_same()", "reduce_elements_in_slice()"])

prop("C08", "Halo data is fresh after any history of writes and runs",
 """In a multi-rank run, whatever sequence of element writes, slice writes, fills, runs, clears and
 re-preparations was made on whichever ranks between runs, every later step computes from the values a single-rank
 run with the same history would see. Data is never treated as already exchanged when a neighbour has changed it since.""",
 ["histories"],
 """all operation histories up to a bounded depth over {element write, slice write, fill, add, run 1 step, run
 several steps} on each rank and step plane, for variables with and without a step dimension""",
 """Tests initialise once, run once and compare; the freshness flags are only exercised from the all-stale state.""",
 [K+"yk_var.cpp", K+"yk_var.hpp", K+"halo.cpp", K+"stencil_calc.cpp", K+"soln_apis.cpp"],
 [("per-plane stale flags (own and neighbours')", K+"yk_var.hpp _dirty_steps"),
  ("marking after writes and after stages", K+"yk_var_apis.cpp, stencil_calc.cpp update_var_info"),
  ("clearing after exchange", K+"halo.cpp")],
 [("stale flags", "own data newer than neighbours' halo", K+"yk_var.hpp")],
 ["values on each rank after each run"])

prop("C09", "Conditional equations update exactly the points and steps they select",
 """An equation restricted to a sub-domain or to certain steps updates every point and step satisfying its
 condition and no other, wherever the condition's boundary falls with respect to tiles, vectors, ranks
 and the domain edge. Points selected by no equation keep their previous content.""",
 ["inputs", "programs", "configurations"],
 """conditions with every shape (boxes, holes, diagonals, disjoint strips, single points, empty, full; index- and
 variable-dependent step conditions) x domain sizes x tiles x folds x ranks""",
 """Only a few fixed conditions are tested, on sizes where boundaries mostly align with tiles.""",
 [K+"setup.cpp", K+"stencil_calc.cpp", K+"stencil_calc.hpp", C+"Eqs.cpp", C+"YaskKernel.cpp"],
 [("cover of the selected points by disjoint boxes", K+"setup.cpp find_bounding_box"),
  ("step-condition test", K+"stencil_calc.cpp"), ("box generation", C+"YaskKernel.cpp")],
 [("box list", "disjoint boxes that cover the selected points", K+"context.hpp")],
 ["values after run_solution()"])

prop("C10", "Scratch variables act as values recomputed at each point that needs them",
 """Using an intermediate scratch variable gives the same results as substituting its defining expression at every
 use, for any chain of scratch variables, offsets, conditions and misc indices, any tiling and any number of threads or ranks.""",
 ["programs", "configurations"],
 """solutions with chains of scratch variables (depth 1-3, asymmetric offsets, shared by several consumers,
 conditional, boundary-only) x domain sizes x tiles x temporal depths""",
 """Validation compares with the reference mode, which evaluates the same scratch ranges the same way.""",
 [K+"stencil_calc.cpp", K+"setup.cpp", K+"alloc.cpp", C+"Eqs.cpp"],
 [("expanded write range of scratch parts", K+"stencil_calc.cpp adjust_scratch_span, setup.cpp find_scratch_write_halos"),
  ("scratch halos and memory slots", C+"Eqs.cpp"), ("scratch allocation", K+"alloc.cpp alloc_scratch_data")], (),
 ["values after run_solution()"])

prop("C11", "The compiler orders equations by their data flow and rejects cycles",
 """For every set of equations the compiler accepts, the order in which it schedules them yields the values of
 evaluating each equation after all the same-step equations it reads from. Sets with no such order, or
 with results that depend on the order points are visited in, are rejected with an error instead of compiled.""",
 ["programs"],
 """all small solutions over 2-3 variables (normal and scratch), up to 3-4 equations, offsets in {-1,0,1} in
 step and one or two domain dimensions, optional conditions, both step directions""",
 """The compiler tests build a few hand-written solutions; the dependency analysis is quantified over programs.""",
 [C+"Eqs.cpp", C+"Eqs.hpp", C+"Solution.cpp", C+"ExprUtils.cpp"],
 [("dependency analysis between equations", C+"Eqs.cpp analyze_eqs"), ("grouping into parts and stages", C+"Eqs.cpp")], (),
 ["new_equation()", "output_solution()", "the schedule in the generated code"])

prop("C12", "Generated storage is large enough for every value the equations read",
 """The number of step planes, the halo widths and the misc-index ranges chosen by the compiler are such
 that no value is overwritten or out of storage before its last reader, and every neighbour value read lies inside the
 storage reported for the variable.""",
 ["programs", "configurations"],
 """all read/write offset patterns in step (both directions), domain and misc dimensions within a bound, over one to
 three variables with same-point and neighbour reads of the plane being replaced""",
 """Test stencils use few offset patterns; reuse of the plane being written is only safe for some of them.""",
 [C+"Var.cpp", C+"Eqs.cpp", C+"Solution.cpp", C+"YaskKernel.cpp"],
 [("halo and offset tracking", C+"Var.cpp update_halo"), ("step-plane count / write-back", C+"Var.cpp get_step_dim_size"),
  ("misc range tracking", C+"Var.cpp")], (),
 ["var sizes in the generated solution", "values after run_solution()"])

prop("C13", "Expression optimisation preserves the value of every equation",
 """The value computed for an equation is the value of the expression the user wrote, whichever optimisations
 are on (common-subexpression elimination, reassociation, pairing of functions, constant folding, hoisting,
 increased bit-width literals) and in whichever output form; literals are emitted without loss of precision.""",
 ["programs"],
 """all expression trees up to a size over the operators, functions, index values, literals and reads of the language,
 alone and sharing subtrees across equations, with each optimisation setting""",
 """Tests compile a few fixed expressions; simplification rules interact on shapes that no test writes.""",
 [C+"Expr.cpp", C+"ExprUtils.cpp", C+"Print.cpp", C+"Solution.cpp", C+"Eqs.cpp"],
 [("node constructors and operator flattening", C+"Expr.cpp"), ("sharing, combining and pairing passes", C+"ExprUtils.cpp"),
  ("printing", C+"Print.cpp")], (),
 ["generated code evaluated at a point"])

prop("C14", "Generated loop nests visit every point exactly once",
 """For every loop description and every begin, end, stride and alignment, the generated loop nest visits each
 index tuple of the range exactly once, with sub-ranges that tile the range, correct sequence numbers,
 and the documented visiting order.""",
 ["programs", "inputs"],
 """all loop descriptions over 1-3 dimensions with the path modifiers (serpentine, square-wave, grouped, manual/omp
 forms) x all begin/end/stride/alignment values in a small range, incl. empty and negative ranges""",
 """Only the production loop settings are exercised, and only through whole-stencil runs.""",
 ["utils/bin/gen_loops.pl", K+"utils.hpp", "src/common/idiv.hpp"],
 [("index computation emitted for each path", "utils/bin/gen_loops.pl")], (),
 ["bodies executed by the generated code"])

prop("C15", "Index layouts are one-to-one and consistent across all index helpers",
 """Mapping an index tuple to a linear position and back is the identity, is one-to-one over the whole extent for
 every order of dimensions, and all of the library's layout helpers (generated layouts, runtime tuples, index vectors) agree with
 each other and with their visit order; floor division/modulus, factorisation and combination helpers match their definitions.""",
 ["inputs", "configurations"],
 """all dimension counts and permutations supported x all small extents x all points; all small operands including negatives""",
 """Unit tests check a few tuples in a few sizes.""",
 ["utils/bin/gen_layouts.pl", "src/common/tuple.hpp", "src/common/tuple.cpp", K+"indices.hpp", "src/common/idiv.hpp", "src/common/combo.cpp", K+"generic_var.hpp"],
 [("generated layout/unlayout functions", "utils/bin/gen_layouts.pl"), ("runtime layout", "src/common/tuple.cpp, src/kernel/lib/indices.hpp"),
  ("combinations", "src/common/combo.cpp")], (),
 ["layout(), unlayout(), visit_all_points()"])

prop("C16", "Finite-difference coefficients are exact on polynomials",
 """The coefficients produced for a derivative order and a set of sample points differentiate exactly every polynomial of
 degree below the number of points, for centred, forward, backward and arbitrary distinct sample points and evaluation points.""",
 ["inputs"],
 """all derivative orders x accuracy orders/radii within range x stencil kinds x evaluation points in and off the sample set""",
 """The only test prints coefficients for one case.""",
 ["src/contrib/coefficients/fd_coeff.cpp", "src/common/fd_coeff2.cpp", "include/yask_compiler_api.hpp"],
 [("Fornberg recurrence", "src/contrib/coefficients/fd_coeff.cpp"), ("convenience wrappers", "src/common/fd_coeff2.cpp")], (),
 ["get_*_fd_coefficients()"])

prop("C17", "Options are parsed exactly and adjusted to a valid nest of tile sizes",
 """Every recognised option sets exactly the setting it names, unrecognised arguments are returned in order,
 and malformed values are refused with an exception. After preparation the effective sizes form a valid nest (each tile
 at most its parent, all positive, vector multiples where required) that covers the domain, and user
 sizes that are already valid are kept; the overall domain is exactly partitioned among the ranks.""",
 ["inputs", "configurations"],
 """all options with each kind of value (valid, missing, malformed, out of range) in sequences up to a depth; all small requested
 size tuples incl. zero, oversize and non-multiples; all rank counts and positions""",
 """Tests pass a few well-formed option strings and never inspect the adjusted settings.""",
 ["src/common/common_utils.cpp", K+"settings.cpp", K+"soln_apis.cpp", K+"setup.cpp"],
 [("option parser", "src/common/common_utils.cpp command_line_parser"), ("rounding and clamping of sizes", K+"settings.cpp adjust_settings"),
  ("rank sizes and offsets", K+"setup.cpp setup_rank")], (),
 ["apply_command_line_options()", "get_block_size() and related", "get_first/last_rank_domain_index()"])

prop("C18", "Any order of solution-lifecycle calls is either honoured or refused",
 """For any sequence of configuration, variable-creation, preparation, run, storage release/allocation, fusing
 and end calls, each call either takes its documented effect or throws a documented exception and leaves existing data and
 later behaviour intact; queries always report the current state. Storage of different variables never overlaps, is
 aligned and contains the whole reported index range; nothing is accessed outside or after its allocation.""",
 ["histories"],
 """all sequences up to a depth over {set size, set pad/halo, create var (fixed or not), alloc, release, prepare, run, fuse, write, end,
 re-prepare} on one or two solutions, with hook calls observed""",
 """The API tests run the canonical order plus some hand-picked errors.""",
 [K+"soln_apis.cpp", K+"setup.cpp", K+"alloc.cpp", K+"new_var.cpp", K+"factory.cpp", K+"yk_var_apis.cpp", K+"generic_var.cpp"],
 [("prepared flag", K+"context.hpp"), ("resize rules after allocation", K+"yk_var.cpp resize"),
  ("bundled allocation", K+"alloc.cpp"), ("fusing", K+"yk_var_apis.cpp fuse_vars")],
 [("storage pointers", "shared memory block + offset per variable", K+"generic_var.hpp")],
 ["yk_solution and yk_var APIs"])

prop("C19", "Auto-tuning only changes speed",
 """Whether and whenever the auto-tuner runs, finishes, is reset or is switched off during a run, stored values are the same as
 without it, every size it tries or leaves behind is a valid tile size, and it always terminates. Statistics report exactly the
 steps and points that were executed.""",
 ["schedules", "configurations", "histories"],
 """all outcomes of the timing comparisons (every ordering of measured rates within a bound on the number of decisions) x tuner
 targets x domain sizes x temporal depths""",
 """Timing decides the path through the search, so a test run sees one path only; tests do not enable tuning in validation.""",
 [K+"auto_tuner.cpp", K+"auto_tuner.hpp", K+"soln_apis.cpp", K+"context.cpp"],
 [("neighbourhood search driven by rates", K+"auto_tuner.cpp eval"), ("applying sizes between calls", K+"auto_tuner.cpp apply"),
  ("work counters", K+"setup.cpp init_work_stats")], (),
 ["values after run_solution()", "get_block_size()", "yk_stats", "is_auto_tuner_enabled()"])

os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
with open("properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
