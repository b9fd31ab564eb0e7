#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, quant, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": quant},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
            "mechanism": [{"name": a, "where": b} for a, b in mech],
            "observe_at": observe, "hook_needed": hook}})


CG, LF, LP, DG = ("lib/constraint_graph.cpp", "lib/labeling_finder.cpp",
                  "lib/lowest_penalties.cpp", "lib/disparity_graph.cpp")
IX, IC, PG, MN, IM = ("lib/indexing.cpp", "lib/indexing_checks.cpp",
                      "lib/pgm_io.cpp", "lib/main.cpp", "lib/image.cpp")
AV = ("nodes_availability", "which (pixel, disparity) pairs are still allowed",
      "include/constraint_graph.hpp")

p("C01", "The disparity map is an admissible labeling with the least worst deviation",
  "For every valid pair of images, number of disparity levels and weights, the computed map has the size of the "
  "images and gives each pixel a disparity that exists for it, with the disparity never falling by more than one "
  "from a column to the next one to its right being violated (a pixel's disparity is at most its right neighbour's plus one). "
  "The largest amount by which any node or edge penalty of the map exceeds the lowest penalty of its pixel or pair of "
  "neighbouring pixels equals the minimum of that amount over all admissible labelings.",
  ["inputs"], "all valid image pairs, disparity levels, cleanness and smoothness weights",
  "The tests check one 2x2 image and intermediate results; optimality over all labelings is a statement about every input.",
  [CG, LF, LP, DG, MN],
  [("binary search over candidate thresholds", LF + ": calculate_minimal_consistent_threshold"),
   ("labeling by choice and propagation", LF + ": find_labeling"),
   ("conversion to an image", LF + ": build_disparity_map")],
  ["the map returned by build_disparity_map"], [AV])

p("C02", "The CSP solver leaves exactly the greatest consistent set of nodes",
  "For any problem, threshold and current availability of existing nodes, solving leaves available exactly the largest "
  "subset of the available nodes in which every node has, towards every existing neighbour, an available edge. "
  "It answers true exactly when that subset is not empty, and leaves no node available when it answers false. "
  "This also holds when solving is repeated after nodes were removed or the threshold was changed.",
  ["inputs", "histories"], "all graphs (with any reparametrization), thresholds, initial availabilities, and sequences of removals and solutions",
  "Tests solve a handful of fixed 2-3 pixel graphs once; none compares the fixpoint with an independent one or needs several sweeps.",
  [CG], [("repeat passes until nothing changes", CG + ": solve_csp"),
         ("one pass", CG + ": csp_solution_iteration"),
         ("support test", CG + ": should_remove_node")],
  ["availability of all nodes before and after solve_csp", "its return value"], [AV])

p("C03", "OpenMP solving is race-free and gives the sequential result",
  "Built with OpenMP, solving a problem gives the same set of available nodes and the same answer as the sequential "
  "solver, for every number of threads and every interleaving of them, and the same disparity map. "
  "The threads never access the same memory concurrently without synchronization when one of the accesses is a write.",
  ["schedules", "inputs", "configurations"], "all thread counts (also more threads than rows), thread interleavings and problems",
  "The tested build has no OpenMP at all; a unit test of the OpenMP build samples one schedule.",
  [CG, "include/types.hpp"], [("parallel loop over jobs with a reduction", CG + ": solve_csp"),
                              ("atomic access to availability", CG + ": make_node_unavailable, is_node_available"),
                              ("not packed array", "include/types.hpp: BOOL_ARRAY")],
  ["availability after solve_csp under OpenMP", "ThreadSanitizer reports"], [AV])

p("C04", "Partial passes are monotone, sound and truthful, and reach the fixpoint",
  "A partial pass over any share of the rows, or over one pixel, only removes nodes, and never removes a node of the largest "
  "consistent subset. A pass over a pixel removes exactly its unsupported nodes and reports a change exactly when it removed one; a pass "
  "over rows reports no change only if it removed nothing or no node is left. "
  "Any order of passes that repeats all shares until none of them reports a change ends in the largest consistent subset.",
  ["schedules", "inputs"], "all sequences of (jobs, job number) passes and single-pixel passes over all problems",
  "Tests call single passes on tiny graphs; arbitrary interleavings of partial passes and job numbers beyond the height are never tried.",
  [CG], [("row share of a job", CG + ": csp_solution_iteration"), ("one pixel", CG + ": csp_process_pixel")],
  ["availability before and after each pass", "return values"], [AV])

p("C05", "Candidate thresholds are complete and the chosen one is minimal",
  "The list of candidate thresholds is strictly increasing and contains exactly the differences between penalties of existing nodes or "
  "edges and the lowest penalty of their pixel or pair of neighbours; the lists for one pixel and one pair are such lists too. "
  "Given an increasing list that contains a threshold for which the problem is solvable, the search returns the least such element.",
  ["inputs"], "all graphs, also with a reparametrization, and all increasing lists with a consistent element",
  "Tests compare lists of one small graph without reparametrization; completeness and minimality range over all graphs.",
  [LF], [("differences of a pixel and a pair", LF + ": fetch_pixel_available_penalties, fetch_edge_available_penalties"),
         ("merging", LF + ": fetch_available_penalties"),
         ("bisection", LF + ": calculate_minimal_consistent_threshold")],
  ["returned lists and threshold"])

p("C06", "Labeling succeeds when solvable and picks the best consistent labels",
  "Whenever a problem without a reparametrization has a consistent labeling among the available nodes, finding a labeling succeeds and leaves "
  "exactly one previously available node per pixel, all nodes and edges of the labeling being within the threshold. "
  "Pixels are fixed column by column, each from top to bottom, at the available node of the lowest penalty (of the lowest disparity among "
  "equal ones) which does not make the rest inconsistent. "
  "Choosing the best node of a pixel leaves only that node in the pixel, touches no other pixel, and fails exactly when the pixel has no available node.",
  ["inputs", "histories"], "all graphs, thresholds and availabilities, also when the best node leads to a dead end; negative penalties for choosing a node",
  "Tests use two tiny graphs with a unique answer; dead ends need dozens of pixels and negative penalties need a reparametrization.",
  [LF, CG], [("choice of a node", LF + ": choose_best_node"), ("choice, propagation, fallback", LF + ": find_labeling")],
  ["availability and result of find_labeling and choose_best_node"], [AV])

p("C07", "A map is built only from exactly one available node per pixel",
  "If every pixel has exactly one available node, the built map has the size of the images, the number of disparity levels as its maximal "
  "value and the disparity of that node at each pixel, and the graph is not changed. "
  "If some pixel has no available node or several ones, an exception is thrown instead.",
  ["inputs"], "all graphs and availabilities, whichever pixel has zero, one or several nodes",
  "Tests build one map and never an ambiguous one; the position and the number of extra labels vary over all availabilities.",
  [LF], [("scan of nodes of a pixel", LF + ": build_disparity_map")], ["returned image or exception"], [AV])

p("C08", "Penalties follow their definition and reparametrization keeps the energy",
  "The penalty of a node is the cleanness weight times the squared difference of the intensities it matches plus the reparametrization of the "
  "node towards its existing neighbours; the penalty of an edge is the smoothness weight times the squared difference of disparities minus the reparametrizations of both "
  "ends, and does not depend on the direction of the edge. "
  "Hence the sum of penalties of all nodes and edges of any labeling does not depend on the reparametrization.",
  ["inputs"], "all graphs, weights, existing nodes and edges, reparametrizations and labelings",
  "Tests evaluate a few nodes and edges and set reparametrization only towards some neighbours; invariance is over all labelings and values.",
  [DG, IX], [("penalties", DG + ": node_penalty, edge_penalty"), ("reparametrization lookup", IX + ": reparametrization_index_*")],
  ["node_penalty, edge_penalty"], [("reparametrization", "dual variables of the problem", "include/disparity_graph.hpp")])

p("C09", "Stored lowest penalties are exact minima and bound every labeling",
  "For every pixel and every ordered pair of neighbouring pixels, the stored lowest penalty equals the minimum over its existing nodes or "
  "edges, attained by one of them, the same in both directions, and all ways to compute or look it up agree. "
  "The stored values are those at the time of construction, later changes of the problem do not alter them, and their sum over pixels and unordered pairs never "
  "exceeds the energy of any labeling.",
  ["inputs", "histories"], "all graphs with and without reparametrization, all pixels and neighbours, modifications after construction",
  "Tests look at a few entries of small graphs without reparametrization towards the left neighbour.",
  [LP], [("enumeration of existing edges", LP + ": calculate_lowest_neighborhood_penalty_fast"),
         ("storage", LP + ": LowestPenalties::LowestPenalties")],
  ["lowest_* and calculate_lowest_* functions"])

p("C10", "Indexing is injective, in bounds, and its variants agree",
  "For every size of a problem, different pixels, nodes, (node, neighbour) pairs and (pixel, neighbour) pairs have different indices, all inside of the "
  "corresponding array, so that a change of one never affects another. "
  "Functions for the same index or value taking different arguments agree; the index of a neighbour and the neighbour by index are inverse to each other, and pixels which are not "
  "direct neighbours get the number of neighbours instead of an index.",
  ["inputs"], "all (non-square) image sizes, disparity levels, pixels, nodes and neighbours",
  "Tests compare a few hard-coded indices; swapped strides agree on square or tiny images.",
  [IX], [("index arithmetic", IX + ": node_index, reparametrization_index_fast, neighborhood_index_fast, pixel_index"),
         ("neighbour arithmetic", IX + ": neighbor_index, neighbor_by_index")],
  ["indices over whole index spaces", "aliasing through make_node_available and is_node_available"])

p("C11", "Existence checks accept exactly the nodes and edges of the problem",
  "A node exists exactly if its pixel is in the image, its disparity is below the number of levels and the matched column is in the image. "
  "Two pixels are neighbours exactly if both are in the image and they are next to each other in a row or column, whichever way the neighbour is given. "
  "An edge exists exactly if both nodes exist, their pixels are neighbours and, for pixels of one row, the disparity of the left one is at most that of the right one plus one; "
  "the checks are symmetric and never fail on coordinates out of range.",
  ["inputs"], "all nodes, pixels and edges, also out of range and at wrap-around values",
  "Tests check selected positions of one small graph; borders, wrap-around and all pairs are not covered.",
  [IC], [("checks", IC + ": node_exists, edge_exists, neighborhood_exists, neighborhood_exists_fast")],
  ["return values of the checks"])

p("C12", "Writing an image and reading it back gives the same image",
  "For every valid image with maximal value up to 65536, what is written is read back successfully as an image with the same width, height, maximal value and "
  "intensities, through memory streams and files alike, and writing that image again gives the same bytes. "
  "Writing does not change the image, and a reader or writer object can be reused.",
  ["inputs", "histories"], "all valid images, in particular widths around the line length limit, and sequences of operations on one object",
  "Tests round-trip two images; widths around multiples of the row limit and large sizes are not covered.",
  [PG], [("writer", PG + ": operator<<"), ("reader", PG + ": operator>>")], ["bytes written and images read"])

p("C13", "The PGM reader accepts exactly the plain PGM grammar, all or nothing",
  "A text is read successfully if it consists of P2, positive width and height, a maximal value up to 65536 and exactly width times height intensities, "
  "all decimal numbers in this order, separated by any whitespace, with comments from # to the end of the line anywhere, and the image then has exactly these values in row-major order. "
  "A text with another magic, a missing, redundant, malformed, negative or too big number, or a bigger maximal value sets the failure state of the stream and leaves the reader's current image "
  "as it was. A stream with exceptions for failures throws for exactly the texts it refuses.",
  ["inputs", "histories"], "all texts: whitespace and comment placement, number forms, counts, previous state of the reader",
  "Tests try ten fixed texts, and two of them fail for another reason than they name.",
  [PG], [("tokens and comments", PG + ": read_pgm_instruction"), ("end of the file", PG + ": check_file_end"),
         ("numbers and sizes", PG + ": operator>>")],
  ["stream state and get_image() after reading"])

p("C14", "Reading hostile or failing input is safe, bounded and never half done",
  "Whatever bytes the input contains and wherever the underlying stream breaks, reading throws no exception, accesses no memory out of bounds, "
  "and uses time and memory proportional to the bytes consumed and not to the sizes the header claims. "
  "Afterwards the stream either is in a failure state with the reader's image unchanged, or the reader holds an image whose data has exactly width times height elements.",
  ["inputs", "fault_sequences"], "all byte strings, and all positions at which the stream fails",
  "Tests contain no hostile sizes, overflowing numbers, binary data or failing streams.",
  [PG], [("validation before use", PG + ": operator>>")],
  ["exceptions, allocations, sanitizer reports, stream state"])

p("C15", "Written PGM files conform to the format; invalid images write nothing",
  "What is written for a valid image with maximal value up to 65536 is a plain PGM text by an independent parser: the magic, width, height and maximal value, then all intensities in row-major order, "
  "in ASCII lines of at most 70 characters that end with a newline, each row of the image starting on a new line; flags for numbers and the locale of the stream do not change it. "
  "For no image or an invalid one nothing is written and the stream stays good; if the output stream breaks at any byte, its failure state is set.",
  ["inputs", "fault_sequences"], "all valid and invalid images, all positions of a failure of the output, settings of the stream",
  "Tests write two images and an absent one; line lengths at all widths and values and failing outputs are not covered.",
  [PG, IM], [("line breaking", PG + ": operator<<"), ("validity", IM + ": image_valid")], ["bytes written", "stream state"])

p("C16", "Construction accepts exactly valid problems",
  "An image is valid exactly if its width, height and maximal value are positive and no intensity exceeds the maximal value. "
  "Building a problem throws invalid_argument exactly if an image is invalid, sizes or maximal values of the images differ, the number of disparity levels is below two or above the width, "
  "a weight is negative, or both weights are zero. An accepted problem holds exactly the given images and parameters and a zero reparametrization for every node and neighbour.",
  ["inputs"], "all images and parameters at and around every limit, with an invalid intensity at any position",
  "Tests try one violation of most kinds at a fixed place.",
  [DG, IM], [("validation", DG + ": DisparityGraph::DisparityGraph"), ("validity of images", IM + ": image_valid")],
  ["exception or constructed graph"])

p("C17", "No memory error, undefined behaviour, uninitialized read or leak",
  "For all valid inputs, every operation of the library, from reading the images to writing the map, runs without out-of-bounds or use-after-free access, undefined behaviour, "
  "decision on uninitialized memory, or leaked memory. This includes the smallest sizes, extreme intensities and weights, and error paths that throw, also when memory runs out.",
  ["inputs", "histories"], "all valid inputs and orders of operations, including error paths",
  "Tests run without instrumentation, so an access out of bounds that does not crash passes.",
  [CG, LF, LP, DG, IX, IC, PG, IM], [("index arithmetic and loop bounds", "lib/*.cpp")],
  ["AddressSanitizer, UndefinedBehaviorSanitizer, valgrind memcheck, debug-mode containers"])

p("C18", "The program writes a complete map or fails loudly without touching outputs",
  "The program exits with zero exactly when the output file contains the complete map (or only help was asked for); otherwise it exits with a nonzero code and prints a message to the error output. "
  "When arguments or input images are missing, unreadable or wrong, it neither creates nor modifies the output file; it never modifies the inputs. "
  "A failure or a partial write of the output at any point is reported in the same way or retried to a complete file; so is a lack of memory.",
  ["fault_sequences", "inputs", "crash_points"], "all argument lists and input files, and I/O faults at every read and write",
  "There is no test of the program at all.",
  [MN, PG], [("error handling and exit codes", MN + ": main"), ("reading of inputs", MN + ": read_image")],
  ["exit code, error output, files"])

p("C19", "The program applies its options and computes what the library computes",
  "For all images and values of the options for disparity levels, cleanness, smoothness and CPU parallelism, given in any order and in short or long form, the map written equals the one of the documented "
  "algorithm for exactly these parameters. "
  "Omitted options mean the image width for disparity levels and one for each weight; weights may be fractional; unknown options, values or technologies are refused.",
  ["inputs", "configurations"], "all combinations, orders, spellings and defaults of options and all valid images",
  "There is no test of the program at all.",
  [MN], [("option parsing", MN + ": main")], ["the output file against an independent model"])

p("C20", "OpenCL and CPU labelings are equal under any schedule of work-items",
  "For all problems whose penalties are exactly representable in single precision, finding a labeling with OpenCL ends with the same available nodes as on the CPU (and fails exactly when it does), for every size of "
  "work-groups and every interleaving of work-items. "
  "Kernels access only the buffers passed to them, set all their arguments and never diverge at barriers. "
  "The program runs kernels exactly when it is asked for OpenCL. "
  "When a call of OpenCL fails, the program never reports success without the right map.",
  ["schedules", "inputs", "configurations"], "all problems, sizes of work-groups and interleavings of work-items",
  "OpenCL code is compiled but never run by tests; no device is present.",
  ["lib/gpu_csp.cpp", "lib/solve_csp.cl", "lib/compile_cl.cpp", CG, LF, LP, DG, IX, IC],
  [("kernels", "lib/solve_csp.cl"), ("host loop", "lib/gpu_csp.cpp: csp_solution_cl")],
  ["availability after find_labeling_cl", "runtime checks of the emulated device"], [AV])

p("C21", "Results obey the symmetries of the problem and are deterministic",
  "The map does not change when the same constant is added to all intensities, when both images are inverted within the range, when the maximal value is raised, or when both weights are multiplied by the same power of two. "
  "The minimal threshold does not change when both images are flipped upside down or a row is duplicated, and scales with the weights. "
  "Repeating a computation gives the same result.",
  ["inputs", "histories"], "all valid problems and transformations of them",
  "Relations between runs on different inputs are not tested.",
  [DG, LP, LF, CG], [("only differences of intensities matter", DG + ": node_penalty")], ["maps and thresholds of related problems"])

p("C22", "Solving is idempotent and monotone in threshold and availability",
  "Solving a solved problem changes nothing. Raising the threshold or starting with more available nodes never loses a node of the result or turns a solvable problem unsolvable. "
  "Removing nodes before or after a solution and solving gives the same result.",
  ["inputs", "histories"], "all problems, pairs of thresholds and pairs of availabilities, also large ones",
  "Relations between several solutions are not tested.",
  [CG], [("fixpoint", CG + ": solve_csp")], ["availability after related solutions"], [AV])

p("C23", "Initial nodes and edges are available exactly within the threshold",
  "A new constraint problem makes available exactly the existing nodes whose penalty exceeds the lowest one of their pixel by at most the threshold (the bound included). "
  "At any later time an edge is available exactly if it exists, both its nodes are available and its penalty exceeds the lowest one of its pair of pixels by at most the threshold; asking about an edge that does not exist is safe. "
  "A node should be removed exactly if it is available and for some existing neighbour has no available edge.",
  ["inputs", "histories"], "all graphs, thresholds at, just below and above each difference, availabilities, existing and missing edges",
  "Tests check a few thresholds of small graphs; equality at the bound and missing edges out of range are not covered.",
  [CG], [("initial availability", CG + ": ConstraintGraph::ConstraintGraph"), ("edges", CG + ": is_edge_available"),
         ("support", CG + ": should_remove_node")], ["predicates over all nodes and edges"], [AV])

p("C24", "Independent problems in parallel threads do not interfere",
  "Different problems read, solved and written at the same time in different threads give the same results as one after another, and threads sharing one constant problem and its lowest penalties do not race. "
  "No operation modifies the images, the problem or the lowest penalties it is given as constant.",
  ["schedules", "inputs"], "all numbers of threads and interleavings, separate and shared problems",
  "Tests use one thread; hidden shared state shows only under concurrency.",
  [CG, LF, LP, DG, PG], [("no global mutable state", "lib/*.cpp")], ["ThreadSanitizer reports, results per thread, snapshots of inputs"])

p("C25", "CUDA and CPU labelings are equal under any schedule of threads",
  "For all problems whose penalties are exactly representable in single precision, finding a labeling with CUDA ends with the same available nodes as on the CPU (and fails exactly when it does), for every interleaving of threads and "
  "images of any height. "
  "Kernels access only initialized device memory which belongs to the problem, the host accesses it only by copying, and all of it is freed in the end. "
  "The program runs kernels exactly when it is asked for CUDA. "
  "When a call of CUDA fails, the program never reports success without the right map.",
  ["schedules", "inputs", "fault_sequences"], "all problems, interleavings of CUDA threads and failures of calls",
  "CUDA code is neither built nor run by tests.",
  ["lib/cuda_csp.cu", "lib/solve_csp.cu", CG, LF, LP, DG, IX, IC],
  [("kernels", "lib/solve_csp.cu"), ("host loop", "lib/cuda_csp.cu: csp_solution_cuda"), ("dead ends", LF + ": find_labeling_cuda")],
  ["availability after find_labeling_cuda", "runtime checks of the emulated device"], [AV])

p("C26", "The work of solving and searching is bounded",
  "Solving terminates after processing each pixel at most once more than the number of nodes removed plus one. "
  "The threshold search solves at most the binary logarithm of the number of candidates plus one problems. "
  "Finding a labeling solves at most one problem per node, and only one per pixel when no choice leads to a dead end.",
  ["inputs"], "all problems, also those where propagation is longest",
  "Tests do not measure work; a solver that does not stop or repeats needlessly shows only on some inputs.",
  [CG, LF], [("stop when nothing changes", CG + ": solve_csp"), ("bisection", LF + ": calculate_minimal_consistent_threshold")],
  ["counts of calls per solved problem"], hook=None)

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
