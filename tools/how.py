HOW = {
"P01": "Symbolic operands over arbitrary active rows/patterns/diagonals; the real `__add__`, `__sub__`, `__mul__`, `@`, transposes and copies run (with the translated kernels); oracle: dense matrices built from the same variables, entry by entry; operands re-read afterwards.",
"P02": "Each conversion/normalisation/thresholding function on symbolic matrices; oracle: its definition written on dense lists; arguments compared before/after; refusals by `cx.raises`.",
"P03": "SparseAutocovMat built by every route; every view compared with diag(p1)T - p1 p2^T (or the forward formula) from the same variables; aggregation compared with block sums.",
"P04": "For every partition/node/target the gain reported by `_compute_delta_stability`-level kernels is compared with stability(after) - stability(before) computed from the definition.",
"P05": "Arbitrary history of moves/removals on a Partition; after each, list, map, counts, iteration and indicator matrix are compared with a plain assignment list kept by the harness.",
"P06": "The Louvain search itself is run symbolically (visiting order = arbitrary draws); asserted: valid partition, reported stability is the definition's, not below the start, monotone over levels, no improving merge without ties, equal seeds equal results; termination by replay time-out.",
"P07": "All pairs/triples of partitions as choice variables in every representation; logs as prime combinations; oracle: definition from set intersections; symmetry, bounds, identity, triangle inequality.",
"P08": "Events with symbolic times (order decided by the solver); real constructor and `compute_laplacian_matrices`; oracle: contacts open during each step from the event list alone.",
"P09": "The real computation over symbolic events and rates; oracle: the expm contract symbol applied to the harness's own Laplacian and duration; linear approximation by formula; rows, identity and defaults.",
"P10": "Symbolic stochastic inter-event matrices; real products; oracle: plain products in the stated order and the thresholding rule; inputs compared afterwards; refusals.",
"P11": "FlowIntegralClustering on symbolic matrices, densities, times and grids; oracle: the time average from the definition; clustering of the integral as in P06.",
"P12": "Constructors through pandas on symbolic times and labels; oracle: the list of events; merging against explicit interval unions; static adjacency against overlap with the window.",
"P13": "Save and load with every option to real files; oracle: what was there before saving, thresholded by the stated rule; later computations of both networks compared.",
"P14": "Arbitrary operations on FlowStability from any stage, and on a generic state-tracked class with arbitrary registration; oracle: a small model of which step may run (written from the statement), results against fresh computation.",
"P15": "Arbitrary histories of computations; after each, every stored matrix is compared with a fresh network's for the options last asked for.",
"P16": "Harnesses of P01-P04, P06, P07 with the package loaded as if cython / sparse_dot_mkl were missing (import hook in both the symbolic and the real process).",
"P17": "Functions of parallel_expm/parallel_clustering with a symbolic pool; oracle: the serial definition; worker state reset per schedule.",
"P18": "static_clustering on symbolic weights; oracle: power/linear/expm of the harness's own walk, stationary density by the matrix-tree contract; repetitions replayed per seed.",
"P19": "Each compiled kernel is called directly on arbitrary well-formed CSR data (stored zeros, empty rows, any column order) and on the data the classes pass; the run-time raises on any access outside a buffer, read of uninitialised memory or write into an argument that is not an output; oracle for values: the definition.",
"P20": "The synthetic network run with symbolic waiting times, durations and partner choices; oracle: the recorded draws give every individual's activation times; each recorded contact must start at an activation of its source with an allowed partner and last a drawn duration, and every activation with a free partner must have produced one; states compared with the contacts.",
"P21": "The script is loaded with symbolic arguments and main() runs in-process on a network with symbolic events (pools by the multiprocessing stand-in, files real, symbolic values kept by reference in them); every file is read back and compared with the slice's matrices computed by the harness from the event list; set of files compared; one file removed, main() again.",
"P22": "Inter-event files with symbolic matrices and times are written by the package; the script runs in-process; each result is compared with the integral accumulated by the harness from the matrices of the slices between the two points; subsets of files removed, main() again.",
"P23": "Integral files with symbolic entries; the script runs in-process with arbitrary draws; every field of each result is recomputed by the harness from the integral and the partitions reported; subsets of files removed, main() again.",
}
