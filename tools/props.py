SSM = "src/flowstab/sparse_stoch_mat.py"
PYX = "src/flowstab/_cython_sparse_stoch.pyx"
FF = "src/flowstab/_cython_fast_funcs.pyx"
NC = "src/flowstab/network_clustering.py"
TN = "src/flowstab/temporal_network.py"
FS = "src/flowstab/flow_stability.py"
ST = "src/flowstab/state_tracking.py"
NA = []
BN = ("Bounded: exact for every real-valued input and every structure within the sizes listed in the evidence "
      "(coverage.bounds); arithmetic is over the reals, not floats. ")
PROPS = [
dict(id="P01", title="Compressed stochastic matrices obey ordinary matrix algebra",
 statement="Adding, subtracting, multiplying, scaling, transposing, diagonal-shifting or copying compressed stochastic matrices (also mixed with ordinary sparse matrices, arrays and vectors) gives exactly the matrix that the same operation gives on their dense equivalents, for any set of active rows, sparsity pattern, diagonal value and operation history. Operands are left unchanged.",
 over=["inputs", "histories"], qtext="all active-row sets, sparsity patterns, entry and diagonal values, and chains of operations",
 why="the tests compare a few fixed random matrices with diagonal value 1; overlaps, empty rows, other diagonal values and chains are not reached",
 files=[SSM, PYX, "src/flowstab/sparse_accumulator.cpp"], mech=[("add/sub kernels with column maps and sparse accumulator", PYX), ("(A-aI)(B-bI)+bA+aB-abI split", SSM)],
 note=BN + "Sizes up to 3-5 nodes, products of up to 3-4 matrices."),
dict(id="P03", title="The sparse autocovariance matrix is the covariance it stands for",
 statement="A sparse autocovariance matrix built from a transition matrix (or directly from its parts) represents diag(p1)T - p1 p2^T (forward variant: diag(p1) T diag(1/p2) T^T diag(p1) - p1 p1^T) exactly in every view: full matrix, single elements, rows, columns, submatrices, sums, copies, node-to-cluster interactions and zero test; aggregating clusters gives the block sums of that matrix. This holds for every transition matrix, sparsity pattern and density.",
 over=["inputs"], qtext="all transition matrices, sparsity patterns, densities, cluster assignments and index sets",
 why="tests compare a few random matrices at fixed density; the missing (zero) entries, unsorted indices and non-uniform densities are where views diverge",
 files=[SSM, PYX], mech=[("PT minus implicit p1 p2 outer product", SSM), ("CSR/CSC views", SSM)],
 note=BN + "2-3 nodes; entries non-negative; a scalar density means the uniform 1/N."),
dict(id="P04", title="Predicted move gains equal the true change of stability",
 statement="The gain that the optimiser predicts for taking a node out of its cluster or putting it into another cluster equals the difference in stability of the two partitions, for every covariance matrix, partition, node and target cluster, whichever implementation computes it (dense, sparse, compiled kernels, one-sided or two-sided clustering).",
 over=["inputs"], qtext="all covariance matrices, partitions, nodes and target clusters",
 why="tests check a fixed network and partition; a wrong term shows only for asymmetric matrices, empty rows, singleton or emptied clusters",
 files=[NC, FF, PYX, SSM], mech=[("delta S kernels", FF), ("delta PT kernels", PYX), ("_compute_delta_stability", NC)],
 note=BN + "3-4 nodes."),
dict(id="P05", title="A partition stays consistent under every sequence of moves",
 statement="However a partition is given (cluster list, node-to-cluster mapping with any labels, default) and after any sequence of node moves and empty-cluster removals, the cluster list, the node-to-cluster map, the cluster counts, iteration and the indicator matrix all describe the same assignment with every node in exactly one cluster; removing empty clusters leaves consecutive non-empty clusters with the same grouping; descriptions that are not partitions are refused when integrity checking is requested.",
 over=["histories", "inputs"], qtext="all starting partitions and operation sequences within the bounds",
 why="consistency is a property of histories of operations, of which tests run a few",
 files=[NC], mech=[("Partition", NC)],
 note=BN + "Up to 4 nodes and 3-4 operations."),
dict(id="P06", title="Louvain returns a valid partition that is never worse than its start",
 statement="Whatever the covariance or transition matrix, the initial partition, the seed and the order in which nodes are visited, the search terminates and returns a partition in which every node is in exactly one non-empty cluster; the reported stability is that of the reported partition and is never below that of the initial partition (except that a numerically zero covariance yields the single cluster), it never decreases from one aggregation level to the next, and without ties no merge of two clusters would increase it. Equal seeds and data give equal partitions.",
 over=["inputs", "configurations", "schedules"], qtext="all covariance/transition matrices, initial partitions and random draws",
 why="tests run a few seeds on a few matrices and compare with stored partitions; the outcome depends on every matrix value and every shuffle",
 files=[NC, FF, PYX, SSM], mech=[("move phase accepting only non-negative gains", NC), ("aggregation and relabelling", NC)],
 note=BN + "2-4 nodes; all visiting orders for 2 nodes, the first 1-3 draws arbitrary for 3-4 nodes."),
dict(id="P08", title="Laplacians reflect exactly the contacts going on",
 statement="For every temporal network (any events, overlapping, nested or touching contacts of the same pair, zero gaps excluded, lists or events table, continuous or instantaneous) and every time window, the event times, the adjacency and the random-walk Laplacian stored for each step are those of exactly the contacts going on during that step; isolated nodes have zero rows; the window is the one between the closest earlier event times.",
 over=["inputs", "histories"], qtext="all event tables, real-valued event times and time windows within the bounds",
 why="whether a contact is on at a step depends on the order of all start and end times, of which tests use a few",
 files=[TN], mech=[("incremental update of ongoing contacts", TN), ("closest event time", TN)],
 note=BN + "Up to 4 nodes, 3-4 contacts, 3-5 times; times are arbitrary reals at least 0.05 apart."),
dict(id="P09", title="Inter-event transition matrices match the exponential or its approximation",
 statement="For every step the inter-event transition matrix equals expm(-lamda*tau*L) of that step's Laplacian (unit duration for instantaneous networks; lamda defaults to the inverse median inter-event time) in every format and by every route (dense, sparse, compressed, per connected component), and the linear approximation equals the documented interpolation between identity, transition and stationary matrix; rows sum to one, nodes without contact stay put, and a window without events gives the identity.",
 over=["inputs", "configurations"], qtext="all event tables and times, rates, stationarity times, graphs and formats within the bounds",
 why="tests compare a few networks and rates between formats; errors sit in rarely reached combinations of component structure, window and format",
 files=[TN, SSM], mech=[("sparse_lapl_expm / compute_subspace_expm", TN), ("lin_approx_trans_matrix", TN)],
 note=BN + "Matrix exponential as an uninterpreted function with its contract (blocks, rows sum to one). Up to 4 nodes, 3-4 contacts."),
dict(id="P10", title="Transition matrices are the ordered products of the inter-event ones",
 statement="The transition matrix up to each step is the time-ordered product of the inter-event transition matrices (in reverse order for reversed time), in every format, with or without intermediate results, exactly or with small entries dropped relative to the largest and rows renormalised; rows sum to one and the inter-event matrices are left unchanged. Without the needed inter-event matrices the computation is refused.",
 over=["inputs", "configurations"], qtext="all stochastic matrices on the listed edge sets, time directions, formats and tolerances",
 why="tests compare a few products on fixed networks; order, format and thresholding errors cancel on symmetric or commuting examples",
 files=[TN, SSM], mech=[("compute_transition_matrices", TN), ("compute_lin_transition_matrices", TN)],
 note=BN + "2-4 nodes, products of up to 4-5 steps; tolerances below 0.3."),
dict(id="P12", title="A temporal network holds exactly the events it was given",
 statement="Building a temporal network (from lists or an events table, with any node labels, with or without relabelling or extra attributes, continuous or instantaneous) keeps every event with its nodes, times, duration and attributes, numbers the nodes from zero in label order with inverse label maps, and leaves the caller's data unchanged; merging overlapping events leaves, per pair of nodes, exactly the union of the overlapping contacts; the static adjacency is the time each pair spent in contact within the window; inconsistent input is refused.",
 over=["inputs", "configurations"], qtext="all event tables, labels, real-valued times and aggregation windows within the bounds",
 why="tests build a few tables; nested, identical, touching or reordered events and foreign labels or indices are what breaks the bookkeeping",
 files=[TN], mech=[("constructor and relabelling", TN), ("_merge_overlapping_events", TN), ("compute_static_adjacency_matrix", TN)],
 note=BN + "Up to 4 nodes, 3-4 events, 3-6 times; csv input is outside."),
dict(id="P11", title="The flow integral is the time average of the covariance",
 statement="The integral that is clustered equals, for every grid time, the duration-weighted average over all steps so far of the covariance diag(p)T_k diag(p_k)^-1 T_k^T diag(p) - p p^T (T_k the product of the inter-event matrices so far, in reverse order for reversed time), for any transition matrices, initial density, event times, integration grid and matrix format, whether inter-event or accumulated matrices are given; the matrices given are not modified; clustering an integral gives a partition of all nodes whose reported stability is that of the integral. Missing or wrong input is refused.",
 over=["inputs", "configurations"], qtext="all stochastic matrices on the listed edge sets, densities, event times, grids, directions of time and formats",
 why="tests compare stored numbers of one network; order of products, durations, grid bookkeeping and non-uniform densities are not separated there",
 files=[NC, SSM, TN], mech=[("_compute_integrals / FlowIntegralClustering", NC), ("inplace_csr_matmul_diag and outer products", SSM)],
 note=BN + "2-4 nodes, 1-3 steps; square roots are eliminated exactly."),
dict(id="P13", title="What is saved is what is loaded",
 statement="Saving and loading a temporal network or its matrices (whole network at any stage, inter-event or accumulated, exact or linear matrices, one or several rates, compressed file or not, full or differences only, with or without file extension) gives back the same events, labels, window, times, rates and matrices in the same format, except that values below the given tolerance may be dropped; the loaded network computes what the saved one computes; saving leaves the network unchanged; existing files are only replaced when asked for, and different names are different files. Saving what has not been computed is refused.",
 over=["histories", "inputs", "configurations"], qtext="all matrices, event times, stages, options and file names within the bounds",
 why="tests save and load one network with default options; the combinations of options, formats and stages are where data is lost",
 files=[TN, SSM], mech=[("save/load", TN), ("save_inter_T*/load_inter_T, save_T*/load_T", TN), ("to_dict and constructor", SSM)],
 note=BN + "2-4 nodes, 1-4 matrices per rate; real pickle/gzip files in a scratch directory."),
dict(id="P14", title="Pipeline steps run only complete, in order and on current parameters",
 statement="In every history of setting parameters (network, window, time scales, direction; valid, invalid or None; at construction or later) and running steps, each step of the flow stability analysis runs exactly when all its preceding steps have been run since the parameters they depend on last changed and all parameters it needs are set; otherwise it warns, returns nothing and computes nothing. The state, missing parameters and next step reported are the actual ones, invalid values are refused leaving the old ones, and results are those of the current network, window, time scales and direction. The same holds for any class using the state tracking.",
 over=["histories", "inputs", "configurations"], qtext="all histories of operations within the bounds, windows and time scales",
 why="order and staleness are properties of histories; the tests run one sequence",
 files=[FS, ST, TN, NC], mech=[("FlowStability setters and steps", FS), ("StateMeta.register", ST)],
 note=BN + "Any stage followed by two (thorough: three) arbitrary operations."),
dict(id="P15", title="Stored results always belong to the parameters last asked for",
 statement="After any sequence of computations on a temporal network with different windows, rates, formats, step-length options, stationarity times, time directions and intermediate-result options, every matrix the network holds is the one that a fresh network would compute for the options last asked for under its rate (and stationarity time) and for the current window; nothing computed for an earlier window or option is served again, and a product whose inter-event matrices are not there is refused.",
 over=["histories", "configurations"], qtext="all histories of computations within the bounds",
 why="caches keyed by part of the parameters show only in histories that change the other part; tests compute once per network",
 files=[TN], mech=[("_clear_computed_matrices and option records", TN)],
 note=BN + "Histories of 3-4 (thorough: up to 5) computations, 2-3 nodes, 4 event times."),
dict(id="P02", title="Conversions, normalisation and thresholding keep the matrix",
 statement="Compressing a matrix and expanding it again, rebuilding removed rows and columns, diagonal matrices, row normalisation (to a value, to zero, to per-row values; csr, csc and compressed), dropping small or setting near-one values (absolute or relative tolerance, signed or absolute), scaling by a diagonal and the sparse product, Gram and outer products all give exactly the matrix they are defined to give, for every sparsity pattern (empty rows and columns, stored zeros), every value and diagonal value, without changing their arguments unless documented as in-place; wrong types and sizes are refused.",
 over=["inputs"], qtext="all matrices on the sparsity patterns, diagonal values, targets and tolerances within the bounds",
 why="tests convert and normalise a few random matrices; empty rows, zero diagonals, stored zeros and signs are what breaks the index arithmetic",
 files=[SSM, PYX, TN], mech=[("from_full_csr_matrix / rebuild_nnz_rowcol", SSM), ("inplace_csr_row_normalize", PYX), ("set_to_zeroes / set_to_ones / remove_nnz_rowcol", TN)],
 note=BN + "2-4 nodes. MKL's Gram matrices as their documented upper triangle."),
dict(id="P07", title="Partition comparison measures are what they claim to be",
 statement="Normalised variation of information, normalised mutual information and Jaccard distance equal their definitions for every pair of partitions, however they are given (cluster lists, partition objects, node-to-cluster mappings, arbitrary node names, empty clusters), lie between 0 and 1, are symmetric, tell equal from different partitions, satisfy the triangle inequality (variation of information), and the average over a list is the average over pairs; sorting clusters after a model only reorders them and reproduces the model's order.",
 over=["inputs"], qtext="all pairs (triples) of partitions and ways of giving them within the bounds; logarithms symbolic",
 why="tests compare a few pairs with stored numbers; symmetry, bounds and the metric property hold for all pairs or not at all",
 files=[NC, FF], mech=[("norm_var_information / norm_mutual_information / jaccard_distance", NC), ("cython_nvi / cython_nmi", FF), ("sort_clusters", NC)],
 note=BN + "Up to 4 nodes (thorough: 6). Logarithms of rationals as integer combinations of logs of primes with rigorous bounds."),
dict(id="P16", title="Without the optional compiled or MKL packages the results are the same",
 statement="With cython, sparse_dot_mkl or both not installed, the compressed-matrix algebra, conversions, row normalisation, sparse products, covariance sums and elements, stability gains, dense Louvain and partition measures still give the result they are defined to give, i.e. the same as with the packages, for every input.",
 over=["configurations", "inputs"], qtext="all inputs within the bounds of the corresponding property, for each set of missing packages",
 why="the fallback code is a second implementation that the tests, run with the packages installed, touch for a few fixed inputs only",
 files=["src/flowstab/_cython_subst.py", "src/flowstab/_cython_sparse_stoch_subst.py", SSM, NC], mech=[("fallback kernels", "src/flowstab/_cython_subst.py"), ("USE_CYTHON branches", NC)],
 note=BN + "2-3 nodes. Sparse aggregation without cython is declared NotImplementedError and outside."),
dict(id="P17", title="Parallel computations give what the serial ones give",
 statement="Computing matrix exponentials by column or by connected component, repeated Louvain searches and pairwise variations of information in a pool of worker processes gives the result defined for the serial computation (the exponential, thresholded relative to its maximum and row-normalised as asked; per seed the partition and stability of the serial search; one value per sampled pair, in order), for every input, number of workers and assignment of tasks to workers; arguments are left unchanged and no shared state remains.",
 over=["schedules", "inputs", "configurations"], qtext="all matrices, partitions, draws, options and assignments of tasks to workers within the bounds",
 why="tests only import these functions; worker state, shared buffers and task order depend on the schedule",
 files=["src/flowstab/parallel_expm.py", "src/flowstab/parallel_clustering.py", TN], mech=[("worker initialisation and shared buffers", "src/flowstab/parallel_expm.py"), ("compute_parallel_clustering / compute_parallel_nvi", "src/flowstab/parallel_clustering.py"), ("sparse_lapl_expm", TN)],
 note=BN + "2-4 nodes, pools of 1-3 workers; size threshold 1000 read as 2 or 3; workers run one task at a time."),
dict(id="P18", title="Static networks are clustered with their own random walk",
 statement="static_clustering of a dense or sparse, directed or undirected weighted network (self-loops, isolated nodes) sets up the transition matrix of the random walk at the Markov time asked for (power, linearised or exponential; isolated nodes stay put) and its stationary density (proportional to the degree; for strongly connected directed networks the invariant density), so that partitions are scored by that walk's autocovariance; repeating the search gives one valid partition, stability and seed per repetition, each reproducible from its seed; the network is left unchanged and one without edges is refused.",
 over=["inputs", "configurations"], qtext="all networks, weights, Markov times and formats within the bounds",
 why="tests run one undirected example; directed walks, isolated nodes, time 0 and the sparse route differ",
 files=[NC], mech=[("static_clustering", NC), ("run_multi_louvain", NC)],
 note=BN + "2-3 nodes (thorough: 4). Eigenvectors by contract (multiples of the invariant density, any sign and position)."),
dict(id="P19", title="Compiled kernels keep to their buffers and compute their definition",
 statement="Called on any well-formed arrays (empty rows and columns, matrices without rows, stored zeros, columns in any order where sorted order is not documented, empty index sets), every compiled kernel reads and writes only inside the arrays it was given or allocated, never uses memory it has not set, changes only the array it is documented to change in place, returns consistent index arrays, and returns exactly the sum, matrix, gain, covariance or measure it is defined to return.",
 over=["inputs"], qtext="all sparsity patterns, values, index sets, clusters and nodes within the bounds",
 why="the kernels are compiled without bounds checks: a read or write past the end shows in a test only when it happens to hit something",
 files=[PYX, FF, "src/flowstab/sparse_accumulator.cpp"], mech=[("kernels without bounds checks", PYX), ("dense kernels and measures", FF)],
 note=BN + "Up to 3 rows (thorough: 4). Out-of-bounds and uninitialised accesses are detected by the translated kernels' memory views and by the replay build (bounds checks on)."),
dict(id="P20", title="Synthetic temporal networks follow the contact model asked for",
 statement="For any individuals (in any order of their IDs, any groups, own and time-dependent distributions), partner selection method, group probabilities and random draws, a synthetic temporal network records exactly the contacts of its model: each individual activates after its own waiting times until the end; an activation starts a contact with another individual allowed by the method (any, same group, or a group of positive probability at that time) with which it has not already started one that is still going on, whenever there is such a partner; the contact lasts a duration drawn from the source's distribution at its starting time; sources, targets, starts and ends are recorded together, in the order of their ends, once each, for contacts finished by the final time; saved states show the contacts going on. Individuals or groups not numbered from zero are refused.",
 over=["inputs", "configurations"], qtext="all draws of waiting times, durations and partners, individuals, groups and methods within the bounds",
 why="there are no tests of the contact model; the outcome depends on every draw",
 files=["src/flowstab/synth_temp_network.py"], mech=[("SynthTempNetwork.run", "src/flowstab/synth_temp_network.py"), ("get_new_partner", "src/flowstab/synth_temp_network.py")],
 note=BN + "2-4 individuals, up to 2-3 activations each; waiting times within a band around each individual's own."),
dict(id="P21", title="The transition-matrix script computes every slice of the network",
 statement="However the time range is cut (number of slices, slice length, given start and end, bounds stored with the network) and whatever outputs, rates, formats, compression, batches and intervals to skip are asked for, run_laplacians_transmats writes, for every slice, rate and output asked for and for nothing else, one file holding exactly the matrices of that slice: inter-event transition matrices (exponential or linear) with their times, their products forwards and backwards, the flow integrals, and the static adjacency weighted by the time in contact during the slice. Slices follow each other without gap or overlap over the whole range. Running it again restores a lost file with the same content and leaves the others alone.",
 over=["inputs", "configurations", "histories"], qtext="all event times, slice bounds, options and lost files within the bounds",
 why="there are no tests of the scripts; slice bounds relative to the events, options and restarts are where steps are lost or counted twice",
 files=["src/flowstab/scripts/run_laplacians_transmats.py", TN], mech=[("slicing and worker", "src/flowstab/scripts/run_laplacians_transmats.py"), ("compute_* and save_*", TN)],
 note=BN + "3 nodes, up to 3 (thorough: 5) slices; real files in a scratch directory."),
dict(id="P22", title="The integral script computes every covariance integral asked for",
 statement="From the inter-event matrices of the slices, run_cov_integrals writes, for every pair of grid points selected (all, from the start, from the end, both, single intervals; forwards, backwards or both), rate and kind of matrix, and for no other, one file with the upper triangle of the time integral of T(t1,t) diag(p(t))^-1 T(t1,t)^T from the first to the second point (slices chained in order, reversed when going backwards) and its duration. Whatever results or intermediate files are lost, running it again gives the same results.",
 over=["inputs", "configurations", "histories"], qtext="all times, matrices, grids, selections, directions and sets of lost files within the bounds",
 why="there are no tests of the scripts; which matrices are chained in which order between two grid points, and restarting in the middle, depend on the grid and on the files that are there",
 files=["src/flowstab/scripts/run_cov_integrals.py", TN], mech=[("worker: integration over slices and restart", "src/flowstab/scripts/run_cov_integrals.py"), ("load_inter_T / load_T", TN)],
 note=BN + "2-4 nodes, up to 4 slices; real files in a scratch directory."),
dict(id="P23", title="The clustering script reports the partitions of every integral and their scores",
 statement="For every integral file of the network (and direction) asked for, run_clusterings writes one result: every repetition gives a partition in which each node is in exactly one cluster (with separate components, inside its component; with the largest component only, the rest as one node); the stabilities, their average, the best one and the best partition, the counts of the partitions found, the number of clusters, the average variation of information, the components, and the sum and row deviations of the integral (as read, thresholded and after normalisation) are those of the integral in the file with its initial density, whatever the number of processes. Static clustering, when asked for, reports the same for the random walk on the symmetrised static adjacency in its file. Existing results are kept, and a run stopped before the variation of information is resumed with the same result.",
 over=["inputs", "configurations", "histories", "schedules"], qtext="all integrals, densities, draws, options and lost files within the bounds",
 why="there are no tests of the scripts; rescaling, component handling and restarts change the reported scores silently",
 files=["src/flowstab/scripts/run_clusterings.py", NC, SSM], mech=[("load_autocov_int", "src/flowstab/scripts/run_clusterings.py"), ("worker and _compute_*_clustering_fct", "src/flowstab/scripts/run_clusterings.py")],
 note=BN + "2-4 nodes (thorough: 5), 2-3 repetitions; real files in a scratch directory."),
]
