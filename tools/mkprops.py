#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the compact table below."""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(
            files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=None)))


G = "pygsp/graphs/"
F = "pygsp/filters/"

prop("P01", "A graph faithfully represents the adjacency matrix it was built from",
     "Whatever the container (dense, list, any sparse format), data type or edge structure, a graph built from a square finite matrix exposes exactly that weighted adjacency (explicit zeros dropped), and the vertex count, edge count, edge list, binary adjacency, degrees, weighted degrees, weightedness, self-loop and directedness answers are the ones that matrix defines. For undirected graphs each edge is listed and counted once, for directed graphs every arc. Non-square, NaN or infinite matrices and signals of the wrong length are rejected.",
     ["inputs"], "every square matrix of finite weights, in every container and dtype, incl. loops, isolated vertices, negative weights, N=1",
     "tests build a dozen fixed small float matrices; the quantifier ranges over containers, dtypes, structures and weights, and the queries are interdependent.",
     [G + "graph.py"], [("constructor validation and CSR conversion", G + "graph.py:Graph.__init__"), ("edge list from (upper triangle of) W", G + "graph.py:get_edge_list"), ("degree properties", G + "graph.py:d,dw")],
     [("W", "weighted adjacency", G + "graph.py")], ["W", "A", "n_edges", "get_edge_list", "d", "dw"])

prop("P02", "Connectivity, connected components and subgraphs are exact",
     "A graph is reported connected exactly when every vertex reaches every other following edge directions, and the components extracted from an undirected graph are exactly its maximal connected vertex sets, in a partition with correct original indices. A subgraph on any vertex selection (index list in any order, or indicator) is the induced graph in that order: its adjacency, coordinates, signals, plotting options and Laplacian type are those of the selected vertices.",
     ["inputs"], "all graphs (directed and not, any number of components, isolated vertices) and all vertex selections",
     "tests check one hand-made disconnected graph and two subgraph calls; traversal bugs depend on graph shape and vertex numbering.",
     [G + "graph.py"], [("graph traversal", G + "graph.py:is_connected"), ("component extraction", G + "graph.py:extract_components"), ("induced subgraph", G + "graph.py:subgraph")],
     observe=["is_connected", "extract_components", "subgraph"])

prop("P03", "The Laplacian is the one defined by the adjacency matrix",
     "The combinatorial and normalized Laplacians equal degree minus weights, and identity minus the degree-normalized weights, of the (averaged, if directed) adjacency matrix; rows of isolated vertices are zero. They are symmetric, and for non-negative loop-free weights positive semi-definite with the constant vector (respectively the square root of the degrees) in the kernel, and unaffected by reversing all edges.",
     ["inputs", "histories"], "all graphs, both types, requested at construction or later in any order",
     "tests compare to D D^T on a few graphs; dtype, isolated vertices, loops, direction and re-computation are combinatorial.",
     [G + "graph.py", "pygsp/utils.py"], [("Laplacian computation", G + "graph.py:compute_laplacian"), ("symmetrization", "pygsp/utils.py:symmetrize")], observe=["L", "lap_type"])

prop("P04", "The differential operator factors the Laplacian; gradient and divergence",
     "For every graph with non-negative weights the differential operator has one column per edge, aligned with the edge list, with the documented incidence values, and its product with its transpose is the current Laplacian. Gradient and divergence are its transpose and itself applied to signals (adjoint to each other, divergence of gradient equal to the Laplacian), and the Dirichlet energy of a signal is the Laplacian quadratic form, i.e. the squared gradient norm and half the weighted sum of squared differences.",
     ["inputs", "histories"], "all non-negatively weighted graphs, both Laplacian types, 1-D and multi-column signals",
     "tests exercise a fixed list of graphs with one random signal; the identity must hold for all graphs, types and signal shapes.",
     [G + "difference.py", G + "graph.py"], [("incidence construction", G + "difference.py:compute_differential_operator"), ("grad/div", G + "difference.py:grad,div"), ("energy", G + "graph.py:dirichlet_energy")], observe=["D", "grad", "div", "dirichlet_energy"])

prop("P05", "The Fourier basis is a sorted orthonormal eigenbasis of the Laplacian",
     "After computing the full Fourier basis the eigenvectors are orthonormal columns that diagonalize the current Laplacian, the eigenvalues are its eigenvalues in ascending order starting at zero, the largest frequency is the last eigenvalue, and the coherence is the largest absolute entry of the basis, within its documented range. A partial basis of k vectors holds the k smallest eigenpairs in the same order, and asking for fewer than available keeps what is there.",
     ["inputs", "histories"], "all graphs of non-negative weights (connected or not, directed or not, any weight scale), both Laplacian types, all basis sizes",
     "tests check a handful of named graphs; degenerate spectra, isolated vertices, scale and partial-then-full request orders are not covered.",
     [G + "fourier.py"], [("eigendecomposition", G + "fourier.py:compute_fourier_basis"), ("coherence", G + "fourier.py:compute_fourier_basis")], [("U, e, coherence", "cached Fourier basis", G + "fourier.py")], ["U", "e", "coherence", "lmax"])

prop("P06", "The graph Fourier transform is a linear isometry with exact inverse",
     "For signals of any trailing shape and dtype, the forward transform is the correlation with each Fourier mode, the inverse transform is the synthesis from the modes, each undoes the other, both preserve energy and inner products, and trailing dimensions are processed independently. Arrays whose first dimension is not the number of vertices are rejected.",
     ["inputs"], "all signals (1-D to 4-D, real or complex, integer or float) on all graphs",
     "tests use one random 1-D/2-D signal on the logo graph.",
     [G + "fourier.py"], [("tensor contraction with the basis", G + "fourier.py:gft,igft")], observe=["gft", "igft"])

prop("P07", "Estimated largest frequency always covers the spectrum",
     "The largest-frequency value is exact after a full Fourier basis; when estimated by bounds it is never below the true largest Laplacian eigenvalue; when estimated by Lanczos (a randomized solver) it lies, but for rare misconvergence, within a few percent of the true value and never exceeds 1.01 times it. This holds for every graph with non-negative weights whatever their scale, and unknown methods are rejected.",
     ["inputs", "histories"], "all non-negatively weighted graphs, both Laplacian types, both methods, in any order",
     "tests check a few unit-scale graphs; bounds and tolerances behave differently with scale, isolated vertices, tiny graphs.",
     [G + "graph.py"], [("Lanczos estimate", G + "graph.py:estimate_lmax"), ("algebraic bounds", G + "graph.py:_get_upper_bound")], observe=["lmax", "estimate_lmax"])

prop("P08", "Cached spectral data never goes stale over any sequence of operations",
     "After any sequence of Laplacian switches, Fourier-basis, differential-operator and largest-frequency computations, property reads, filterings, plots, exports and failed calls, every spectral quantity a graph reports agrees with a freshly built graph of the same adjacency and current Laplacian type. Read-only operations change neither the adjacency, the signals nor the coordinates, and a call rejected with an error leaves the graph as it was.",
     ["histories"], "all finite sequences of public graph operations, including failing ones",
     "tests call each method once or twice on fresh objects; staleness only shows in multi-step histories.",
     [G + "graph.py", G + "fourier.py", G + "difference.py"], [("cache invalidation on Laplacian change", G + "graph.py:compute_laplacian"), ("lazy properties", G + "fourier.py:_check_fourier_properties"), ("estimate caching", G + "graph.py:estimate_lmax")],
     [("cached attributes", "lazily computed spectral data", G + "graph.py:Graph.__init__")], ["U", "e", "lmax", "D", "L", "coherence"])

prop("P09", "Exact filtering applies the kernels to the Laplacian spectrum",
     "Filtering with the exact method returns, for each kernel, the kernel applied to the Laplacian eigenvalues in the Fourier domain, for analysis (one feature in, one feature per filter out) and synthesis (one feature per filter in, their filtered sum out). Analysis and synthesis are linear and adjoint to each other, signals in a batch are processed independently, output shapes follow the documented nodes-by-signals-by-features convention with singleton axes removed, and malformed shapes or methods are rejected.",
     ["inputs"], "all filter banks, graphs, and signal tensors of every admissible layout",
     "tests check a few banks on one graph; the layout logic has many shape-dependent branches (one signal vs many, one filter vs many, N signals equal to number of filters).",
     [F + "filter.py"], [("shape normalisation and spectral multiplication", F + "filter.py:Filter.filter")], observe=["filter", "analyze", "synthesize"])

prop("P10", "Chebyshev filtering approximates exact filtering",
     "With the polynomial method any kernel that is a polynomial of degree at most the order is applied exactly, other kernels with the error of their Chebyshev interpolation, in analysis and synthesis and for every signal layout, given a largest-frequency value that covers the spectrum. The low-level polynomial tools agree: computed coefficients are the Chebyshev coefficients of each kernel on the spectral interval, applying coefficients evaluates that polynomial of the Laplacian, and the rectangular and Jackson variants are the truncated expansions of the ideal band-pass.",
     ["inputs"], "all kernels, orders, filter-bank sizes, signal shapes, estimated or exact spectral intervals",
     "tests compare to exact with one smooth filter and loose tolerance; polynomial exactness for all orders and layouts is not tested.",
     [F + "approximations.py", F + "filter.py"], [("quadrature coefficients", F + "approximations.py:compute_cheby_coeff"), ("three-term recurrence", F + "approximations.py:cheby_op,cheby_rect"), ("jackson damping", F + "approximations.py:compute_jackson_cheby_coeff")], observe=["filter(method='chebyshev')"])

prop("P11", "Frame matrices, localized atoms and frame bounds describe the filter bank",
     "The frame matrix stacks, filter by filter, the analysis operator of the bank, so that multiplying it with a signal gives the analysis coefficients and its transpose gives synthesis; a localized kernel is the (scaled) corresponding row of that operator. The frame bounds evaluated on the eigenvalues are the extreme eigenvalues of the frame operator and bracket the energy of the coefficients of every signal; the default estimate never lies outside the kernel's range on the spectral interval.",
     ["inputs"], "all filter banks, graphs, vertices, signals and methods",
     "tests check the identity for a few banks on one graph with one signal.",
     [F + "filter.py", "pygsp/features.py"], [("delta filtering", F + "filter.py:compute_frame,localize"), ("bounds", F + "filter.py:estimate_frame_bounds")], observe=["compute_frame", "toarray", "localize", "estimate_frame_bounds"])

prop("P12", "Filter banks documented as tight frames are tight, for every parameter",
     "Every filter bank documented as a tight frame has a constant sum of squared responses over the whole spectral interval for every admissible number of filters, (even) overlap, degree or cut-off, so analysis followed by synthesis returns the signal times the frame bound. This holds at every eigenvalue of every graph, including eigenvalues that are zero up to rounding.",
     ["inputs", "configurations"], "all parameters of the half-cosine, itersine, Meyer, simple-tight, regular, Held, Simoncelli and Papadakis constructions, all graphs",
     "tests evaluate default parameters on one graph.",
     [F + "halfcosine.py", F + "itersine.py", F + "meyer.py", F + "simpletight.py", F + "regular.py", F + "held.py", F + "simoncelli.py", F + "papadakis.py"],
     [("kernel partition of unity", F + "*.py"), ("complement", F + "filter.py:complement")], observe=["evaluate", "filter"])

prop("P13", "Complementing makes a bank tight and inverting it reconstructs signals",
     "The complement of any filter bank, added to it, makes the sum of squared responses constant on the evaluated frequencies, equal to the requested bound or the smallest feasible one, and infeasible bounds are refused. The inverse bank composed with the bank is the identity for frames and the orthogonal projection onto what the bank can see otherwise, with reciprocal frame bounds.",
     ["inputs"], "all filter banks (including rank-deficient ones), bounds and graphs",
     "tests use three banks with default options.",
     [F + "filter.py"], [("complementary kernel", F + "filter.py:complement"), ("pseudo-inverse kernel", F + "filter.py:inverse")], observe=["complement", "inverse"])

prop("P14", "Filter banks compose like lists of kernels bound to a graph",
     "Evaluating a bank at frequencies of any array shape gives one response per filter with that shape; indexing or slicing selects the filters in order, adding concatenates banks without altering the operands, length is the number of filters, calling with a graph rebinds the same kernels and with an array evaluates, and the matrix-product operator filters. Filters of a bank act independently: the response or output of a bank is the collection of those of its members.",
     ["inputs", "histories"], "all banks and compositions of indexing, slicing, addition, rebinding and evaluation",
     "tests check a couple of sums and slices on fixed banks.",
     [F + "filter.py"], [("container protocol", F + "filter.py:__getitem__,__add__,__call__,__len__,evaluate")], observe=["evaluate", "__getitem__", "__add__"])

prop("P15", "Named filters realise their documented spectral formulas",
     "Every filter class evaluates, for all its parameters and at all frequencies of the spectral interval, to its documented formula: heat, wave, rectangular, exponential window, Mexican hat, spline and Meyer wavelets, half-cosine, itersine, regular, Held, Simoncelli, Papadakis and simple tight kernels, scaled by the graph's largest frequency where so documented. Scalar and iterable parameters give one filter per value, normalization has unit norm, and inadmissible parameters are rejected.",
     ["inputs", "configurations"], "all filter classes, parameter values, graphs and frequencies",
     "tests only check shapes and approximate filtering for defaults.",
     [F + "*.py"], [("kernel closures", F + "*.py")], observe=["evaluate"])

prop("P16", "Vertex-frequency analyses equal their definitions",
     "The Gabor bank has one filter per eigenvalue whose response is the kernel translated to it; the modulation bank computes the windowed graph Fourier transform (localize first) or the modulated kernels (modulate first). The spectrogram, atoms and their norms returned by the feature functions equal the localized-kernel definitions for every kernel, shift grid and filtering option, and the average neighbour degree is the documented average.",
     ["inputs"], "all kernels, graphs and signals",
     "tests compare Gabor and modulation on one graph; features are hardly tested.",
     [F + "gabor.py", F + "modulation.py", "pygsp/features.py"], [("translated kernels", F + "gabor.py"), ("modulation", F + "modulation.py"), ("features", "pygsp/features.py")], observe=["filter", "compute_spectrogram"])

prop("P17", "Interchange with NetworkX and graph-tool is lossless",
     "Exporting a graph to NetworkX or graph-tool yields the same vertices, edges, directedness and weights, with every signal as a node attribute, and importing it back gives the same adjacency and signals (multi-dimensional ones re-joined in order). Importing any external graph follows its node order, sums parallel edges, uses unit weights when the weight attribute is missing or none is asked for, and marks missing node attributes as NaN.",
     ["inputs"], "all graphs (isolated vertices, loops, directed, disconnected) with any set of 1-D and 2-D signals, and all NetworkX / graph-tool graphs",
     "tests round-trip one graph with a few signals; isolated vertices, loops, ten or more dimensions, name clashes are not covered.",
     [G + "_io.py"], [("export", G + "_io.py:to_networkx,to_graphtool"), ("import", G + "_io.py:from_networkx,from_graphtool"), ("signal splitting/joining", G + "_io.py:_break_signals,_join_signals")], observe=["to_networkx", "from_networkx", "to_graphtool", "from_graphtool"])

prop("P18", "Saving and loading with one backend is lossless",
     "For each supported combination of file format and backend, saving a graph and loading the file back with the same backend gives the same adjacency matrix, directedness and signals (up to the documented rounding for GML through graph-tool). The format is taken from the argument or else the file extension, and unsupported formats or backends are rejected without leaving the graph changed.",
     ["inputs", "configurations"], "all graphs and signals, formats graphml, gml, gexf, backends networkx and graph-tool",
     "tests save one graph per format; vertex order past ten vertices, isolated vertices, integer weights and signal kinds are not varied.",
     [G + "_io.py"], [("save/load dispatch", G + "_io.py:save,load")], observe=["save", "load"])

prop("P19", "Deterministic graph models have exactly the documented structure",
     "Path, ring, grid, torus, star, comet, full, low-stretch-tree and line graphs have, for every size and option, exactly the vertex set, edges, weights, coordinates and directedness their definition prescribes, e.g. grids and tori are Kronecker sums of paths and rings and a line graph connects edges sharing a vertex. The models from data files are the fixed graphs they document, and impossible parameters are rejected.",
     ["inputs", "configurations"], "all admissible sizes and options of each model",
     "tests build each model at one or two sizes and mostly only check that construction works.",
     [G + "path.py", G + "ring.py", G + "grid2d.py", G + "torus.py", G + "star.py", G + "comet.py", G + "fullconnected.py", G + "lowstretchtree.py", G + "linegraph.py", G + "randomring.py", G + "airfoil.py", G + "logo.py", G + "minnesota.py"],
     [("index arithmetic", G + "*.py")], observe=["W", "coords"])

prop("P20", "Random graph models satisfy their structural guarantees",
     "For every seed and parameters: random regular graphs that report no failure are simple and k-regular, Barabasi-Albert graphs grow by exactly m edges per new vertex, stochastic-block and Erdos-Renyi graphs respect block probabilities, directedness, loop and connectedness options, community graphs respect sizes, densities and neighbour rules, random rings weight edges by inverse angular distance, and the geometric models place and link their points as documented. Over many seeds, all the pairs of vertices, classes and regions that play the same role come equally often. Impossible parameters are rejected.",
     ["inputs", "configurations"], "all parameters and seeds of each random model",
     "tests sample few seeds and mostly check sizes.",
     [G + "randomregular.py", G + "barabasialbert.py", G + "stochasticblockmodel.py", G + "erdosrenyi.py", G + "community.py", G + "randomring.py", G + "swissroll.py", G + "davidsensornet.py", G + "nngraphs/*.py"],
     [("sampling loops", G + "*.py")], observe=["W", "coords", "info"])

prop("P21", "Nearest-neighbour graphs link the true neighbours with the right weights",
     "For any point set and options, a k-nearest or radius neighbour graph links exactly the pairs that brute-force distance computation gives in the chosen metric, weighted by the Gaussian of the distance with the given or mean-distance width, symmetrized by the requested rule, without self-loops. Centering and rescaling are applied to the points as requested and reflected in the coordinates; patch graphs use the image patches as points, and too many neighbours, or no neighbour from which to infer the width, are rejected.",
     ["inputs", "configurations"], "all point clouds, metrics, neighbourhood types, k, radius, widths, symmetrizations",
     "tests only check that the variants run and that two implementations agree on one cloud.",
     [G + "nngraphs/nngraph.py", G + "nngraphs/imgpatches.py", G + "nngraphs/grid2dimgpatches.py"], [("neighbour search and kernel", G + "nngraphs/nngraph.py:NNGraph.__init__"), ("patch extraction", G + "nngraphs/imgpatches.py")], observe=["W", "coords", "sigma"])

prop("P22", "Seeded randomness is reproducible and isolated",
     "Every random construction (graph models, layouts, sparsification) called twice with the same seed and parameters gives identical results, whatever random numbers were drawn elsewhere, and different seeds give different draws. No seeded or deterministic operation reads or changes the global random state of the process.",
     ["inputs", "histories"], "all seeded operations, seeds and interleavings with other random draws",
     "tests hardly compare two constructions and never watch the global random state.",
     [G + "*.py", G + "_layout.py", "pygsp/reduction.py"], [("local generators", G + "*.py")], observe=["W", "coords", "np.random state"])

prop("P23", "Kron reduction and sparsification preserve the graph's electrical structure",
     "Kron reduction of a graph or matrix on any kept vertex set is the Schur complement with respect to those vertices: the reduced Laplacian is symmetric with zero row sums, keeps effective resistances between kept vertices, and connectedness. Spectral sparsification of a connected undirected graph keeps the vertex set, only uses existing edges, with non-negative and unbiased weights that conserve the sum of weight times effective resistance, and returns a Laplacian when given one; resistance distances are the true effective resistances.",
     ["inputs"], "all connected undirected non-negatively weighted graphs, all kept subsets, all admissible accuracy parameters",
     "tests only run these on one graph for one subset (or not at all).",
     ["pygsp/reduction.py", "pygsp/utils.py"], [("Schur complement", "pygsp/reduction.py:kron_reduction"), ("sampling by effective resistance", "pygsp/reduction.py:graph_sparsify"), ("resistance", "pygsp/utils.py:resistance_distance")], observe=["kron_reduction", "graph_sparsify", "resistance_distance"])

prop("P24", "Graph pyramids reconstruct signals perfectly",
     "A multiresolution keeps at each level the vertices where the highest-frequency mode has the sign of its first entry (always fewer than before, unless a single one is left), reduced by Kron reduction, with index maps back to the original graph and the regularized reduction and Green kernel of every level, without altering the input graph's spectral data. Interpolation solves the regularized Green-function system, and pyramid synthesis with the same options exactly inverts pyramid analysis for every signal, filter list and number of levels.",
     ["inputs", "histories"], "all graphs, signals, level counts, analysis filters and filtering methods",
     "tests cover one ring and one signal in doctests only.",
     ["pygsp/reduction.py"], [("polarity downsampling", "pygsp/reduction.py:graph_multiresolution"), ("prediction error coding", "pygsp/reduction.py:pyramid_analysis,pyramid_synthesis"), ("Green interpolation", "pygsp/reduction.py:interpolate")], observe=["graph_multiresolution", "pyramid_analysis", "pyramid_synthesis", "interpolate"])

prop("P25", "Semi-supervised solvers return the optimum of their stated problem",
     "Tikhonov regression minimizes the stated regularized objective, or with zero regularization interpolates the measured values exactly with the smoothest extension; classification solves the same problem per class logit. The simplex variant returns logits on the probability simplex whose objective is the constrained minimum, and non-positive regularization is rejected there. The total-variation proximal operator minimizes its stated objective.",
     ["inputs"], "all graphs, masks covering every component, real or class signals (1-D or multi-column), regularization values",
     "tests use one sensor graph with one mask and loose comparisons.",
     ["pygsp/learning.py"], [("CG / direct solve", "pygsp/learning.py:regression_tikhonov"), ("logits", "pygsp/learning.py:classification_tikhonov"), ("forward-backward splitting", "pygsp/learning.py:classification_tikhonov_simplex")], observe=["return values"])

prop("P26", "Utility functions compute what they document",
     "Symmetrization gives, for dense and sparse inputs alike, the documented symmetric matrix of each method; pairwise distances are Euclidean distances between columns; rescaling centers each row and scales the maximum to one; log scales are geometrically spaced between the documented ends; per-filter helpers return one result per filter. None of them modifies its argument.",
     ["inputs"], "all matrices (negative, asymmetric, integer or float), scales and filter banks",
     "tests check one 3x3 matrix per method.",
     ["pygsp/utils.py"], [("symmetrize", "pygsp/utils.py:symmetrize"), ("distanz", "pygsp/utils.py:distanz"), ("filterbank_handler", "pygsp/utils.py:filterbank_handler")], observe=["return values"])

prop("P27", "Layouts give every vertex the documented coordinates",
     "Setting coordinates by name or by array gives one finite coordinate of the right dimension per vertex: lines, rings, random boxes, spectral embeddings from the first non-trivial eigenvectors, spring layouts centred and scaled as asked and keeping fixed vertices in place, communities placed around their centres. Arrays of the wrong shape and unknown layouts are rejected leaving the coordinates as they were.",
     ["inputs", "configurations"], "all layout kinds, options, graphs and coordinate arrays",
     "tests check a few shapes on the logo graph.",
     [G + "_layout.py"], [("layout dispatch", G + "_layout.py:set_coordinates"), ("spring layout", G + "_layout.py:_fruchterman_reingold")], observe=["coords"])

prop("P28", "Library calls never modify the caller's arrays, graphs or filters",
     "Arrays, matrices, lists and dictionaries passed to any constructor, filter, solver, reduction or utility are left unchanged, and so are graphs and filter banks passed as inputs except for their cached spectral data. Results returned by filtering, transforms and solvers are independent of the inputs, so modifying one does not change the other, and default arguments are not shared between calls.",
     ["inputs", "histories"], "all public functions, argument kinds and repeated calls",
     "no test compares arguments before and after; aliasing shows only on later use.",
     ["pygsp/graphs/*.py", F + "*.py", "pygsp/learning.py", "pygsp/reduction.py", "pygsp/utils.py"], [("copies at the boundary", "throughout")], observe=["arguments before/after"])

prop("P29", "Results are equivariant to vertex relabelling and weight scaling",
     "Relabelling the vertices of a graph permutes Laplacians, degrees, filtered signals, gradients energies, reconstructions and frame matrices accordingly and leaves spectra, bounds, connectivity and edge counts unchanged. Multiplying all weights by a positive factor scales the combinatorial spectrum by it, leaves the normalized Laplacian unchanged, and leaves the output of filters defined on relative frequencies unchanged.",
     ["inputs"], "all graphs, permutations, positive scale factors, filters and signals",
     "tests never relate two runs; relabelling exposes order-dependent code.",
     ["pygsp/graphs/graph.py", F + "filter.py", "pygsp/learning.py"], [("matrix formulation", "throughout")], observe=["spectra", "filter", "regression"])

prop("P30", "Plots show the graph's and filter's actual data and change nothing",
     "A drawn graph shows every vertex at its coordinates, every edge between its endpoints when edges are shown, colours and sizes following the given signal and limits, and highlighted vertices; filter plots show each kernel's true response over the spectral interval and the sum of squares, and spectrogram plots the stored values. Plotting leaves the graph, filter and arguments unchanged, and invalid arguments are rejected.",
     ["inputs", "configurations"], "all graphs with 1-D, 2-D or 3-D coordinates, signals, colours, sizes, highlights and options",
     "tests mostly check that plotting does not crash.",
     ["pygsp/plotting.py"], [("matplotlib drawing", "pygsp/plotting.py:_plt_plot_graph"), ("filter plot", "pygsp/plotting.py:_plot_filter")], observe=["matplotlib artists"])

prop("P31", "A call that fails raises and leaves every object as it was",
     "Whenever a call is rejected or fails part-way (invalid argument, user kernel raising, failing numerical routine, unreadable or unwritable file), it raises an exception instead of returning a wrong result. Graphs, filter banks, arguments, the global random state and process settings then hold what they held before, except that an empty cache may have been filled with its correct value or an estimate made exact, and the same objects give correct answers afterwards.",
     ["inputs", "fault_sequences", "histories"], "all public calls, invalid arguments and points of failure, on graphs with any caches filled",
     "tests check that an exception is raised, never what the objects hold after it.",
     ["pygsp/graphs/graph.py", G + "fourier.py", G + "_io.py", G + "_layout.py", F + "*.py", "pygsp/learning.py", "pygsp/reduction.py", "pygsp/plotting.py"],
     [("validation before assignment", "throughout"), ("caches", G + "fourier.py")], observe=["vars(G) before and after", "exceptions"])

prop("P32", "Attributes and representations truthfully describe every object",
     "The representation of a graph, filter bank or derived graph names its class and lists each documented parameter with the value it was built with (or the documented default), together with the true numbers of vertices, edges, filters and features. Documented attributes hold those same values, also for graphs and filters derived from others.",
     ["inputs", "configurations"], "all graph models and filter banks, all parameter values, and objects derived from them",
     "tests never read a representation or a stored parameter.",
     [G + "graph.py", G + "*.py", F + "*.py"], [("extra representation", G + "*.py:_get_extra_repr"), ("representation", G + "graph.py:__repr__")], observe=["repr", "attributes"])

prop("P33", "Sparse graphs are processed in memory linear in vertices and edges",
     "Construction, Laplacians, differential operators, connectivity, subgraphs, estimates of the largest frequency, polynomial filtering, filter design, sparse learning, layouts, conversions, files, neighbour searches and the structured graph models use memory that grows linearly with vertices plus edges, and keep every exposed matrix sparse. No such operation builds a dense matrix over vertex pairs.",
     ["inputs"], "all large sparse graphs of bounded density and all operations not documented as dense",
     "tests run on tiny graphs, where a dense matrix goes unnoticed.",
     ["pygsp/graphs/graph.py", G + "difference.py", F + "approximations.py", "pygsp/learning.py", "pygsp/utils.py", G + "*.py"],
     [("sparse matrices throughout", G + "graph.py"), ("Chebyshev recurrence", F + "approximations.py:cheby_op")], observe=["tracemalloc peak", "sparse.issparse"])

prop("P34", "Results depend on the values of arguments, not their representation",
     "Every public function gives the same answer, up to the precision of the type, whether its numerical arguments come as integers or floats of any width, in C or Fortran order, as strided, reversed, read-only, unaligned or byte-swapped arrays, in any sparse format where sparse matrices are accepted, as lists or tuples where array_like, list or iterable is documented, and scalars as Python or NumPy numbers.",
     ["inputs"], "all public functions, argument values and representations able to hold those values exactly",
     "tests pass contiguous float64 arrays nearly everywhere.",
     ["pygsp/graphs/*.py", F + "*.py", "pygsp/learning.py", "pygsp/reduction.py", "pygsp/utils.py", "pygsp/plotting.py"],
     [("conversion at the boundary", "throughout")], observe=["return values"])

prop("P35", "Copied and pickled graphs and filters are equal and independent",
     "Copying, deep-copying or pickling a graph, in any state of its caches, leaves the original untouched and gives a graph of the same type with equal attributes that answers every question as the original does. Deep and pickled copies are independent: whatever is done to one never shows in the other. Copies of filter banks evaluate and filter like the original.",
     ["inputs", "histories"], "all graph models and filter banks, cache states, ways of copying and later histories",
     "tests never copy or pickle an object.",
     ["pygsp/graphs/graph.py", G + "fourier.py", G + "*.py", F + "filter.py"], [("instance state", G + "graph.py"), ("lazy caches", G + "fourier.py")], observe=["vars(G)", "answers of both"])

prop("P36", "Computations running in several threads give their sequential results",
     "Threads that filter, transform, differentiate, solve, reduce, convert, save or build graphs at the same time, each on its own graph or on one shared graph whose spectral data was computed before, get the results they get alone, without errors. The shared graph is unchanged, as is every later sequential computation: no hidden state is shared between calls.",
     ["schedules", "inputs"], "all interleavings of any set of such calls",
     "tests are sequential.",
     ["pygsp/learning.py", F + "*.py", G + "*.py", "pygsp/reduction.py", "pygsp/utils.py"], [("absence of module-level mutable state", "throughout"), ("solver objects", "pygsp/learning.py:classification_tikhonov_simplex")], observe=["results per thread", "schedules"])

prop("P37", "Optional dependencies are optional",
     "With any subset of matplotlib, pyqtgraph, NetworkX, graph-tool, FLANN, scikit-learn, PyUNLocBoX and scikit-image missing or failing to import (whatever they raise), the library imports, and everything that does not need them gives the same answers as with all of them. An operation that needs a missing one raises an ImportError which names it, and leaves the graph unchanged and no file behind. Where there are alternatives the next one is used: NetworkX then graph-tool to save and load files (also files written by other tools, whose vertices are named), FLANN then scikit-learn then SciPy for nearest neighbours, the last two being exact for every distance. A dependency that becomes importable is used by the next call.",
     ["inputs", "configurations"], "all subsets of missing dependencies, all ways they fail, all sequences of operations",
     "tests run with everything installed.",
     ["pygsp/plotting.py", "pygsp/graphs/_io.py", "pygsp/graphs/nngraphs/nngraph.py", "pygsp/learning.py", G + "nngraphs/imgpatches.py"], [("lazy imports", "pygsp/plotting.py:_import_plt, pygsp/graphs/_io.py:_import_networkx"), ("fallback chain", "pygsp/graphs/nngraphs/nngraph.py:NNGraph.__init__")], observe=["values", "exceptions", "files", "sys.modules"])

prop("P38", "Answers depend on the arguments, not on the process or its past",
     "A call gives the same answer, or the same kind of error, whatever other calls the process made before it and in which order, successful or rejected, on the same kind of graphs (same size, pattern, sums, coordinates or memory address) or with other parameters; and whatever the process: its hash seed, locale, time zone, working directory, optimization flags that strip assertions and docstrings, garbage collection, logging and printing options, floating-point error handling that only warns, the thread which calls and the state of the global random generators. This holds for queries, spectral data, filtering, learning, reduction, models with seeds, and graphs saved to files and loaded.",
     ["inputs", "histories", "configurations"], "all calls, histories before them and process environments",
     "tests run in one process, each call once, in one order.",
     ["pygsp/utils.py", G + "*.py", F + "*.py", "pygsp/learning.py", "pygsp/reduction.py", "pygsp/features.py"], [("caches belong to one graph", "pygsp/graphs/graph.py, pygsp/graphs/fourier.py"), ("absence of module-level state", "throughout")], observe=["values", "exceptions"])

prop("P39", "Omitted arguments act as their documented defaults, positions as names",
     "For every graph model, filter bank, method and function, a call which omits optional arguments gives the answer, or the kind of error, of the call which passes their documented default values, whatever the other arguments; defaults documented in terms of other arguments follow those. Arguments passed by position in the documented order, by name in any order, or by a mix of both mean the same. A random model or layout for which no seed is given is drawn anew at every call.",
     ["inputs"], "all public callables, all subsets of omitted arguments, all values of the others, all ways to pass them",
     "tests call most functions with a single combination of arguments, and compare the answer to nothing else.",
     ["pygsp/graphs/graph.py", G + "*.py", F + "*.py", "pygsp/learning.py", "pygsp/reduction.py", "pygsp/utils.py", "pygsp/features.py", "pygsp/plotting.py"],
     [("signatures and None placeholders", "throughout")], observe=["return values", "exceptions", "rendered figures"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
