HOOKS = None
NOT_APPLICABLE = {}
PROPERTIES = []
def P(id, title, statement, over, qtext, why, files, mech, note, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if observe: a['observe_at'] = observe
    PROPERTIES.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why, 'anchors': a, 'level_note': note})

P('P03', 'Space-filling-curve order, buckets and neighbourhoods are exact',
  'For every dimension, depth and point cloud, the space-filling curve is a bijection between bucket numbers and grid cells in which consecutive numbers are face neighbours and the children of a bucket are contiguous; every point is assigned the bucket of the cell that contains it, on every process and thread count. Iterating a refined curve visits each leaf of the range exactly once in order, and the neighbours reported for a bucket are exactly the leaves that touch it, with no reported bucket straddling a process border.',
  ['inputs', 'configurations'], 'all bucket numbers and cells at a depth, all points of the bounding box, all refinements and process borders',
  'tests only run whole simulations on generated meshes; a wrong bucket or a missing neighbour only shows for particular geometries and process borders',
  ['src/basis/sfc/hilbertcurve.cpp', 'src/basis/sfc/spacefillingcurve.cpp', 'src/basis/sfc/spacefillingcurve.h'],
  [('HilbertCurve::D1toD2/D2toD1/D1toD3/D3toD1', 'src/basis/sfc/hilbertcurve.cpp'), ('SpaceFillingCurve::getBucket, iterateBuckets, add*Neighbors', 'src/basis/sfc/spacefillingcurve.{h,cpp}')],
  'symbolic execution with exhaustive exploration of all paths within the stated depths')
P('P01', 'Structural matrix operations keep exactly the prescribed entries',
  'Converting a sparse or dense matrix between row, column and dense storage, copying, transposing, permuting, extracting or inserting a submatrix, splitting into or joining from blocks, completing a triangle, removing empty rows and columns and listing first/last entries produces a valid matrix whose entries are exactly those the operation prescribes. This holds for every sparsity pattern (empty rows and columns included), storage order, leading dimension, real or complex values, and also when the values are replayed later through a precomputed map; entries the operation must not touch (the other triangle, the padding of a leading dimension) stay as they were.',
  ['inputs', 'configurations'], 'all sparsity patterns and values up to the stated sizes, all storage orders, triangles, permutations and subsets',
  'the tests run whole FETI simulations on a few cubes, where the matrices always have the same benign structure; empty rows, rectangular shapes, column order and complex values never occur',
  ['src/math/operations', 'src/math/primitives_new'],
  [('convert_*, copy_*, permute_*, submatrix_*, supermatrix_*, quadrisect/concat, complete_*, prune_*, pivots_trails, transpose_*', 'src/math/operations')],
  'every path of the operations on symbolic values over all patterns within the bound; the entries are compared by the solver with a direct table')
P('P02', 'Matrix products, solves and combinations equal their definition',
  'Sparse and dense products, matrix-vector products, symmetric rank-k updates, linear combinations and triangular solves return the value of their mathematical definition, for every storage order, coefficient, aliasing and sparsity pattern, real or complex. The blocked and pruned variants return the same result for every chunk size, partitioning strategy and order of splitting, and leave entries outside the updated part unchanged.',
  ['inputs', 'configurations'], 'all patterns, values, orders and chunkings up to the stated sizes, in exact real arithmetic',
  'tests compare one FETI solution per configuration with a stored result; chunkings, orders and patterns that do not occur for a cube are never run',
  ['src/math/operations', 'src/wrappers/mkl', 'src/math/primitives_new'],
  [('gemm_*, gemv_csx, herk_*, trsm_*, lincomb_*', 'src/math/operations'), ('MKL wrappers', 'src/wrappers/mkl/w.mkl.{blas,spblas}.cpp')],
  'symbolic execution over exact reals; BLAS and sparse BLAS kernels replaced by reference implementations, native replay uses MKL')
P('P04', 'Distributed data exchange delivers every value once to its owner',
  'For every number of processes, message size, neighbour relation and arrival order of messages, the collective helpers (neighbour exchange, receive from lower/upper, gather, scatter, broadcast, all-to-all, balancing, offsets, reductions, splitter computation) finish and leave on every process exactly the data their definition assigns to it, in rank order. Repeated calls and both synchronous and buffered sends give the same result, and messages of two exchanges never mix.',
  ['schedules', 'inputs', 'configurations'], 'all message contents and sizes up to the bound, all neighbour graphs, 1-5 processes, all matchings of wildcard receives, synchronous and buffered sends',
  'tests run with a fixed number of processes and one schedule; they cannot cover message sizes, graphs and arrival orders',
  ['src/wrappers/mpi/communication.cpp', 'src/wrappers/mpi/communication.hpp', 'src/wrappers/mpi/communication.h', 'src/esinfo/mpiinfo.cpp'],
  [('Communication::*', 'src/wrappers/mpi'), ('MPISubset/MPIGroup', 'src/wrappers/mpi/communication.h')],
  'explicit message matching by choice variables in a mini-MPI executed with the code; data symbolic')
P('P05', 'Threaded containers and merge helpers keep all data for any split',
  'Data stored per thread keep every element exactly once and in order when they are balanced, permuted, copied, moved, iterated (from both ends and by random access) or concatenated, for every number of threads including threads without data. The partition, prefix-sum, sort, merge, duplicate-removal and rounding helpers return the result of their sequential definition for every split into threads.',
  ['inputs', 'configurations'], 'all values and all splits of the data among threads up to the bound',
  'tests use a fixed thread count and always non-empty parts; the helpers have no unit tests',
  ['src/basis/containers/serializededata.h', 'src/basis/containers/tarray.hpp', 'src/basis/utilities/utils.hpp'],
  [('serializededata', 'src/basis/containers/serializededata.h'), ('tarray', 'src/basis/containers/tarray.hpp'), ('utils::*', 'src/basis/utilities/utils.hpp')],
  'symbolic values, all splits enumerated by symbolic choices')
P('P06', 'Serialised data are restored exactly on the receiving side',
  'Packing any supported value (basic values, strings, nested vectors, per-thread arrays including their alignment and thread borders, containers of element data, mesh stores, named results, records of result statistics) and unpacking it restores every transferred quantity exactly. The announced size equals the number of bytes written and read for every content, including empty vectors, strings, threads and absent containers, so that values packed one after another never shift. Unpacking over existing content replaces it and never shares memory with the source.',
  ['inputs'], 'all contents and sizes up to the bound, all combinations of empty and absent parts',
  'tests only pass whole meshes with every store filled; empty or absent parts and repeated unpacking are not run',
  ['src/basis/utilities/packing.h', 'src/basis/containers/tarray.h', 'src/basis/containers/serializededata.h', 'src/mesh/store'],
  [('utils::packedSize/pack/unpack', 'src/basis/utilities/packing.h'), ('*Store::packedFullSize/packFull/unpackFull, packedDataSize/packData/unpackData', 'src/mesh/store')],
  'symbolic contents, all shapes within the bound')
P('P07', 'Parallel file reading and writing keeps every byte in its place',
  'Reading a set of files by any number of processes, any subset of reading processes, any stripe and chunk size and any kind of reader delivers every byte of every file exactly once and in order; the chunks of all processes follow one another without gaps and the overlap behind each chunk holds exactly the following bytes of the file. Writing groups of data from all processes by any number of writers produces a file that is exactly the ordered concatenation of all groups of all processes. No access leaves the file or the buffers.',
  ['inputs', 'configurations'], 'all file sizes, group sizes, numbers of processes, readers or writers, stripes and chunk sizes up to the bound; symbolic content',
  'tests read a few files with one process layout and never look at chunk borders',
  ['src/basis/io/inputfile.cpp', 'src/basis/io/outputfile.cpp', 'src/basis/io/loader.cpp', 'src/basis/io/writer.cpp'],
  [('InputFilePack::setTotalSizes/prepare/read', 'src/basis/io/inputfile.cpp'), ('OutputFilePack::groupData/reorder/write', 'src/basis/io/outputfile.cpp')],
  'mini-MPI and in-memory files executed together with the code; all sizes by symbolic choices, content symbolic')
P('P08', 'A configuration text sets exactly the written values or is reported',
  'Every accepted configuration text sets exactly the named parameters (numbers, texts, switches, options, flags, lists, nested objects, named maps) to the written values whatever the letter case, spacing, comments, quotes, included files, arguments and variables used, and leaves all other parameters at their defaults; a printed value reads back as the same value. Every text with an unknown name, a wrong value, an unbalanced bracket, quote or comment is reported instead of being accepted. No text, however malformed or truncated, makes the reader access memory behind its end.',
  ['inputs'], 'all texts up to the bound over special characters plus arbitrary other bytes; statement templates with symbolic names, digits and words',
  'tests use a few hundred valid files; malformed and truncated texts are never tried',
  ['src/config/reader/tokenizer.cpp', 'src/config/reader/reader.cpp', 'src/config/holders/valueholder.h', 'src/config/holders/objectholder.h', 'src/config/configuration.cpp'],
  [('Tokenizer::next', 'src/config/reader/tokenizer.cpp'), ('ECFReader::read', 'src/config/reader/reader.cpp'), ('ECFValueHolder, ECFEnumHolder, ECFObjectMap', 'src/config/holders')],
  'texts of symbolic bytes against an independent specification of the format')
P('P09', 'FETI operators realise the exact algebra of the glued problem',
  'For any decomposition into domains, kernels, prescribed values and distribution over processes, the gluing constraints hold exactly for fields that are equal on all copies of a node and take the prescribed values, each multiplier is owned once, and synchronised multipliers and their scalar products count each multiplier once. The dual operator, its right-hand side, the primal solution, the projector with its transpose and coarse corrections, and the preconditioners equal their definition on the assembled global problem for all vectors. This holds for every variant of operator and projector and again after the matrices, loads and prescribed values are updated.',
  ['inputs', 'configurations'], 'all vectors, loads and prescribed values; decompositions, distributions over processes and kernels within the bounds',
  'tests compare a final solution of a few models within a tolerance; a wrong operator often still converges',
  ['src/feti/**', 'src/analysis/linearsystem/constrains/equalityconstrains.cpp'],
  [('HybridFETIImplicit, *GeneralSchurCpu, *GeneralSparseSolverCpu', 'src/feti/dualoperator'), ('EqualityConstrains::set/update/enforce', 'src/analysis/linearsystem/constrains/equalityconstrains.cpp'), ('TotalFETIImplicit/TotalFETIExplicit::apply', 'src/feti/dualoperator'), ('Projector::apply', 'src/feti/projector'), ('Lumped, Dirichlet', 'src/feti/preconditioner'), ('Vector_Dual::synchronize', 'src/feti/common/vector_dual.cpp')],
  'real code on symbolic vectors over mini-MPI, compared with the dense definition; solver decides equality within 1e-6 for all vectors')

P('P10', 'Assembly, distribution and Dirichlet elimination keep the global system',
  'For every mesh, decomposition into domains and processes, node numbering and number of components per node, writing all element and boundary contributions through the assembly maps and synchronising gives on every process exactly the entries of the global sum (matrix, vector, node values), in a valid sorted pattern without duplicate or missing entries, for direct solvers (rows of the owner, whole or upper triangle) and for FETI (one matrix per domain). Products of the distributed matrix with a vector, transfers between node, domain and sparse vectors, norms and the elimination of prescribed values equal the same operation on the undistributed system. The solution returned by the parallel direct solver satisfies all free equations and the prescribed values on every copy of a node.',
  ['inputs', 'configurations', 'schedules'], 'all splits of the elements into domains and of the domains into processes, all free connectivities, numberings, sets of prescribed unknowns and values up to the bound; 1-5 processes',
  'tests compare the result of whole simulations on regular cubes; a contribution lost or counted twice at a node shared by an unusual set of processes or under an unusual numbering never occurs there',
  ['src/analysis/pattern', 'src/analysis/math', 'src/analysis/linearsystem/directsolver.h', 'src/wrappers/mklpdss'],
  [('PatternUniformDirect, MatrixUniformDirect, SynchronizationUniformDirect, ApplyUniformDirect', 'src/analysis/pattern'), ('PatternUniformFETI, MatrixUniformFETI, VectorUniformSparse/Dense', 'src/analysis/pattern'), ('Matrix_Distributed, Matrix_FETI, Vector_Distributed, Vector_FETI', 'src/analysis/math'), ('DirectLinearSystemSolver::setDirichlet', 'src/analysis/linearsystem/directsolver.h')],
  'symbolic execution of the real pattern, synchronisation and product code on 1-5 mini-MPI processes; matrices or vectors symbolic, compared with the dense global sum by the solver; the cluster solver of MKL is replaced by an exact elimination')

P('P11', 'Element matrices, loads and results are the discretised physical problem',
  'For every supported element type, material model, coordinate system and set of coefficients (constant, or depending on position, time or the solution), the assembled matrices, loads and prescribed values are the integrals of the weak form of the configured physical problem over the elements and boundary parts, with quadrature exact for the degree the rule is meant for, each coefficient evaluated at the point and in the moment where it is used. Derived results (gradient, flux, stress and the like) are those of the computed solution. A second step or iteration with changed time or solution gives what a fresh assembly would.',
  ['inputs', 'configurations'], 'all coefficients, loads and solutions in the bound as symbolic reals; all element types, material models, coordinate systems and kinds of dependence; fixed distorted shapes of elements',
  'tests compare whole simulations with constant or simple coefficients on boxes with one element size; a lost factor, an index or a stale coefficient in another combination is never run',
  ['src/analysis/assembler'],
  [('HeatTransfer::connect/analyze/evaluate/updateSolution', 'src/analysis/assembler/heattransfer.cpp'), ('kernels of heat transfer', 'src/analysis/assembler/heattransfer'), ('general kernels, basis functions and quadratures', 'src/analysis/assembler/general'), ('GaussPoints', 'src/analysis/assembler/general/basefunctions.h')],
  'the assembler executed on concrete meshes with symbolic coefficients and solution, compared with an independent evaluation of the weak form; polynomial identities decided by the solver')
