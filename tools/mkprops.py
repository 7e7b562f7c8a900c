"""Writes properties.jsonl from the table below (keeps the JSON well-formed)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

F = lambda *n: ["t3f/%s.py" % x for x in n]

p("C01", "Dense conversion yields exactly the tensor the TT-cores define",
  "Converting a TT-object to a dense tensor yields, at every multi-index, the product of the matching core slices. TT-matrices come out as ordinary matrices whose row and column are the row-major flattenings of the row and column multi-indices, and batches come out stacked along a leading batch dimension in element order.",
  ["inputs", "configurations"],
  "All core values, all mode sizes, TT-ranks (including 1), batch sizes (including 1) and numbers of cores; tensors, matrices and batches.",
  "The tests run two fixed shapes with random cores; an index mix-up that coincides for those sizes, or only shows with more cores or a one-element batch, is not reached.",
  F("ops"), [("full", "t3f/ops.py"), ("_full_tt", "t3f/ops.py"), ("_full_tt_batch", "t3f/ops.py")], ["t3f.full"])
p("C02", "Adding, subtracting and negating TT-objects is exact",
  "The sum, difference and negation of TT-objects represent exactly the sum, difference and negation of the tensors (or of every batch element) they stand for. A single TT-object or a one-element batch is broadcast against a batch in either operand position.",
  ["inputs", "configurations"],
  "All pairs of same-shape operands: any values, mode sizes, independent TT-ranks, number of cores, tensor or matrix, single or batch in either position.",
  "Tests add a few fixed-size random operands; they do not enumerate operand-kind combinations (e.g. single + batch) or unequal ranks per core.",
  F("ops", "tensor_train_base"), [("add", "t3f/ops.py"), ("_add_tensor_cores", "t3f/ops.py"), ("_add_matrix_cores", "t3f/ops.py"), ("_add_batch_tensor_cores", "t3f/ops.py"), ("_add_batch_matrix_cores", "t3f/ops.py"), ("__add__/__sub__/__neg__", "t3f/tensor_train_base.py")], ["t3f.add", "operators + - unary-"])
p("C03", "Elementwise and scalar products of TT-objects are exact",
  "Multiplying two TT-objects elementwise represents exactly the elementwise product of the tensors they stand for, with a single object or a one-element batch broadcast against a batch. Multiplying by a number (positive, negative or zero, from either side) represents exactly the scaled tensor, and multiplying a batch by a vector of weights scales element k by weight k.",
  ["inputs", "configurations"],
  "All operand values, signs of the number, mode sizes, ranks, number of cores, tensor/matrix, single/batch combinations.",
  "Tests use one positive number and a couple of shapes; sign handling and operand-kind combinations are quantified over all inputs.",
  F("ops", "batch_ops", "tensor_train_base"), [("multiply", "t3f/ops.py"), ("multiply_along_batch_dim", "t3f/batch_ops.py"), ("__mul__", "t3f/tensor_train_base.py")], ["t3f.multiply", "operator *", "t3f.multiply_along_batch_dim"])
p("C04", "Matrix products and transposes in TT-format are exact",
  "Multiplying TT-matrices with each other, a TT-matrix with a dense matrix or a dense matrix with a TT-matrix gives exactly the matrix product of the matrices they stand for, per batch element with broadcasting where batches are supported. Transposing a TT-matrix (or batch) represents exactly the transposed matrix.",
  ["inputs", "configurations"],
  "All operand values, row and column mode sizes (all distinct), ranks, number of cores and batch-operand combinations.",
  "Tests use a few shapes, several of them square or equal-sized so that swapped modes coincide.",
  F("ops", "tensor_train_base"), [("tt_tt_matmul", "t3f/ops.py"), ("tt_dense_matmul", "t3f/ops.py"), ("dense_tt_matmul", "t3f/ops.py"), ("matmul", "t3f/ops.py"), ("transpose", "t3f/ops.py")], ["t3f.matmul", "t3f.transpose"])
p("C05", "Inner products and Frobenius norms are exact",
  "The flat inner product of TT-objects with TT or sparse operands equals the sum of elementwise products of the represented tensors, per batch element. The squared Frobenius norm equals the inner product of an object with itself, in the differentiable and the default variant alike, and the norm is its square root stabilised only by the documented epsilon.",
  ["inputs", "configurations"],
  "All operand values, sizes, ranks, number of cores, tensor/matrix/batch combinations, arbitrary sparse index sets.",
  "Random spot checks on small shapes; the batch, sparse-matrix and differentiable variants are separate code paths with few or no stable tests.",
  F("ops", "utils"), [("tt_tt_flat_inner", "t3f/ops.py"), ("tt_sparse_flat_inner", "t3f/ops.py"), ("frobenius_norm_squared", "t3f/ops.py"), ("frobenius_norm", "t3f/ops.py"), ("unravel_index", "t3f/utils.py")], ["t3f.flat_inner", "t3f.frobenius_norm_squared", "t3f.frobenius_norm"])
p("C06", "Bilinear forms, Gram matrices and pairwise products are exact",
  "Quadratic and bilinear forms of TT-vectors with one or two TT-matrices equal the dense expressions, per batch element. Pairwise inner products and Gram matrices, with or without a TT-matrix in between, hold at position (i, j) the product of element i of the first batch with element j of the second, for all batch sizes.",
  ["inputs", "configurations"],
  "All operand values, distinct row/column sizes, ranks, number of cores, batch sizes, single/batch operand combinations.",
  "Tests use a handful of fixed shapes, mostly equal ranks and sizes, and only the all-batch or no-batch combination.",
  F("ops", "batch_ops"), [("bilinear_form", "t3f/ops.py"), ("bilinear_form_two_mat", "t3f/ops.py"), ("quadratic_form", "t3f/ops.py"), ("gram_matrix", "t3f/batch_ops.py"), ("pairwise_flat_inner", "t3f/batch_ops.py")], ["t3f.bilinear_form", "t3f.bilinear_form_two_mat", "t3f.quadratic_form", "t3f.gram_matrix", "t3f.pairwise_flat_inner"])
p("C07", "Indexing and gathering return exactly the addressed elements",
  "Indexing a TT-object with any mix of integers and slices represents exactly the same indexing of the dense tensor (integer positions drop that dimension, slices keep it), and a batch is indexed first along its batch dimension. Gathering elements by a list of multi-indices returns exactly those dense elements in order.",
  ["inputs", "configurations"],
  "Every pattern of integer/slice per dimension (leading, middle, trailing, consecutive and all integers), any index values, sizes, ranks and number of cores.",
  "Tests try a few index patterns on one shape; the 2^d patterns and the merging of consecutive dropped dimensions are not enumerated.",
  F("tensor_train", "tensor_train_batch", "ops"), [("TensorTrain.__getitem__", "t3f/tensor_train.py"), ("TensorTrainBatch.__getitem__", "t3f/tensor_train_batch.py"), ("gather_nd", "t3f/ops.py")], ["operator []", "t3f.gather_nd"])
p("C08", "Orthogonalisation keeps the tensor and orthonormalises the cores",
  "Orthogonalising the cores of a TT-object leaves the represented tensor (every batch element) unchanged. After a left-to-right pass every core but the last has orthonormal columns when unfolded by (left rank and modes) against right rank; after a right-to-left pass every core but the first has orthonormal rows in the mirrored unfolding.",
  ["inputs", "configurations"],
  "All core values, sizes, ranks (over- and under-determined), number of cores, tensors and matrices, both directions, batches left-to-right.",
  "Tests check one or two random shapes; rank-reducing shapes, matrices, batches and the untouched boundary core are quantified over all inputs.",
  F("decompositions"), [("orthogonalize_tt_cores", "t3f/decompositions.py"), ("_orthogonalize_tt_cores_left_to_right", "t3f/decompositions.py"), ("_orthogonalize_batch_tt_cores_left_to_right", "t3f/decompositions.py"), ("_orthogonalize_tt_cores_right_to_left", "t3f/decompositions.py")], ["t3f.orthogonalize_tt_cores"])
p("C09", "TT-SVD and rounding are exact untruncated and bound every rank",
  "Converting a dense tensor or matrix to TT-format and rounding a TT-object (or batch) reproduce the input exactly when the rank bound does not truncate. Every TT-rank of the result is at most the requested bound for that position, and a truncation keeps the leading singular directions consistently in both neighbouring cores.",
  ["inputs", "configurations"],
  "All dense inputs / TT-objects, all mode sizes, ranks, numbers of cores, scalar and per-position rank bounds, tensors, matrices and batches.",
  "Tests round a few random low-rank inputs; per-position bounds, batches and matrices, and consistency of the kept directions are not enumerated.",
  F("decompositions"), [("to_tt_tensor", "t3f/decompositions.py"), ("to_tt_matrix", "t3f/decompositions.py"), ("round", "t3f/decompositions.py"), ("_round_tt", "t3f/decompositions.py"), ("_round_batch_tt", "t3f/decompositions.py")], ["t3f.to_tt_tensor", "t3f.to_tt_matrix", "t3f.round"])
p("C10", "Every returned TT-object reports its true shape, ranks and batch size",
  "For every TT-object the library returns, the reported shape, TT-ranks, batch size, number of dimensions, tensor-or-matrix kind and dtype agree with the cores it holds, and neighbouring cores have matching ranks with boundary ranks 1. The static and the dynamic shape queries agree wherever both are available, and the static ones are exact for arbitrarily large shapes.",
  ["inputs", "configurations"],
  "All operations returning TT-objects, all sizes, ranks, batch sizes; fully known as well as partly unknown static shapes.",
  "Tests compare values of dense conversions and rarely the metadata; wrong metadata only surfaces in a later operation.",
  F("shapes", "tensor_train_base", "tensor_train", "tensor_train_batch", "ops", "riemannian", "decompositions", "batch_ops", "initializers"), [("tt_ranks/shape/raw_shape/batch_size and lazy_*", "t3f/shapes.py"), ("get_shape/get_raw_shape/get_tt_ranks", "t3f/tensor_train_base.py"), ("TensorTrainBatch.get_shape", "t3f/tensor_train_batch.py")], ["get_shape", "get_raw_shape", "get_tt_ranks", "batch_size", "t3f.shape", "t3f.tt_ranks"])
p("C11", "Inconsistent cores can never become a TT-object",
  "Building a TT-object from cores whose neighbouring ranks differ, whose boundary ranks are not 1, whose number of dimensions or dtypes differ between cores, whose batch sizes differ, or which contradict the explicitly given shape, ranks or batch size raises ValueError. Consistent cores are accepted and kept unchanged.",
  ["inputs"],
  "Every single inconsistency at every core position, for tensors, matrices and batches, with and without explicitly supplied metadata.",
  "Tests try a list of rank patterns for two- and three-core tensors only; matrices, batches and each position of each defect are not covered.",
  F("tensor_train", "tensor_train_batch"), [("_are_tt_cores_valid", "t3f/tensor_train.py"), ("_are_batch_tt_cores_valid", "t3f/tensor_train_batch.py"), ("TensorTrain.__init__", "t3f/tensor_train.py"), ("TensorTrainBatch.__init__", "t3f/tensor_train_batch.py")], ["t3f.TensorTrain", "t3f.TensorTrainBatch"])
p("C12", "Incompatible operands are rejected, never silently combined",
  "Every operation that documents a requirement on its operands (equal shapes, TT-matrix versus TT-tensor, matching or broadcastable batch sizes, batch versus single, square, rank-1, same tangent space, index count, positive rank bound) raises ValueError when it is not met. No such call returns a value.",
  ["inputs"],
  "Every public operation with a documented precondition, every way of violating one precondition while all others hold.",
  "Tests cover a few negative cases; each precondition of each operation and operand position is a separate path.",
  F("ops", "batch_ops", "riemannian", "decompositions", "kronecker", "shapes", "approximate"), [("raise ValueError guards", "t3f/ops.py"), ("is_batch_broadcasting_possible", "t3f/shapes.py"), ("guards", "t3f/riemannian.py"), ("guards", "t3f/batch_ops.py"), ("guards", "t3f/kronecker.py")], ["public API"])
p("C13", "Riemannian projection is the orthogonal tangent-space projection",
  "Projecting a TT-object onto the tangent space of the fixed-rank manifold at another one yields exactly the orthogonal projection of the represented tensor onto that tangent space, for every batch element. The result remembers the point it was projected on and reuses its orthogonal cores, so later tangent-space operations may combine it.",
  ["inputs", "configurations"],
  "All points of full TT-rank with two or more cores; all values, sizes, ranks of both arguments, tensors and matrices, single and batch arguments.",
  "The one stable test projects one 3-core tensor; the formula has distinct first/middle/last core and tensor/matrix paths.",
  F("riemannian"), [("project", "t3f/riemannian.py"), ("projection_on", "t3f/tensor_train_base.py")], ["t3f.project"])
p("C14", "Fused projections equal projecting the explicit result",
  "Projecting a (weighted, possibly multi-output) sum of a batch gives exactly the projection of that sum. Projecting a matrix-by-vector product gives exactly the projection of the product, for every batch element.",
  ["inputs", "configurations"],
  "All points of full TT-rank with two or more cores; all values, weights, sizes, ranks and batch sizes, tensors and matrices.",
  "Random spot checks; weights, multiple outputs, batches and matrix/tensor are separate einsum paths.",
  F("riemannian"), [("project_sum", "t3f/riemannian.py"), ("project_matmul", "t3f/riemannian.py")], ["t3f.project_sum", "t3f.project_matmul"])
p("C15", "Tangent-space arithmetic equals generic arithmetic and checks the space",
  "Adding (with optional weights) and taking pairwise inner products of objects projected onto the same tangent space gives exactly the same tensors and numbers as the general-purpose operations. Objects that were not projected, or were projected on different points, are rejected with ValueError.",
  ["inputs", "configurations", "histories"],
  "All objects obtained by any projection onto any common full-rank point with two or more cores, all weights, sizes, ranks, tensors/matrices, single/batch.",
  "Random spot checks; correctness relies on the block structure of the projected cores for every input.",
  F("riemannian"), [("pairwise_flat_inner_projected", "t3f/riemannian.py"), ("add_n_projected", "t3f/riemannian.py"), ("projection_on", "t3f/tensor_train_base.py")], ["t3f.pairwise_flat_inner_projected", "t3f.add_n_projected"])
p("C16", "Delta parametrisation of a tangent space round-trips",
  "Splitting a projected TT-object into its delta cores and rebuilding a tangent-space object from them returns the same tensor projected on the same point. Conversely the tensor built from given deltas is the sum over positions of the point's left-orthogonal cores, that delta, and the right-orthogonal cores.",
  ["inputs", "configurations"],
  "All full-rank points with two or more cores, deltas and projected objects, tensors and matrices, single and batch.",
  "Two random tests; the block slicing has separate first/middle/last and batch/matrix paths.",
  F("riemannian"), [("tangent_space_to_deltas", "t3f/riemannian.py"), ("deltas_to_tangent_space", "t3f/riemannian.py")], ["t3f.tangent_space_to_deltas", "riemannian.deltas_to_tangent_space"])
p("C17", "Riemannian autodiff returns the projected gradient and Hessian product",
  "For any representation-invariant function of a TT-object, the Riemannian gradient equals the tangent-space projection of the ordinary gradient, and the Hessian-by-vector product equals the projected Hessian applied to the projected vector. With the runtime check enabled (the default) the result is only produced together with a check that the function value does not depend on the representation.",
  ["inputs", "programs"],
  "All smooth representation-invariant functions, all full-rank points with two or more cores, vectors, sizes and ranks, tensors and matrices.",
  "Tests differentiate two functions at one matrix-shaped point; the quantifier ranges over user functions and points.",
  F("autodiff", "riemannian"), [("gradients", "t3f/autodiff.py"), ("hessian_vector_product", "t3f/autodiff.py"), ("_enforce_gauge_conditions", "t3f/autodiff.py"), ("_is_invariant_to_input_transforms", "t3f/autodiff.py")], ["t3f.gradients", "t3f.hessian_vector_product"])
p("C18", "Kronecker-product linear algebra matches the dense matrix",
  "For rank-1 TT-matrices (and batches) the determinant, the sign and log-determinant, the inverse and the Cholesky factor equal those of the represented dense matrix. Higher-rank or (where required) non-square operands are rejected with ValueError.",
  ["inputs", "configurations"],
  "All factor values, distinct factor sizes, number of factors, batch sizes.",
  "Tests use two-factor random matrices; exponents of the factor determinants depend on all the other factor sizes.",
  F("kronecker"), [("determinant", "t3f/kronecker.py"), ("slog_determinant", "t3f/kronecker.py"), ("inv", "t3f/kronecker.py"), ("cholesky", "t3f/kronecker.py"), ("_is_kron", "t3f/kronecker.py")], ["t3f.kronecker"])
p("C19", "Constant initialisers represent exactly the requested constant",
  "The ones, zeros and identity initialisers (including the like-another-object forms) represent exactly the constant tensor, matrix or identity of the requested shape and dtype. A missing row or column shape of a matrix initialiser means all-ones dimensions.",
  ["inputs", "configurations"],
  "All shapes, number of cores, dtypes, single and batch templates.",
  "Few fixed shapes; not every shape form or dtype.",
  F("initializers"), [("tensor_ones/tensor_zeros/eye/matrix_ones/matrix_zeros/ones_like/zeros_like", "t3f/initializers.py")], ["t3f.tensor_ones", "t3f.tensor_zeros", "t3f.matrix_ones", "t3f.matrix_zeros", "t3f.eye", "t3f.ones_like", "t3f.zeros_like"])
p("C20", "Random initialisers honour shape, rank, dtype, mean and variance",
  "Random initialisers return objects of exactly the requested shape, TT-ranks, batch size and dtype whose cores are drawn independently. Where a mean and standard deviation (or the Glorot, He or LeCun scaling) is documented, every entry of the represented tensor has exactly that mean and variance.",
  ["inputs", "configurations"],
  "All shapes, rank specifications (scalar or per-position), batch sizes, dtypes, means and standard deviations, number of cores.",
  "Sampling tests cannot establish a variance identity for all shapes and ranks, and existing ones only check invalid arguments.",
  F("initializers"), [("_random_core/tensor_with_random_cores/random_tensor/...", "t3f/initializers.py"), ("glorot_initializer/he_initializer/lecun_initializer", "t3f/initializers.py")], ["t3f.random_*", "t3f.*_with_random_cores", "t3f.glorot_initializer", "t3f.he_initializer", "t3f.lecun_initializer"])
p("C21", "Initialisers reject invalid shapes, ranks and batch sizes",
  "Every initialiser raises ValueError for shapes with non-positive or non-integer entries or wrong nesting, for rank lists of the wrong length, non-positive or non-integer ranks, mismatching row and column shape lengths, and non-positive batch sizes. Valid arguments are never rejected.",
  ["inputs"],
  "Every initialiser and every single invalid argument at every position.",
  "Tests enumerate some invalid arguments for some initialisers.",
  F("initializers"), [("_validate_input_parameters", "t3f/initializers.py")], ["t3f initialisers"])
p("C22", "Variables hold the initial value and assignment replaces all of it",
  "A TT-variable created from an initialiser (or fetched again under reuse) has that object's shape, ranks, dtype and values in every core, each in its own variable. Assigning a compatible TT-object replaces the value of every core, and core-wise regularisation sums the regulariser over all cores exactly once.",
  ["inputs", "histories"],
  "All objects, tensors/matrices/batches, number of cores, sequences of create/fetch/assign (fetching again applies to graph variable scopes).",
  "Tests create and assign one tensor and one matrix once.",
  F("variables", "regularizers"), [("get_variable", "t3f/variables.py"), ("assign", "t3f/variables.py"), ("cores_regularizer", "t3f/regularizers.py"), ("l2_regularizer", "t3f/regularizers.py")], ["t3f.get_variable", "t3f.assign", "t3f.cores_regularizer", "t3f.l2_regularizer"])
p("C23", "The TT dense layer computes activation(x W + b) with a TT weight matrix",
  "The Keras TT-dense layer maps a batch of vectors x to activation(x W + b), where W is the matrix of the requested input and output dimensions represented by its TT-cores and b is a bias per output that is present exactly when requested. All cores and the bias are trainable, W is drawn by the requested initialiser, and unsupported names raise ValueError.",
  ["inputs", "configurations"],
  "All input/output factorisations, ranks, initialiser and activation choices, with and without bias, batch sizes.",
  "One test only calls the layer and looks at nothing.",
  F("nn"), [("KerasDense.__init__/build/call", "t3f/nn.py")], ["t3f.nn.KerasDense"])
p("C24", "Operations never modify their arguments",
  "No operation other than variable assignment changes a TT-object, list, array or shape passed to it, or the default values and module state later calls depend on. Using an object in one computation therefore never alters the result of another.",
  ["inputs", "histories"],
  "All public operations, all arguments, all sequences of calls.",
  "Tests use every object once and compare only the returned value.",
  F("ops", "batch_ops", "decompositions", "riemannian", "shapes", "initializers", "kronecker", "approximate", "autodiff", "variables", "tensor_train", "tensor_train_batch", "tensor_train_base", "nn", "regularizers", "utils"), [("copy-before-write (list(tt_cores))", "t3f/decompositions.py"), ("all functions", "t3f/")], ["public API"])
p("C25", "Results keep the operand dtype and casts change only the dtype",
  "Every operation on operands of one dtype returns results of that dtype, and internally never mixes in a fixed dtype that would fail or lose precision for another floating dtype. Casting returns an object of the requested dtype with the same shape, ranks and values.",
  ["inputs", "configurations"],
  "All floating dtypes, all public operations and operand kinds.",
  "Tests run float32/float64 for the stable subset only; most operations have no stable test in float64.",
  F("ops", "batch_ops", "riemannian", "decompositions", "kronecker", "initializers", "autodiff", "utils"), [("cast", "t3f/ops.py"), ("dtype arguments", "t3f/riemannian.py"), ("dtype arguments", "t3f/initializers.py")], ["result.dtype"])
p("C26", "Batch elements never influence each other",
  "In every batched operation element k of the result depends only on element k of each batched operand and on the non-batched operands. Slicing or reordering a batch therefore commutes with every batched operation.",
  ["inputs", "configurations"],
  "All element-by-element batched operations, batch sizes, positions k, including truncating decompositions; operations defined over the whole batch (sums over the batch, pairwise products, concatenation, indexing the batch) are excluded.",
  "Tests compare with dense results on symmetric random batches for few operations.",
  F("ops", "batch_ops", "decompositions", "riemannian", "shapes", "tensor_train_batch", "kronecker"), [("einsum batch subscripts", "t3f/ops.py"), ("batched QR/SVD", "t3f/decompositions.py"), ("batch subscripts", "t3f/riemannian.py")], ["batched public operations"])
p("C27", "Approximate sums include every summand once with its weight",
  "The rounded sum of a list of TT-objects and the rounded (weighted, possibly multi-output) sum over a batch combine every summand exactly once with its weight, for every number of summands. They return the exact sum whenever no rounding step truncates, and with two or more summands never exceed the requested ranks.",
  ["inputs", "configurations"],
  "All numbers of summands (odd, even, one, powers of two), weights, sizes, ranks, tensors and matrices.",
  "Tests use two to five summands and fixed weights; the pairing tree differs for every count.",
  F("approximate"), [("add_n", "t3f/approximate.py"), ("reduce_sum_batch", "t3f/approximate.py")], ["t3f.approximate.add_n", "t3f.approximate.reduce_sum_batch"])
p("C28", "Re-representations keep every value",
  "Renormalising cores, expanding or squeezing a one-element batch, and concatenating batches return objects representing exactly the same tensors in the same order. Renormalised cores all have the same Frobenius norm.",
  ["inputs", "configurations"],
  "All values with non-zero cores, sizes, ranks, numbers of cores, batch sizes, numbers of concatenated batches.",
  "Tests renormalise one shape and concatenate fixed batches.",
  F("ops", "shapes", "batch_ops"), [("renormalize_tt_cores", "t3f/ops.py"), ("expand_batch_dim/squeeze_batch_dim", "t3f/shapes.py"), ("concat_along_batch_dim", "t3f/batch_ops.py")], ["t3f.renormalize_tt_cores", "t3f.expand_batch_dim", "t3f.squeeze_batch_dim", "t3f.concat_along_batch_dim"])
p("C29", "No code path refers to a name that does not exist",
  "Every module, function, attribute and argument the library refers to exists with a matching signature in the library itself or in the installed TensorFlow, NumPy and Keras, on every code path. Every documented public name is exported and bound to the implementation of that name.",
  ["configurations", "inputs"],
  "Every reference on every code path, including rarely taken branches.",
  "A wrong name only fails when its line runs; many branches are never run by the tests.",
  F("__init__", "ops", "batch_ops", "decompositions", "riemannian", "shapes", "initializers", "kronecker", "approximate", "autodiff", "variables", "tensor_train", "tensor_train_batch", "tensor_train_base", "nn", "regularizers", "utils"), [("exports", "t3f/__init__.py"), ("all references", "t3f/")], ["import t3f", "public API"])
p("C30", "TT operations never materialise the dense tensor",
  "Operations on TT-objects other than explicit dense conversion and operations with dense operands only build intermediates whose size involves the mode sizes of a single core, so memory grows linearly, never exponentially, with the number of cores. Results hold exactly one core per dimension.",
  ["inputs", "configurations"],
  "All sizes, ranks, numbers of cores, all operations.",
  "Small test shapes fit in memory either way; exponential growth is invisible to value comparison.",
  F("ops", "batch_ops", "decompositions", "riemannian", "kronecker", "approximate", "autodiff", "initializers"), [("core-by-core sweeps", "t3f/ops.py"), ("sweeps", "t3f/riemannian.py"), ("sweeps", "t3f/decompositions.py")], ["public API"])
p("C31", "A batch size unknown while tracing does not change results",
  "Every batched operation gives the same result when the batch size is only known at run time (inside a traced function) as when it is known statically. No batched operation requires a statically known batch size unless it documents that.",
  ["configurations", "inputs"],
  "All batched operations, any run-time batch size, any sizes, ranks and numbers of cores. Summing a batch with rounding documents that it needs a static batch size.",
  "No test traces with an unknown batch size.",
  F("shapes", "ops", "batch_ops", "decompositions", "riemannian", "kronecker", "tensor_train_batch"), [("lazy_batch_size and lazy_*", "t3f/shapes.py"), ("dynamic shape branches", "t3f/ops.py")], ["batched public operations under tf.function"])
p("C32", "Sizes and ranks unknown while tracing do not change results",
  "Operations whose operands have mode sizes, TT-ranks and batch sizes that are only known at run time (inside a traced function with an unspecified input signature) give the same result as with statically known ones. A size that is unknown while tracing is taken from the data and never guessed.",
  ["configurations", "inputs"],
  "Arithmetic, products, inner products, norms, bilinear forms, indexing, batch operations, decompositions, projections, tangent-space arithmetic and Kronecker algebra with all operand sizes unknown. Not covered: operations documented to need static sizes, sparse TT-matrix operands, automatic differentiation, constants created like another object.",
  "Tests always build operands of known shape; inside a traced function the same code takes other branches.",
  F("shapes", "ops", "batch_ops", "riemannian", "kronecker", "tensor_train", "tensor_train_batch"), [("lazy_shape/lazy_raw_shape/lazy_tt_ranks", "t3f/shapes.py"), ("dynamic shape branches", "t3f/ops.py"), ("dynamic shape branches", "t3f/riemannian.py")], ["public operations under tf.function"])
p("C33", "Decompositions give the same results with the NumPy SVD",
  "After the native SVD has been replaced by the NumPy one, eager calls of the SVD return the same singular values and vectors in the same order, orientation, shape and dtype as before, for every way of calling it. Decomposition and rounding therefore keep all their guarantees.",
  ["inputs", "configurations", "histories"],
  "All matrices and batches of matrices of any size (up to the sign and order freedom of an SVD), all call forms of the reduced SVD, one or more replacements, all decompositions that use it. Eager execution only.",
  "The only test replaces the SVD and looks at one 2 x 2 matrix; no decomposition is tested after the replacement.",
  F("utils", "decompositions"), [("replace_tf_svd_with_np_svd", "t3f/utils.py"), ("my_svd", "t3f/utils.py")], ["t3f.utils.replace_tf_svd_with_np_svd", "t3f.round", "t3f.to_tt_tensor", "t3f.to_tt_matrix"])
p("C34", "Gradients flow through every operation to all operands",
  "No operation on TT-objects cuts the gradient: everything in its result that depends on the cores of an operand does so through recorded differentiable operations. A loss computed with the library can therefore be differentiated with respect to all cores that enter it.",
  ["inputs", "configurations"],
  "All operations, operand kinds, sizes, ranks and numbers of cores.",
  "Tests compare values; a detached intermediate has the right value and a wrong derivative.",
  F("ops", "batch_ops", "decompositions", "riemannian", "kronecker", "approximate", "autodiff", "shapes"), [("all contractions", "t3f/ops.py"), ("differentiable variant of the norm", "t3f/ops.py"), ("projections", "t3f/riemannian.py")], ["tf.GradientTape around public operations"])
p("C35", "Flat indices unravel to row-major multi-indices",
  "Unravelling flat indices with respect to a shape yields, for each index, the row-major multi-index that has this flat index.",
  ["inputs"],
  "All index vectors of any length, all shapes including modes of size 1, both integer dtypes, eager and traced.",
  "One test with one shape; strides that coincide for it go unnoticed.",
  F("utils"), [("unravel_index", "t3f/utils.py")], ["t3f.utils.unravel_index"])
p("C36", "Printed descriptions state the object's own kind, shape and ranks",
  "The text description of a TT-object names its shape (for matrices the sizes and both underlying shapes), its TT-ranks, its batch size if it is a batch and whether it is a variable. Describing an object never fails, also when sizes are not known yet.",
  ["inputs", "configurations"],
  "All TT-objects: tensors, matrices, batches, variables, any number of cores, sizes known or unknown.",
  "No test prints an object.",
  F("tensor_train", "tensor_train_batch"), [("__str__", "t3f/tensor_train.py"), ("__str__", "t3f/tensor_train_batch.py")], ["str(tt)"])
p("C40", "Floating-point results stay within tolerance of exact arithmetic",
  "Computed values differ from the exact-arithmetic result by no more than a modest multiple of machine precision times the operand norms. This includes orthogonalisation of ill-conditioned cores and very long trains.",
  ["inputs"], "All representable operand values.",
  "Rounding error depends on values and backend kernels.",
  F("ops", "decompositions", "riemannian"), [("all contractions", "t3f/ops.py")])
p("C41", "Rounding with a tolerance stays within that relative error",
  "When only a tolerance is given, converting to TT-format or rounding returns an object within that relative Frobenius distance of the input. The ranks are then the smallest the tolerance admits.",
  ["inputs"], "All inputs and tolerances.",
  "Depends on the singular values of the data.",
  F("decompositions"), [("round", "t3f/decompositions.py"), ("to_tt_tensor", "t3f/decompositions.py"), ("to_tt_matrix", "t3f/decompositions.py")])
p("C42", "The NumPy SVD replacement has the gradients of the native SVD",
  "After replacing the native SVD by the NumPy one, the gradients of every computation using it are unchanged. Inputs with repeated singular values behave as with the native implementation.",
  ["inputs"], "All matrices.",
  "Gradients at all matrices.",
  F("utils"), [("replace_tf_svd_with_np_svd", "t3f/utils.py"), ("my_svd", "t3f/utils.py")])
p("C43", "Documented operations stay within their documented complexity",
  "Inner products, Gram matrices, pairwise products, bilinear forms, orthogonalisation, projections and inner products of projected objects perform no contraction, factorisation or intermediate that exceeds the complexity stated in their documentation in mode sizes, TT-ranks or batch sizes (a contraction of several tensors being done in the best pairwise order). The number of such steps grows linearly with the number of cores.",
  ["inputs", "configurations"], "All sizes, ranks, batch sizes and numbers of cores; tensors and matrices; single objects and batches.",
  "Tests use tiny sizes, at which a cost that grows with a higher power of a rank is not noticed.",
  F("ops", "batch_ops", "riemannian", "decompositions"), [("docstring complexities", "t3f/ops.py"), ("docstring complexities", "t3f/batch_ops.py"), ("docstring complexities", "t3f/riemannian.py"), ("_orthogonalize_tt_cores_left_to_right", "t3f/decompositions.py")], ["public API"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
print(len(P))
