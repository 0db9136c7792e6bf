#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=hook)))
OPS = "tensorD/base/ops.py"; TYP = "tensorD/base/type.py"
CP = "tensorD/factorization/cp.py"; NCP = "tensorD/factorization/ncp.py"
NT = "tensorD/factorization/ntucker.py"; TU = "tensorD/factorization/tucker.py"
PO = "tensorD/base/pitf_ops.py"; PN = "tensorD/base/pitf_ops_numpy.py"
ALL = [CP, NCP, NT, TU]

p("C01", "Unfolding places every element at its Kolda row and column",
  "For a tensor of any order from 1 up, any static shape without empty modes and any element type, the mode-n unfolding is the matrix whose row is the mode-n index and whose column is the Kolda column number: the remaining modes in increasing order, the lowest one varying fastest. Every element appears exactly once, with its value unchanged.",
  ["inputs"], "every order, shape (sizes of 1 and equal sizes included), mode and dtype",
  "ops_test unfolds one or two 3rd-order arrays; the law must hold for every order, shape and mode.",
  [OPS], [("unfold", OPS + ": unfold, _gen_perm")], observe=["value of ops.unfold(T, n)"])
p("C02", "Folding and vectorising are exact inverses of unfolding and reshaping",
  "Folding a matrix along mode n into a shape (given as list or tuple) yields the tensor whose mode-n unfolding is that matrix, so fold(unfold(T, n), n, shape) = T and unfold(fold(M, n, shape), n) = M. Vectorising a tensor lists its elements in row-major order and reshaping that vector to the shape gives the tensor back. None of these changes a value or the element type.",
  ["inputs"], "every order, shape and mode, and matrices that do not come from unfold as well",
  "One round trip of a 2x3x4 array is tested; a wrong inverse permutation shows only for order >= 4 or other modes.",
  [OPS], [("fold", OPS + ": fold"), ("vectorize/vec_to_tensor", OPS)], observe=["values of ops.fold, ops.vectorize, ops.vec_to_tensor"])
p("C03", "t2mat flattens exactly the requested row and column modes",
  "Flattening a tensor with a row axis (index or list) and a column axis (index, list, or -1 for the remaining modes in increasing order) yields the matrix whose row number is the row-major number of the row indices in the given order and whose column number is the row-major number of the column indices in the given order. Values and element type are unchanged, and the lists passed by the caller are left as they were, so repeating the call gives the same result.",
  ["inputs"], "every tensor and every ordered split of its modes into rows and columns, in each of the documented argument forms",
  "Four splits of one 3rd-order tensor are tested; orderings and argument forms multiply with the order.",
  [OPS], [("t2mat", OPS + ": t2mat")], observe=["value of ops.t2mat and the argument lists after the call"])
p("C04", "Tensor contraction sums over exactly the paired modes",
  "Contracting A and B along paired axes (integers, or lists or tuples of equal length, pairing in the given order) yields the tensor indexed by A's remaining modes in order followed by B's remaining modes in order, each entry the sum of products over the paired indices. All paired modes contracted gives the scalar sum, and the axis arguments are left unchanged.",
  ["inputs"], "every pair of tensors, every pairing of equal-size modes in every order",
  "Tests contract two fixed 5th-order tensors and compare shapes or one product; pair order and partial contractions are open.",
  [OPS], [("mul", OPS + ": mul, t2mat")], observe=["value of ops.mul(A, B, a_axis, b_axis)"])
p("C05", "ttm is the sequence of mode products it documents",
  "The tensor-times-matrices product equals the successive mode products of the tensor with each matrix: matrix i on mode i by default, on axis[i] when axes are given (whatever their order), on the matrices' own positions when some are skipped, and with the transposed matrices when transposition is asked. Unlisted or skipped modes keep their size; giving both axes and skips raises ValueError.",
  ["inputs"], "every tensor of order >= 1, every list of conforming matrices, axis order, skip set (int or list) and transpose flag",
  "Tests try a few 3rd-order calls; combinations of axis order, skip and transpose on other orders are not reached.",
  [OPS], [("ttm", OPS + ": ttm, _skip")], observe=["value of ops.ttm"])
p("C06", "Kronecker, Khatri-Rao and Hadamard products of matrix lists",
  "For any list of conforming matrices, optionally without the skipped ones (int or list) and, for Kronecker and Khatri-Rao, in reversed order, the result is the Kronecker, column-wise Kronecker or element-wise product of the remaining matrices in that order. The first remaining matrix is the slowest-varying factor of rows (and of columns for Kronecker), and the list itself is not changed.",
  ["inputs"], "every list length from 1, all matrix sizes, skip sets and reverse flag",
  "Tests cover two or three matrices of fixed size; skip with reverse and other list lengths are not covered.",
  [OPS], [("kron, khatri, hadamard, _skip", OPS)], observe=["values of ops.kron, ops.khatri, ops.hadamard"])
p("C07", "Inner product and loss functions compute their definitions and guard shapes",
  "inner is the sum of element products, l2 half the sum of squared differences, rmse the square root of the mean squared difference, and rmse_ignore_zero the square root of the mean squared difference over exactly the positions where the reference is nonzero (whatever the hypothesis holds elsewhere, even infinities or NaN). inner raises ValueError and rmse and rmse_ignore_zero raise TensorErr when the shapes differ, even where the shapes could be broadcast.",
  ["inputs"], "every pair of tensors, with zeros, negatives, equal tensors and mismatching shapes",
  "No test covers loss.py directly; masks and guards depend on the data.",
  ["tensorD/loss.py", OPS], [("l2, rmse, rmse_ignore_zero", "tensorD/loss.py"), ("inner", OPS)], observe=["values and exceptions of the calls"])
p("C08", "A dense tensor answers every call from its value alone, whatever came before",
  "Each operation of a dense-tensor object (unfold, t2mat, vectorize, mul, kron, khatri, fold, +, -, *, indexing) returns what the corresponding operation on its value gives, with the object's own value as the first operand. The answer never depends on which operations, with which arguments, were called on the object before, and no call changes its value or shape.",
  ["histories", "inputs"], "every sequence of operations with arguments on one object",
  "Each test calls one method once on a fresh object; caching across calls can only be seen by histories.",
  [TYP], [("DTensor methods", TYP)], state=[("unfold_T", "cache slot of the unfolding", TYP + ": DTensor.__init__")],
  observe=["value of each returned object along a history"])
p("C09", "Kruskal and Tucker tensors extract to the tensor they denote",
  "A Kruskal tensor extracts to the sum over its components of weight times the outer product of the factor columns (weights 1 when none are given, as a vector or a column), and a Tucker tensor to the core multiplied by each factor along its mode. Its order, U, g and lambdas (a column) tell what it was built from. This holds for any order, and for factors and weights given as numpy arrays or tensors of any floating type.",
  ["inputs"], "every order, shape, rank, and form of factors and weights",
  "Two 3rd-order examples exist, one of which fails; other orders, ranks and argument forms are not covered.",
  [TYP, OPS], [("KTensor.extract, TTensor.extract", TYP), ("khatri, ttm", OPS)], observe=["value of extract()", "attributes of the object"])
p("C10", "xcb and the product of largest singular values meet their definitions",
  "xcb(X, C, B) of a third-order tensor yields the matrix whose entry (i, r) is the sum, over the positions where X is nonzero, of X[i,j,k] times C[k,r] times B[j,r]. The product of largest singular values equals the product, over the matrices not skipped, of each one's spectral norm.",
  ["inputs"], "all tensors (zeros and negatives included), factor matrices and matrix lists",
  "Not tested beyond one example.",
  [OPS], [("xcb, max_single_value_mul", OPS)], observe=["values of the two operations"])
p("C11", "Reading a coordinate file gives exactly the tensor the file lists",
  "After reading a .csv or .txt file of lines 'index,...,index,value', the dense tensor holds each listed value at its coordinates and zero elsewhere, and the sparse tensor lists the same entries in file order. Its shape is the largest index plus one in each mode, or the full shape if one is given; blank lines are ignored, any line order and order of tensor is accepted, and any other file type is refused.",
  ["inputs"], "every file of distinct coordinates: any order, line order, blank lines, number notation, and optional shape; repeated reads of one reader",
  "One fixed file is read by a script test that fails; line order, gaps, shapes and file types are open.",
  ["tensorD/dataproc/reader.py"], [("TensorReader.read", "tensorD/dataproc/reader.py")], observe=["full_data, sparse_data after read()"])
p("C12", "CP-ALS performs one exact Gauss-Seidel sweep per step",
  "In every CP-ALS step the factors are updated from the first mode to the last, each to the least-squares solution given the most recent factors of all other modes (unfolded data times their Khatri-Rao product times the pseudo-inverse of the Hadamard product of their Gram matrices), and then each column is divided by its largest entry. The weights are the divisors of the last mode, and weights and factors together give the reconstruction.",
  ["inputs", "histories"], "every data tensor of order 2 up with positive column maxima, rank, initial state and step of a training run, within single precision",
  "The CP test runs three steps and asserts nothing about the iterates; a stale or reordered factor still converges.",
  [CP], [("assign_op chain", CP + ": build_model")], state=[("A-i", "factor matrices", CP)], observe=["factors, lambdas, full after each step"])
p("C13", "NCP follows the accelerated block-coordinate update rule",
  "In every non-negative CP step each factor, first mode to last, becomes max(0, M - (M V - X K) / L), with M that mode's extrapolated point, K and V the Khatri-Rao product and Gram Hadamard product of the other modes' most recent factors and L the largest singular value of V. If the objective fell, the next extrapolated point is the factor plus min(w, sqrt(L_prev/L)) times its change since the last accepted factor, where w = (t0-1)/t, t = (1+sqrt(1+4 t0^2))/2 and t0 advances to t; otherwise the next extrapolated point is the last accepted factor. Factors start non-negative with norm ||X||^(1/order).",
  ["inputs", "histories"], "every non-negative nonzero data tensor, rank, initial state, and sequence of accepted and rejected steps",
  "The tests only run a few steps and print; weights, Lipschitz constants and rejections are never checked.",
  [NCP], [("A_update_op, Am/A0/wA updates", NCP + ": build_model"), ("accept/reject", NCP + ": train")],
  state=[("Am, A0, t0, t, L, L0", "extrapolation state", NCP)], observe=["factors after each step"])
p("C14", "Non-negative Tucker follows its block-coordinate update rule",
  "In every non-negative Tucker step the core is updated first, to max(0, M - (M x_n A_n^T A_n - X x_n A_n^T) / L) with L the product of the largest singular values of the Gram matrices, then the factors from first mode to last by the same rule with the new core and the most recent other factors. Extrapolation, acceptance and momentum weights follow the same rule as non-negative CP, with the core included, and core and factors start non-negative with norm ||X||^(1/(order+1)).",
  ["inputs", "histories"], "every non-negative nonzero data tensor, rank list, initial state, and sequence of accepted and rejected steps",
  "Tests run a few steps without checking an iterate.",
  [NT], [("g_update_op, A_update_op", NT + ": build_model"), ("accept/reject", NT + ": train")], observe=["core and factors after each step"])
p("C15", "HOSVD returns the truncated leading singular bases and their core",
  "HOSVD factors have orthonormal columns that are the leading left singular vectors of each unfolding, in descending order of singular value, with as many columns as the given rank of that mode. The core is the data multiplied by the transposed factors, the full tensor is the core expanded with the factors, and with full ranks it equals the data.",
  ["inputs"], "every data tensor of order 2 up and admissible rank list, within single precision",
  "The tests run HOSVD once without comparing with the data.",
  [TU], [("HOSVD.build_model", TU)], observe=["factors, core, full after train()"])
p("C16", "HOOI alternates dominant subspaces, starting from HOSVD",
  "In every HOOI step each factor, first mode to last, becomes the leading left singular vectors of the unfolding of the data multiplied by all other modes' most recent transposed factors, starting from the HOSVD factors. The core is the data multiplied by the transposed new factors, and the residual never grows from one step to the next.",
  ["inputs", "histories"], "every data tensor, admissible rank list, and step, within single precision",
  "The tests run a few steps without checking an iterate.",
  [TU], [("HOOI.build_model", TU)], observe=["factors, core after each step"])
p("C17", "Non-negative models never show a negative entry",
  "After every training step of the non-negative CP and non-negative Tucker models, all factor entries, the core, the weights and the reconstruction are finite and at least zero, for any non-negative nonzero data. A zero slice in the data or an overestimated rank does not break this.",
  ["inputs", "histories"], "every non-negative nonzero data tensor, rank, step, accepted or rejected",
  "Tests look at no sign; a missing projection shows only when a gradient step overshoots.",
  [NCP, NT], [("relu in A_update_op and g_update_op", NCP + ", " + NT)], observe=["factors, core, lambdas, full after each step"])
p("C18", "Training stops exactly when the stopping rule says so",
  "Training runs step 1, 2, ... and stops after the first step at which the relative residual is below tol, or the relative objective change |obj - ref| / (ref + 1) has been below tol for three consecutive steps, or the requested number of steps is done. The reference is obj + 1 at step 1 and then the previous objective (for the non-negative models the last accepted, i.e. decreasing, one), and any step above tol restarts the count.",
  ["histories", "configurations"], "every objective sequence, tolerance and step limit, for CP, NCP, Tucker (HOOI) and NTucker",
  "Tests never stop early: the counter, its reset and the reference are exercised by no test.",
  ALL, [("nstall/obj0 logic", "train() of each model")], state=[("nstall", "consecutive stalled steps", "train()"), ("obj0", "reference objective", "train()")],
  observe=["number of steps executed, per-step objective and residual"])
p("C19", "The training history is true of the state it describes",
  "Training returns one [loss, relative residual] pair per executed step, in order: the loss is the root mean squared error over the nonzero positions of the data, and the residual the norm of the reconstruction error over the norm of the data, both of the model state that step produced. This holds for reported and unreported steps alike.",
  ["histories", "inputs"], "every model, data tensor with and without zeros, every step of every run",
  "Tests ignore or only plot the history.",
  ALL + ["tensorD/loss.py"], [("loss_op, rel_res_op, hist", "build_model/train of each model")], observe=["return value of train() against factors/core/weights of each step"])
p("C20", "After training, full, factors and predictions agree",
  "After train() returns, however it ended, the full tensor equals the reconstruction from the final factors, core and weights, predict(i, j, ...) returns that entry of it, and train_finish is true; the data given by the user are not modified. Before training, full and factors are None, train_finish is false, and predict raises TensorErr; while a later train() runs, train_finish is false.",
  ["histories"], "every model (CP, NCP, NTucker, HOSVD, HOOI), step count, verbosity, tolerance (early stop) and sequence of build/train/predict calls",
  "Tests call predict on no trained model and never stop early at an unreported step.",
  ALL, [("_full_tensor, predict, train_finish", "each model")], observe=["public properties before, during and after train()"])
p("C21", "Reporting options and retraining never change the numbers",
  "With the same graph seed and data, the trajectory does not depend on verbosity or the validation interval, training again starts afresh and reproduces the same history and result, and training for k steps gives exactly the first k steps of training for more. Reading results or predictions between trainings changes nothing.",
  ["configurations", "histories"], "every model, every combination of reporting options and step counts, repeated trainings",
  "No test trains one model twice or compares two configurations.",
  ALL, [("init_op at train(), reporting branches", "train() of each model")], observe=["hist and final state across runs"])
p("C22", "Models do not influence each other",
  "Several models, of the same or different kinds, built in one graph or in separate graphs, each train on their own data and give the result they give when alone, whatever the order of building, training and predicting. Building or training one never changes the results already held by another.",
  ["histories", "configurations"], "every set of two or three models, shared or separate graphs, every interleaving of build and train",
  "multigraph usage is only a demo script; tests build one model.",
  ALL + ["tensorD/factorization/env.py"], [("per-model operations, sessions and summaries", "build_model/train of each model")], observe=["hist, factors, full of each model"])
p("C23", "Every step is free of races under all op schedules",
  "In the computation graph that each training step runs, every write of a model variable is ordered, by data or control dependencies, against every other write of it and against every operation that reads its contents in that run. So the result of a step cannot depend on how the runtime schedules operations.",
  ["schedules"], "every schedule of every session run of CP, NCP, HOOI, NTucker and PITF, for every order of tensor",
  "A test run sees one schedule; a race shows only under another one.",
  ALL + ["tensorD/factorization/pitf.py"], [("control_dependencies and assign chains", "build_model of each model")], observe=["graph pruned to each run's fetches"])
p("C24", "Progress is reported at exactly the configured steps",
  "A training run reports (progress line with that step's number, loss and residual, and one summary record with that step number in the configured summary path) exactly at step 1, at the requested last step, at every step when verbose, and at every multiple of the validation interval when one is set. The summary record carries the same loss and residual as the history of that step.",
  ["configurations", "histories"], "every combination of step count, interval, verbosity and early stop, for every iterative model",
  "No test looks at output or summaries.",
  ALL, [("reporting condition", "train() of each model")], observe=["standard output and summary records of train()"])
p("C25", "PITF sampling picks the listed entries with the documented scaling",
  "For index lists (a, b, c), the tensor sample is T[a_i, b_i, c_i] and the matrix samples are A[a_i, b_i]/sqrt(n3), B[b_i, c_i]/sqrt(n1) and C[c_i, a_i]/sqrt(n2); the pair sample is the sum of the three. The numpy and the TensorFlow version agree, and the TensorFlow version refuses an unknown dimension selector with ValueError.",
  ["inputs"], "every tensor shape, index lists (repetitions included) and matrices",
  "pitf_ops_test uses one cubic example where modes can be swapped unnoticed.",
  [PO, PN], [("Pomega_mat, Pomega_tensor, Pomega_Pair", PO + ", " + PN)], observe=["returned sample vectors"])
p("C26", "The PITF adjoint scatters samples to their matrix positions",
  "The adjoint for selector 0, 1 or 2 gives the n1 x n2, n2 x n3 or n3 x n1 matrix that holds each sample value at (a_i, b_i), (b_i, c_i) or (c_i, a_i) and zero elsewhere. The numpy and the TensorFlow version agree; where positions repeat the value is one of the samples of that position (the last one in the numpy version).",
  ["inputs"], "every tensor shape, index lists and sample vector",
  "The one existing test of it fails.",
  [PO, PN], [("adjoint_operator, index_value_append", PO + ", " + PN)], observe=["returned matrices"])
p("C27", "Centering, singular value thresholding and shrinkage meet their definitions",
  "Centralization subtracts from each column its mean; thresholding returns the singular values of the centred matrix lowered by tau and cut at zero with matching orthonormal bases; shrinkage rebuilds the matrix from them, in 'complicated' mode adding to every entry soft(sum/sqrt(rows*cols), tau)/sqrt(rows*cols), with soft the two-sided soft threshold of the entry sum. The numpy and the TensorFlow versions both meet this for square, tall and wide matrices.",
  ["inputs"], "every matrix (tall, wide, square, rank deficient) and threshold, both implementations",
  "Tests check shapes or one example; transposition errors need a general matrix.",
  [PO, PN], [("centralization, SVT, shrink", PO + ", " + PN)], observe=["returned values"])
p("C28", "Random PITF factors and samples satisfy their constraints",
  "Generated interaction matrices have the requested shape (A n1 x n2, B n2 x n3, C n3 x n1), B and C have zero column sums, A's columns all have the same sum, and each matrix has the requested rank as far as its shape and these sums allow (A one more, for the added constant). Sampled index lists have the requested length, with each index inside its mode's range and every index triple reachable.",
  ["inputs", "configurations"], "every shape, ranks and random seed, both implementations",
  "Outputs are random; tests check shape at most.",
  [PO, PN], [("generate, subspace, sample_rule4mat, sample3D_rule", PO + ", " + PN)], observe=["returned matrices and lists"])
p("C29", "Numpy PITF recovery performs the documented dual iteration",
  "Starting from y = 0, each iteration of numpy recovery computes X, Y, Z as the shrunken adjoints of y (scaled by 1/sqrt of the third, first and second size), the error e of the sampled data minus the pair sample, and y + delta e as next y, with delta = delt*samples/sqrt(n1 n2 n3) and threshold tau*sqrt(n1 n2 n3). It returns the last y, X, Y, Z and per iteration the iteration number, relative error and root mean squared error.",
  ["inputs", "histories"], "every data tensor, parameters, sample set and number of steps",
  "The script test only checks that it runs.",
  ["tensorD/factorization/pitf_numpy.py", PN], [("exact_recovery", "tensorD/factorization/pitf_numpy.py")], observe=["returned tuple and files of per-step values"])
p("C30", "TensorFlow PITF training performs the same iteration on one fixed sample",
  "A PITF training run draws its sample positions once and keeps them for all its steps; each step computes the error e of the sampled data minus the pair sample of the shrunken adjoints of y, and y becomes y + delta e, starting from y = 0. The reported error rate and RMSE are those of that step's e.",
  ["inputs", "histories"], "every data tensor, parameters and number of steps",
  "No test trains the TensorFlow PITF model.",
  ["tensorD/factorization/pitf.py", PO], [("PITF.build_model, train", "tensorD/factorization/pitf.py")], observe=["sample vector and e2 after each step, reported lines"])
p("C31", "The cone projection is the Euclidean projection onto the second-order cone",
  "The cone projection of (x, t) returns (x, t) if the norm of x is at most t, (0, 0) if t is at most minus the norm, and otherwise x and its norm both scaled by (norm+t)/(2 norm). The numpy and TensorFlow versions agree.",
  ["inputs"], "every vector and scalar, boundaries included, both implementations",
  "No test calls it with more than one example.",
  [PO, PN], [("cone_projection_operator", PO + ", " + PN)], observe=["returned pair"])
p("C32", "Synthetic data are non-negative low-rank tensors plus bounded-below noise",
  "The synthetic CP and Tucker generators return an array of the requested shape that equals a tensor of the requested rank (CP rank R, or Tucker ranks) with non-negative factors plus element-wise noise that is never negative, is zero when the noise level is zero, and is present when it is positive. The requested rank is reached where the shape allows it.",
  ["inputs", "configurations"], "every shape list, rank (list), noise level and random state",
  "No test calls the generators.",
  ["tensorD/demo/DataGenerator.py", TYP], [("synthetic_data_cp, synthetic_data_tucker", "tensorD/demo/DataGenerator.py")], observe=["returned arrays"])
p("C33", "Decompositions run on exactly the data their provider gives",
  "An environment answers full_data, full_shape, data_queue and summary_path with what its provider holds at the time of asking, whatever the form of provider (assigned function, subclass, handing out copies, reading a file) and of array (type, memory order, view, read-only). A CP, NCP, Tucker, HOSVD or HOOI model built after that trains on exactly those data: its result, loss and residual are about them, also when other models and providers exist, when the data were exchanged and the model rebuilt, or graphs differ. The arrays of the provider are never modified. A bare Provider raises NotImplementedError for its methods, and env.sess is a session of the default graph.",
  ["inputs", "histories", "configurations"], "every history of exchanging data, asking, building and training for two models and two providers, every form of provider and array (a model whose data were exchanged is rebuilt before it is trained)",
  "Tests give one array once; a cached answer shows only when the data change or a second provider exists.",
  ["tensorD/factorization/env.py", "tensorD/dataproc/provider.py"] + ALL,
  [("full_data, full_shape, sess", "tensorD/factorization/env.py"), ("feed of the data", "build_model of each model"), ("full_tensor", "tensorD/dataproc/provider.py")],
  observe=["answers of the environment, results of train, the provider's arrays"])
p("C34", "Fits obey the error bounds and the descent of their methods",
  "For HOSVD and HOOI the squared error equals ||X||^2 - ||core||^2. HOSVD's squared error is at most the energy outside its factors summed over the modes and at most order times HOOI's at the same ranks, and does not grow when ranks grow. HOOI's error is never above HOSVD's at the same ranks, after the first step already, and never grows from one step to the next. CP-ALS's error never grows from one step to the next while its normal equations are well-conditioned. All up to single-precision rounding.",
  ["inputs", "histories", "configurations"], "every data tensor, ranks (full, one, nested) and number of steps",
  "Tests print errors of one example; a fit that is slightly worse than guaranteed looks normal.",
  [CP, TU], [("HOSVD, HOOI", TU + ": build_model"), ("ALS updates", CP + ": build_model")], observe=["reconstruction after each step, factors, core"])
p("C35", "Decompositions follow the units and labels of their data",
  "With the same graph seed and tol < 0, decomposing c*X for a constant c > 0 gives c times the reconstruction, c times the losses and the same residuals as decomposing X, for CP (while its normal equations are well-conditioned), NCP, NTucker, HOSVD and HOOI. Relabelling the indices within modes relabels the HOSVD and HOOI results in the same way, and reordering the modes of X and the ranks reorders the HOSVD result, wherever the data determine the leading subspaces. All up to single-precision rounding.",
  ["inputs", "configurations"], "every data tensor, constant within the single-precision range (1/65536 to 4096 are exercised), permutation, ranks and number of steps",
  "A test sees one tensor in one unit; absolute constants in the code matter only in others.",
  ALL, [("initial values, update rules, acceptance", "build_model and train of each model")], observe=["reconstruction and history"])
p("C36", "PITF runs are reported, finished and repeated faithfully",
  "A TensorFlow PITF training reports (progress line, summary record under the configured path, entries in pitf_y.txt and pitf_e2.txt) exactly at step 1, the last step and every multiple of the validation interval (-1: only first and last), with the error rate, RMSE, multipliers and pair sample of that step. Numpy recovery prints and writes every iteration, agreeing with what it returns, and leaves its data alone. A model is marked finished exactly from its first train() on. Training a built model again, or recovering from the same numpy random state, repeats the run step by step, whatever else was built or trained before; results of other models stay as they were.",
  ["inputs", "histories", "configurations"], "every data tensor, arguments, number of steps, validation interval, and every history of building and training several models in one graph",
  "No test looks at the reports of PITF or trains it twice.",
  ["tensorD/factorization/pitf.py", "tensorD/factorization/pitf_numpy.py"], [("PITF.train", "tensorD/factorization/pitf.py"), ("exact_recovery", "tensorD/factorization/pitf_numpy.py")],
  observe=["standard output, summary and trace files, train_finish, multipliers after each session run"])
EXF = ["tensorD/ex/cp_ex.py", "tensorD/ex/ncp_ex.py", "tensorD/ex/tucker_ex.py", "tensorD/ex/ntucker_ex.py"]
MLF = ["tensorD/ex/ml_cp.py", "tensorD/ex/ml_ncp.py", "tensorD/ex/ml_tucker.py", "tensorD/ex/ml_ntucker.py"]
DMF = ["tensorD/demo/cp_demo.py", "tensorD/demo/ncp_demo.py", "tensorD/demo/tucker_demo.py", "tensorD/demo/ntucker_demo.py", "tensorD/demo/multigraph_demo.py"]
p("C37", "Experiment scripts leave true and complete result files",
  "An experiment script (cp_ex, ncp_ex, tucker_ex, ntucker_ex) called with N1 N2 N3 gR dR time generates non-negative data of these sizes (of rank gR, apart from tucker_ex's noise), decomposes exactly those data once by the method in its name with rank dR in every mode (cp_ex: dR up to gR, else its systems may be singular), and leaves in METHOD_N1_gR_dR_time.txt one line 'loss, residual' per executed step, in order, each to ten decimals, replacing an older file of that name and touching no other result. The ml scripts do the same with rank 20 (METHOD_ml_20.txt) for the 943 x 1682 x 31 tensor of the ratings file. The demos run to their end on 20 x 20 x 20 data with rank 10, and multigraph_demo prints each of its three models' summed error.",
  ["inputs", "histories"], "every argument list, every training history and every history of runs in one result directory",
  "The scripts are run by hand only; no test looks at the files they leave.",
  EXF + MLF + DMF, [("*_run", "tensorD/ex/cp_ex.py and its siblings"), ("main", "tensorD/ex/ml_cp.py and its siblings")],
  state=[("result files", "text files named after the run", "data_out_tmp/python_out")], observe=["the result files after each run, data and arguments of the trained model"])
p("C38", "Calls change nothing but what they return",
  "No call of a tensor operation, loss, PITF operator, extraction, reader, generator or training alters what its caller holds: arguments (arrays, lists of tensors or axes, shapes, argument objects of models, data, files read) and everything returned earlier keep their values. Settings of the process (numpy's error and print options, environment, working directory, default graph and session) stay as they are, and numpy's random state changes only by functions documented to draw. A function that draws nothing gives equal results for equal arguments whatever was called or overwritten before, the same as if called alone, and overwriting an argument afterwards does not change a result already given (numpy's cone projection, which may return its argument, aside).",
  ["inputs", "histories"], "every history of calls on shared arguments, with the caller overwriting them between calls",
  "Tests call each function once on fresh arguments and look at the returned value only.",
  ["tensorD/base/ops.py", "tensorD/base/type.py", "tensorD/loss.py", "tensorD/base/pitf_ops.py", "tensorD/base/pitf_ops_numpy.py", "tensorD/dataproc/reader.py", "tensorD/demo/DataGenerator.py"] + ALL,
  [("argument handling", "every public function")], state=[("objects of the caller", "arguments and earlier results", "outside the library")],
  observe=["arguments, earlier results and global settings after each call"])
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for r in P:
        assert len(r["title"]) <= 80, r["id"]
        f.write(json.dumps(r) + "\n")
print(len(P))
