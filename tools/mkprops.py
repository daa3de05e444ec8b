#!/usr/bin/env python3
"""Writes properties.jsonl (single place where the property texts are edited)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)
F = "fastvpinns/"

p("C01", "Internal mesh: cells tile the rectangle exactly",
  "Generating an internal mesh of an axis-aligned rectangle with nx by ny cells yields exactly nx*ny cells whose corners are the grid points of the uniform subdivision, each cell being one grid rectangle exactly once, ordered column by column (x outer, y inner) with its four corners in counter-clockwise order starting at the lower-left corner. "
  "The mesh object published alongside describes the same points and refers to them by vertex index, and regenerating on the same object replaces the previous mesh completely.",
  ["inputs", "histories"], "every rectangle (negative, anisotropic, tiny or far-off limits), every nx, ny >= 1, every number of boundary/test points, repeated generation on one object and several objects alive at once",
  "Tests build one or two fixed square meshes and look at array shapes; they never check that the cells cover the rectangle, the order of the corners, or a second generation.",
  [F+"Geometry/geometry_2d.py"], [("grid construction and counter-clockwise sort", "Geometry_2D.generate_quad_mesh_internal"), ("published mesh", "Geometry_2D.mesh")],
  ["return value of generate_quad_mesh_internal", "Geometry_2D.mesh", "Geometry_2D.cell_points"])

p("C02", "Internal mesh: boundary points lie on the side of their tag",
  "Internal mesh generation returns exactly four groups of boundary points, tagged 1000, 1001, 1002 and 1003 for the bottom, right, top and left side, each with one quarter (rounded down) of the requested number of points and every point lying exactly on its own side, within the side's extent. "
  "Along a side the points are a Latin-hypercube sample: cutting the side into as many equal pieces as there are points puts exactly one point in each piece.",
  ["inputs", "histories"], "every rectangle, every requested number of points (multiples of four or not), every cell count, every random draw",
  "Tests only count keys and points for one number of points on one square; which side carries which tag and how points spread over the side is never checked.",
  [F+"Geometry/geometry_2d.py"], [("per-side sampling", "Geometry_2D.generate_quad_mesh_internal")],
  ["return value of generate_quad_mesh_internal", "Geometry_2D.bd_dict"])

p("C03", "External mesh: every cell kept, in file order, counter-clockwise",
  "Reading a mesh file returns exactly one cell per quadrilateral of the file, in file order, made of exactly the four corner points that the file lists for it, arranged counter-clockwise around the cell whatever orientation or starting corner the file uses. "
  "The result does not depend on the order in which the file lists its sections or on whether its points carry a third coordinate, and files that are not of the supported format are refused.",
  ["inputs", "histories"], "every conforming mesh file of convex quadrilaterals (any orientation, numbering, shape, number of cells, section order, 2D or 3D points), any boundary sampling settings, repeated reads on one object",
  "Tests read one circle mesh with one section order and compare counts; clockwise cells, other section orders and rereads are not exercised.",
  [F+"Geometry/geometry_2d.py"], [("angular sort around the centroid", "Geometry_2D.read_mesh")],
  ["return value of read_mesh", "Geometry_2D.cell_points"])

p("C04", "External mesh: boundary points follow each edge's tag",
  "Reading a mesh file returns one group of boundary points per boundary tag in the file, and every group contains only points on the edges that carry that tag. "
  "With uniform sampling at level r the group is exactly the set of the 2^r + 1 equally spaced points of each of its edges without duplicates; with random sampling every edge contributes 2^r + 1 points of that edge, spread one per equal sub-interval; other sampling names are refused.",
  ["inputs", "histories"], "every mesh file (any tag numbering, any edge order and direction, slanted edges, section order, 2D or 3D points), every refinement level >= 0, both sampling methods",
  "Tests use one file with one tag and compare the number of points; the location of points, several tags and slanted edges are never checked.",
  [F+"Geometry/geometry_2d.py"], [("edge refinement and per-tag grouping", "Geometry_2D.read_mesh")],
  ["return value of read_mesh", "Geometry_2D.bd_dict"])

p("C05", "Test points: tensor grid for internal, mesh nodes for external",
  "For an internal mesh the test points are exactly the tensor grid with the configured number of equally spaced points per direction, end points included, x running fastest; for an external mesh they are exactly the nodes of the file that was read last, in file order. "
  "Asking again gives the same answer, and the answer follows the most recent mesh of that object.",
  ["inputs", "histories"], "every rectangle and test-point count >= 1 per direction, unequal counts, every mesh file, repeated calls, regeneration between calls, several objects in different folders",
  "Tests check the number of points of one configuration; coordinates, order and behaviour after regeneration are not looked at.",
  [F+"Geometry/geometry_2d.py"], [("grid and file based test points", "Geometry_2D.get_test_points")],
  ["return value of get_test_points", "DataHandler2D.get_test_points"])

p("C06", "VTK export: geometry verbatim, every solution column in its place",
  "Exporting a solution writes a file at the requested path whose points and cells are exactly those of the object's mesh, followed by one scalar field per solution column, in column order, under the given names, with one value per row in row order, equal to the data up to the printed precision. "
  "A column count that differs from the number of names is refused and then no file is produced, and earlier exports and the mesh file stay unchanged.",
  ["inputs", "histories"], "every solution array (one or many columns, extreme values, nan/inf excluded), every list of names, external meshes of any size and internal meshes, sequences of exports with different names, files and folders",
  "Tests check that some file exists after one call with one column; its content is never parsed.",
  [F+"Geometry/geometry_2d.py"], [("file rewriting up to the point-data header", "Geometry_2D.write_vtk")],
  ["the written file"])

p("C07", "Quadrature rules integrate the promised polynomials exactly",
  "For every supported order n, the Gauss-Legendre rule has n*n points strictly inside the reference square and integrates every polynomial of degree up to 2n-1 in each variable exactly; the Gauss-Jacobi (Lobatto) rule has n*n points including the corners and is exact up to degree 2n-3. "
  "Weights are positive, sum to 4, belong to their own point, and the points form a tensor grid with the first coordinate running fastest.",
  ["inputs", "configurations"], "both quadrature families, every order >= 3 (explored up to 40), every monomial within the exactness degree in each variable",
  "Tests check a handful of orders by array size and sum of weights; exactness up to the full degree for every order is not tested.",
  [F+"FE/quadratureformulas_quad2d.py", F+"FE/fe2d_setup_main.py"], [("1D rules and tensor product", "Quadratureformulas_Quad2D.__init__")],
  ["get_quad_values", "FE2D_Cell.quad_xi/quad_eta/quad_weight"])

p("C08", "Test functions are the documented tensor-product family",
  "For every order N the element has N*N test functions; function number i*N+j is the product of the i-th one-dimensional function in the first coordinate and the j-th in the second, where the one-dimensional functions are P[n+2]-P[n] (Legendre) for the types legendre, jacobi and legendre_special, T[n+2]-T[n] (Chebyshev) for chebyshev_2, and P[n] (Legendre) for jacobi_plain, n counted from 0. "
  "All but the last family vanish on the whole boundary of the reference square.",
  ["inputs", "configurations"], "every basis type, every order from 2 upward (explored up to 12), every index, every evaluation point set including corners, edges and single points, array shapes included",
  "Tests compare shapes and, for a few orders, the code against a copy of its own formulas.",
  [F+"FE/basis_2d_QN_Legendre.py", F+"FE/basis_2d_QN_Legendre_Special.py", F+"FE/basis_2d_QN_Chebyshev_2.py", F+"FE/basis_2d_QN_Jacobi.py", F+"FE/fe2d_setup_main.py"],
  [("tensor-product evaluation", "Basis2DQN*.value")], ["Basis2DQN*.value", "FE2DSetupMain.assign_basis_function"])

p("C09", "Reference derivatives are the exact derivatives of the test functions",
  "For every basis type, order, index and evaluation point, the reported first derivatives in each reference coordinate and the three second derivatives (twice the first, mixed, twice the second coordinate) equal the mathematical derivatives of the reported test function, at corners and edges of the reference square too.",
  ["inputs", "configurations"], "every basis type, order 2 upward (explored up to 12), every test-function index, all points of the closed reference square",
  "Tests compare first derivatives of some families at interior points; second derivatives, boundary points and high orders are not verified against the functions.",
  [F+"FE/basis_2d_QN_Legendre.py", F+"FE/basis_2d_QN_Legendre_Special.py", F+"FE/basis_2d_QN_Chebyshev_2.py", F+"FE/basis_2d_QN_Jacobi.py"],
  [("derivative formulas", "Basis2DQN*.gradx/grady/gradxx/gradxy/gradyy")], ["Basis2DQN*.gradx ... gradyy", "get_shape_function_grad_x_ref / _y_ref"])

p("C10", "Cell maps: quadrature points and weights live on the physical cell",
  "For every convex cell the physical quadrature points are the images of the reference points under the map that takes the reference corners to the cell's corners (bilinear for every quadrilateral, affine for parallelograms), and the physical weights are the reference weights times the absolute Jacobian of that map. "
  "Hence the weights of a cell are positive and sum to its area, the weights of all cells sum to the area of the domain, and the affine and bilinear maps agree on parallelograms, whichever corner comes first and whichever way the corners run.",
  ["inputs", "configurations"], "every convex quadrilateral (skewed, rotated, tiny, far from the origin, clockwise), both maps, both quadrature families, several cells in one space",
  "Tests use unit squares and hand-written values for one cell; skewed and clockwise quadrilaterals, and area identities, are not covered.",
  [F+"FE/quad_affine.py", F+"FE/quad_bilinear.py", F+"FE/FE2D_Cell.py"], [("reference-to-cell maps", "QuadAffin / QuadBilinear"), ("physical weights", "FE2D_Cell.assign_quad_weights_and_jacobian")],
  ["get_quadrature_actual_coordinates", "get_quadrature_weights"])

p("C11", "Physical derivatives obey the chain rule on every cell",
  "On every cell and at every quadrature point, the stored gradients of a test function are the weight times the physical gradient, i.e. the one which, multiplied by the Jacobian matrix of the cell map, gives back the reference gradient; stored values are the weight times the test-function value. "
  "On affine cells the stored second derivatives likewise are the weight times the true physical second derivatives (mixed derivative included).",
  ["inputs", "configurations"], "every non-degenerate convex cell of either orientation, both maps (second derivatives: affine map only), every basis type and order, every quadrature rule",
  "Tests check shapes and one axis-aligned cell, where cross terms vanish; second derivatives are not tested on sheared cells.",
  [F+"FE/quad_affine.py", F+"FE/quad_bilinear.py", F+"FE/FE2D_Cell.py"], [("gradient transformation", "get_orig_from_ref_derivative / get_orig_from_ref_second_derivative")],
  ["get_shape_function_val", "get_shape_function_grad_x", "get_shape_function_grad_y", "FE2D_Cell.basis_gradxx_at_quad ..."])

p("C12", "Forcing vector equals the integral of forcing times test function",
  "For every cell and test function the forcing value is the sum over the cell's physical quadrature points of the forcing function there times the test function times the weight; for vector-valued forcing the same holds for the requested component. "
  "The value depends only on that cell and the function, not on earlier queries, on other cells or components, or on the order of queries.",
  ["inputs", "histories"], "every forcing function (scalar and vector, polynomial, sign-changing, piecewise, not symmetric in x and y), every cell and component, any query order",
  "Tests check a constant or sine forcing on one cell by re-running the same formula; components and query histories are not covered.",
  [F+"FE/fespace2d.py"], [("forcing assembly", "Fespace2D.get_forcing_function_values / _vector")],
  ["return values of get_forcing_function_values and get_forcing_function_values_vector"])

p("C13", "Finite-element tables are isolated, stable and range-checked",
  "Everything a finite-element space hands out about a cell is a private copy: changing a returned array never changes what any later query, of this cell or any other or of another space, returns, and repeated queries return identical data whatever was queried in between. "
  "A cell index that is negative or not smaller than the number of cells is refused by every query instead of returning some other cell's data.",
  ["histories", "inputs"], "every sequence of queries, writes into returned arrays and constructions of further spaces; every accessor; every index, including -1, n and beyond",
  "Tests make single calls with valid indices and one out-of-range index; aliasing needs a read-write-read history.",
  [F+"FE/fespace2d.py", F+"FE/FE2D_Cell.py"], [("copy on return and index check", "Fespace2D.get_*")],
  ["all Fespace2D.get_* accessors"], [("fe_cell", "per-cell tables", "Fespace2D.fe_cell")])

p("C14", "Dirichlet data: every boundary point once, with its own tag's value",
  "The Dirichlet data list every boundary point of every tag exactly once, tag by tag in the order of the boundary-point dictionary and point by point within a tag, each paired with the value of that tag's boundary function at that very point; in the vector version with the requested component of it. "
  "The tensors handed to training contain the same pairs in the same order, points as rows of two and values as a single column.",
  ["inputs", "configurations", "histories"], "any number of tags and points per tag (tags with one or no points included), any tag numbering and dictionary order, boundary functions that differ between tags and are unsymmetric in x and y, every component, both precisions, repeated calls",
  "Tests use the same function or constant for all tags of one square and check lengths, so a swapped tag, coordinate or component is invisible.",
  [F+"FE/fespace2d.py", F+"data/datahandler2d.py"], [("pairing loop", "Fespace2D.generate_dirichlet_boundary_data / _vector"), ("tensor conversion", "DataHandler2D.get_dirichlet_input")],
  ["return values of these methods"])

p("C15", "Training tensors keep cell, test-function and point alignment",
  "The assembled training tensors agree entry by entry with the finite-element space: coordinates are listed cell by cell and point by point, so that row c*Q+q is point q of cell c; the value and gradient tensors are indexed by (cell, test function, point) and the forcing matrix by (test function, cell); the test-point tensor lists the domain's test points in their order. "
  "All tensors have the requested floating-point type and lose no accuracy beyond it; a requested type that is not a tensor type is refused.",
  ["inputs", "configurations"], "every mesh (one or many cells), basis, quadrature and map; both floating-point types; cell count equal to or different from the test-function and point counts; several handlers on one space",
  "Tests compare tensor shapes; with equal extents a transposition or reordering keeps the shape.",
  [F+"data/datahandler2d.py"], [("stack / concat / reshape", "DataHandler2D.__init__")],
  ["x_pde_list", "shape_val_mat_list", "grad_x_mat_list", "grad_y_mat_list", "forcing_function_list"])

p("C16", "Sensor data pair each location with its own value",
  "Sensor data for an internal mesh are nine tenths of the requested number (rounded down) of points inside the domain's bounding box, Latin-hypercube spread in both coordinates, each paired with the supplied exact solution at that very point; sensor data from a file are rows of that file, location and value from the same row, exactly as many as requested. "
  "The tensors handed to training keep the pairing, with points as rows of two and values as one column in the requested type.",
  ["inputs", "histories"], "every domain, exact solution, requested number (at least two for an internal mesh), table file (any number of rows, header names, extra columns), both floating-point types, repeated requests",
  "The existing tests only look at array sizes for one function; pairing and location are never verified.",
  [F+"FE/fespace2d.py", F+"data/datahandler2d.py"], [("sampling", "Fespace2D.get_sensor_data / get_sensor_data_external"), ("tensor conversion", "DataHandler2D.get_sensor_data")],
  ["return values of these methods"])

p("C17", "Parameter dictionaries convert value by value to the requested type",
  "Converting PDE or inverse-problem parameters yields a dictionary with exactly the same keys, each holding a tensor of the requested type equal to the supplied value (scalar or array) up to that type's precision. "
  "Each conversion calls the supplied function afresh, and neither mixes up parameters, keeps values from earlier conversions, nor touches other handlers' results or the dictionary the function returned.",
  ["inputs", "histories"], "every dictionary (any number and order of keys, negative/zero/huge/tiny values, integers, arrays), both floating-point types, repeated conversions with functions whose values change",
  "Tests convert one fixed dictionary and check the type of one entry.",
  [F+"data/datahandler2d.py"], [("conversion loops", "DataHandler2D.get_bilinear_params_dict_as_tensors / get_inverse_params")],
  ["return values of these methods"])

p("C18", "PDE losses are the mean squared weak residual, cell by cell",
  "For each supported equation (Poisson, convection-diffusion-reaction, Helmholtz, and the inverse variants with constant or spatially varying coefficient) the loss of a cell is the mean over test functions of the squared weak residual: diffusion*(grad u, grad v) plus convection (b . grad u, v) plus reaction (c u, v) minus forcing, and for Helmholtz k^2 (u, v) minus diffusion minus forcing. "
  "One value per cell is returned, it depends only on that cell's data, and in the inverse variants the coefficient is the supplied parameter (constant) or the coefficient field inside the integral (varying).",
  ["inputs", "configurations"], "all six loss functions, every number of cells, test functions and points (equal to each other or not, one included), every prediction, gradient, forcing and parameter values of any sign and size, both floating-point types",
  "Loss functions are excluded from coverage; tests run only some of them inside training and compare nothing with the weak form.",
  [F+"physics/poisson2d.py", F+"physics/poisson2d_inverse.py", F+"physics/cd2d.py", F+"physics/cd2d_inverse.py", F+"physics/cd2d_inverse_domain.py", F+"physics/helmholtz2d.py"],
  [("tensor contractions", "pde_loss_*")], ["return value of each pde_loss_*"])

p("C19", "End to end: an exact polynomial solution has zero weak residual",
  "When mesh, finite-element space, training tensors and PDE loss are used together with a forcing that matches a polynomial solution exactly and a quadrature rule of sufficient order, feeding that solution and its gradient to the loss gives zero residual in every cell whenever the test functions vanish on the cell boundary and the cell map is affine. "
  "For any other prediction the loss equals the weak residual computed from the integrals over the physical cells themselves.",
  ["inputs", "configurations"], "all forward equations, polynomial solutions of several degrees, all boundary-vanishing basis types, orders, quadrature rules of sufficient order, internal and external meshes, both maps on parallelograms",
  "Tests check stages separately by shape or train and compare a loosely bounded error; consistency between the stages is not asserted.",
  [F+"Geometry/geometry_2d.py", F+"FE/FE2D_Cell.py", F+"FE/fespace2d.py", F+"data/datahandler2d.py", F+"physics/poisson2d.py", F+"physics/cd2d.py", F+"physics/helmholtz2d.py"],
  [("whole pipeline", "Geometry_2D -> Fespace2D -> DataHandler2D -> pde_loss_*")], ["loss values from the assembled tensors"])

p("C20", "Training step reports the losses of the current network",
  "A training step reports the PDE loss summed over all cells, the boundary loss as the mean squared mismatch at the Dirichlet points (zero for hard constraints), for inverse models the sensor loss as the mean squared mismatch at the sensors, and the total as PDE + beta * boundary (+ 10 * sensor), all evaluated with the weights and inverse parameters in force before the step. "
  "The beta and PDE parameters used are those passed to that very step, whatever earlier steps used, and the tensors given at construction are never modified.",
  ["inputs", "histories", "configurations"], "all four models, all losses they support, any network shape, both floating-point types, every beta and parameter dictionary, sequences of steps that change beta or parameters, several models alive at once",
  "Training steps are excluded from coverage; tests only check that the loss goes down or stays under a threshold after many steps of two fixed problems.",
  [F+"model/model.py", F+"model/model_hard.py", F+"model/model_inverse.py", F+"model/model_inverse_domain.py"],
  [("loss composition", "train_step")], ["return value of train_step", "model predictions before and after the step"])

p("C21", "Training step performs the Adam update of every trainable quantity",
  "After a training step every weight, every bias and, in the constant-coefficient inverse model, every inverse parameter has moved by exactly one Adam update computed from the gradient of the reported total loss, accumulated moments included. "
  "The learning rate is the configured one, or with the scheduler on the exponentially decayed one for the number of steps already taken, decayed continuously or in whole decay periods as configured.",
  ["inputs", "histories", "configurations"], "all four models, any network shape, scheduler on and off, every initial rate, decay rate, decay period and staircase flag, step counts across several decay periods, changing beta",
  "Nothing observes the update itself: a missing term in the gradient, a frozen parameter or a wrong schedule still lets the loss fall.",
  [F+"model/model.py", F+"model/model_hard.py", F+"model/model_inverse.py", F+"model/model_inverse_domain.py"],
  [("gradient and optimizer", "train_step"), ("learning-rate schedule", "DenseModel*.__init__")], ["trainable variables before and after each step", "optimizer learning rate"],
  [("optimizer moments", "Adam first/second moments and step counter", "model.optimizer")])

p("C22", "Network output is the configured dense network, row by row",
  "For every model the prediction is the composition of the configured dense layers, the configured activation on all hidden layers and none on the output layer, with as many layers and widths as configured; each output row depends only on its own input row, so predictions are the same for any batching or order of the points. "
  "The hard-constraint model applies the supplied constraint function to the inputs and the network output as the last operation, everywhere predictions are used.",
  ["inputs", "configurations"], "all four models, every layer list (any depth and widths), named and callable activations, both floating-point types, every batch of points, every constraint function",
  "Tests check the shape of the output and the number of layers only.",
  [F+"model/model.py", F+"model/model_hard.py", F+"model/model_inverse.py", F+"model/model_inverse_domain.py"],
  [("layer construction", "DenseModel*.__init__"), ("forward pass", "DenseModel*.call")], ["model(points)", "model.layer_list"])

p("C23", "Unsupported options are refused, supported ones accepted",
  "Every option value outside the documented set - mesh type, mesh source, mesh file format, boundary sampling, cell type, basis type, basis order below 2 or from 1000 up, quadrature order below 3, quadrature type, map type, tensor type - is refused with an error at the point of construction or call, and no partially built object is returned. "
  "Every combination of documented values is accepted.",
  ["configurations"], "the full product of documented option values, and every single deviation from it, including values that differ only in case, spacing or prefix",
  "Tests try single invalid values for some options and a few valid combinations, never the product.",
  [F+"Geometry/geometry_2d.py", F+"FE/fe2d_setup_main.py", F+"FE/quadratureformulas_quad2d.py", F+"FE/fespace2d.py", F+"data/datahandler2d.py"],
  [("validation branches", "constructors and assign_* methods")], ["constructors' outcome"])

p("C24", "Error metrics equal their definitions",
  "The reported L1, L2 and maximum errors are the mean absolute, root-mean-square and maximum absolute difference, and the relative ones divide the respective norm of the difference by that of the reference solution; the combined report lists exactly these six numbers in its documented order. "
  "Errors are never negative, vanish exactly when both arrays agree, do not depend on the order of the points, and the inputs are not changed.",
  ["inputs"], "every pair of arrays of equal shape (one or two dimensions, any length from one, any sign and magnitude), every reference with non-zero norm",
  "Tests use one or two small fixed vectors of the same sign pattern.",
  [F+"utils/compute_utils.py"], [("norm formulas", "compute_*_error*")], ["return values of compute_*"])

p("C25", "Plots and reports go to the requested place and leave data alone",
  "Each plotting or export helper writes its image(s) under the requested folder with the documented name and nothing else there, later calls never remove or overwrite differently named results, and neither the data arrays nor the mesh and finite-element data passed in are changed. "
  "Mesh plots work for every number of boundary tags.",
  ["inputs", "histories"], "every plotting helper, every folder and name, any sequence of calls, any number of boundary tags and cells",
  "Tests call each helper once in a fresh folder and only check that a file exists.",
  [F+"utils/plot_utils.py", F+"FE/fespace2d.py", F+"Geometry/geometry_2d.py"], [("file naming", "plot_* helpers, generate_plot, plot_adaptive_mesh")],
  ["the folder's content before and after each call"])

p("C26", "Hyper-parameter search evaluates each trial with its own settings",
  "The hyper-parameter search runs exactly the requested number of trials with at most the requested number in parallel, works on machines without accelerators, and returns the best settings the study found. "
  "Every trial builds its mesh, space, network, learning-rate schedule and boundary weight from the values suggested for that trial, trains for the requested number of epochs, and reports the relative L2 error of its final network.",
  ["configurations", "histories"], "every suggestion in the declared search space, any number of trials, epochs and parallel jobs, any number of devices including none",
  "No test reaches this module: the tuning library it needs is optional and absent.",
  [F+"hyperparameter_tuning/optuna_tuner.py", F+"hyperparameter_tuning/objective.py"], [("search driver", "OptunaTuner.run"), ("trial objective", "objective")],
  ["calls made to the study, the trial and the library during a search"])

p("C27", "Checkpoints resume training as if it had never stopped",
  "Saving a model's weights in TensorFlow checkpoint form at any point of training leaves the model as it was, and loading that checkpoint into a newly built model of the same configuration (or back into the running one, once it has trained) brings back every weight, bias and inverse parameter exactly. "
  "Training then continues as the uninterrupted run would: same Adam moments, same step count in the learning-rate schedule. Several checkpoints, in one folder or many, do not disturb each other, and a name saved again holds the later state.",
  ["histories", "crash_points"], "all four models, every point of interruption including before the first step, any number of saves and loads under any names, scheduler on and off, both floating-point types",
  "No test saves or loads a model; every example script ends with save_weights.",
  [F+"model/model.py", F+"model/model_hard.py", F+"model/model_inverse.py", F+"model/model_inverse_domain.py"],
  [("what the model tracks", "DenseModel*.__init__: layer_list, optimizer, inverse_params_dict")], ["trainable quantities after load_weights and after each later train_step", "files written by save_weights"],
  [("optimizer moments", "Adam first/second moments and step counter", "model.optimizer")])

p("C28", "Seeded sessions are reproducible and independent of each other",
  "With the Python, NumPy and TensorFlow seeds set, every result of a session - mesh and boundary points, finite-element tables, Dirichlet and sensor data, training tensors, initial and trained weights, predictions, errors, exported files - is a function of that session's own calls and seeds. "
  "It is the same when the session is repeated, when other sessions with other settings run before, after or in between in the same process, and when it runs alone in a new process.",
  ["histories", "schedules", "configurations"], "whole sessions from mesh to prediction on internal and external meshes with all models, every interleaving of their calls, sessions that differ in a single setting, new processes with other hash seeds",
  "Tests never repeat a session or run two of them together and compare the results.",
  [F+"Geometry/geometry_2d.py", F+"FE/fespace2d.py", F+"data/datahandler2d.py", F+"model/model.py", F+"utils/compute_utils.py"],
  [("random sampling", "lhs and np.random in Geometry_2D, Fespace2D"), ("module- and class-level state", "all modules")], ["results of every public call of a session"])

p("C29", "No call changes what the caller already holds",
  "Every array, tensor, list, dictionary and file that a caller has passed to the package or received from it - limits, mesh files, cells and boundary points, function and parameter dictionaries, finite-element tables, Dirichlet and sensor data, training tensors, layer and learning-rate settings, losses, predictions, errors, solutions to export - keeps exactly its content during every later call, on the same object or any other. "
  "Only objects of the package themselves (a geometry that is meshed again, a model that trains) change, and only by their own calls.",
  ["histories", "schedules"], "whole sessions including re-meshing on the same geometry, repeated queries, training, export and plotting, with two sessions interleaved",
  "Tests look at the result of one call and throw it away; nothing compares an earlier argument or result with itself after later calls.",
  [F+"Geometry/geometry_2d.py", F+"FE/fespace2d.py", F+"data/datahandler2d.py", F+"model/model.py", F+"utils/compute_utils.py", F+"utils/plot_utils.py"],
  [("arrays handed out or kept by reference", "cells, boundary points, tables, parameter dictionaries")], ["content of every earlier argument and result after each call"])

p("C30", "Refused calls leave no trace",
  "A call that is refused or fails because of its arguments (unsupported option or file, bad limits or counts, index out of range, missing table, mismatched names or shapes, failing user function, invalid step of a model that has already trained, missing checkpoint) leaves every existing geometry, space, data handler and model as it was. "
  "All later calls give the same results as if the refused call had never been made.",
  ["histories", "fault_sequences"], "whole sessions with refused calls of every kind at every point, compared with the same session without them",
  "Tests check that an error is raised, never that the object still works, and works the same, afterwards.",
  [F+"Geometry/geometry_2d.py", F+"FE/fespace2d.py", F+"data/datahandler2d.py", F+"model/model.py"],
  [("validation before assignment", "Geometry_2D.read_mesh, generate_quad_mesh_internal; Fespace2D queries; DataHandler2D; train_step")], ["results of every call after a refused one"])

p("C31", "A model's configuration rebuilds the same model",
  "A model created from the configuration of another (from_config with what get_config returned, at any time before or after training steps) has the same layers, activation, constraint, data, learning-rate settings and coefficients, except for entries the caller replaced. "
  "Given the other's weights it predicts what the other predicts, and its steps are those of a new model with these weights. Neither reading a configuration nor building or training one of the models changes the other.",
  ["histories", "inputs"], "all four models, configurations read before or after any number of steps, with and without replaced entries, chains of rebuilt models trained in any order",
  "No test calls get_config; the docstring promises all the information necessary to recreate the model.",
  [F+"model/model.py", F+"model/model_hard.py", F+"model/model_inverse.py", F+"model/model_inverse_domain.py"],
  [("constructor arguments kept for the configuration", "get_config of the four models")], ["predictions, losses and weights of a rebuilt model and of the original"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
print(len(P))
