#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P=[]
def prop(id,title,statement,text,why,files,mech,over=("inputs",),state=(),observe=()):
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":list(over),"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"state":[{"name":a,"meaning":b,"where":c} for a,b,c in state],
                 "mechanism":[{"name":a,"where":b} for a,b in mech],
                 "observe_at":list(observe),"hook_needed":None}})

prop("C01","Every degree of freedom gets exactly one place in the equation system",
 "Given any table of fixed, free (first- or second-class) and constrained degrees of freedom, the numbering gives the free ones the equation numbers 1..N exactly once each, with all first-class ones before all second-class ones and in ascending order within a class. Fixed ones get no equation but distinct negative reaction-force numbers, and constrained ones refer to their own constraint equation. The element equation list follows from this table by node order, equation numbers lead back to their node and local degree of freedom, and the couplings between equations are exactly those of the elements.",
 "every DOF table, of any size, with any mix of statuses and any set of constraint equations",
 "The mesh-based tests that exercise the numbering need GoTools and are not built; even upstream they look at a few fixed meshes, not at all status tables.",
 ["src/LinAlg/SAM.C","src/LinAlg/SAM.h"],
 [("status code to equation number conversion","SAM::initSystemEquations"),("element equation look-up","SAM::getElmEqns")],
 state=[("meqn","matrix of equation numbers","SAM.h"),("msc","matrix of status codes","SAM.h")])

prop("C02","Assembly with constraints equals the congruence transform T'KT, T'(f-Kg)",
 "Adding an element matrix and vector into the global system gives exactly the terms of T'kT and T'(f - k*g), where T and g are the linear relation between all degrees of freedom and the free equations given by the constraint equations and prescribed values. This holds the same for dense, diagonal and sparse storage, and assembling into the right-hand side only gives the same right-hand side. Terms belonging to fixed degrees of freedom are dropped and no other term of the system is touched.",
 "all element matrices and vectors, all element topologies, DOF statuses, constraint coefficients, prescribed values",
 "Tests would need every combination of free, fixed, prescribed and multi-master DOFs within one element; the SAM tests are not built here and cover single boundary conditions only.",
 ["src/LinAlg/SAM.C","src/LinAlg/DenseMatrix.C","src/LinAlg/SparseMatrix.C","src/LinAlg/DiagMatrix.C","src/LinAlg/SystemMatrix.C"],
 [("element-level scatter for dense storage","DenseMatrix::assemble, assemDense"),("element-level scatter for sparse storage","SparseMatrix::assemble, assemSparse"),("right-hand-side scatter","SAM::assembleSystem, SAM::assembleRHS")])

prop("C03","The expanded solution fulfils every constraint equation exactly",
 "Expanding a vector of free equation values to the full set of degrees of freedom copies each free value to its degree of freedom, gives fixed ones zero, and gives each constrained one its prescribed value (times the given scaling) plus the weighted sum of its masters, and nothing else. With a zero scaling the prescribed part vanishes. Each entry of the full vector is determined by this rule no matter what the output vector held before.",
 "all solution vectors, equation tables, constraint coefficients and scaling factors",
 "A unit test samples a few meshes and boundary conditions; the rule has to hold for all constraint tables.",
 ["src/LinAlg/SAM.C"],
 [("expansion","SAM::expandVector, SAM::expandSolution"),("back-extraction","SAM::getSolVec, SAM::applyDirichlet")])

prop("C04","Reaction forces are collected and looked up for the right node and direction",
 "Each residual force acting on a fixed or prescribed degree of freedom is accumulated, with its sign reversed where the system uses the opposite sign, in the slot of that degree of freedom and in no other. Looking up the total, the per-node or the per-direction reaction returns exactly the sum of the slots of that node or direction, and nothing is reported for nodes without reactions.",
 "all element force vectors, DOF tables and reaction numberings",
 "Tests compare a few totals on regular meshes; a wrong slot or sign only shows for particular DOF tables.",
 ["src/LinAlg/SAM.C"],
 [("accumulation","SAM::assembleReactions"),("look-up","SAM::getReaction, SAM::haveReaction, SAM::getNodalReactions, SAM::normReact")])

prop("C05","Multi-point constraints merge, order and renumber consistently",
 "Adding the same master twice to a constraint sums the coefficients; merging constraints and renumbering nodes preserve the linear relation they express. Chained constraints are resolved to masters that are free, with the products of the coefficients, and updating prescribed values makes the updated solution fulfil the constraints. A constraint is always found by its slave, also after renumbering, and each slave has one constraint. The ordering of constraints used for look-up is a strict weak ordering that never treats two constraints for different slave degrees of freedom as equal.",
 "all constraints, with any number of masters and any node renumbering",
 "No test enumerates sequences of merge, renumber and shift operations.",
 ["src/Utility/MPC.C","src/Utility/MPC.h","src/ASM/ASMbase.C","src/ASM/SAMpatch.C"],
 [("master handling","MPC::addMaster, MPC::merge, MPC::updateMaster"),("ordering","MPCLess::operator(), MPC::DOF::operator<"),("renumbering","MPC::renumberNodes, MPC::shiftNodes, ASMbase::renumberNodes"),("chains","ASMbase::addMPC, resolveMPCchains, mergeAndGetAllMPCs"),("equations","SAMpatch::initConstraintEqs, updateConstraintEqs")])

prop("C06","All sparse storage forms represent the same matrix",
 "Converting a sparse matrix from the editable form to either compressed form keeps every stored value at its row and column. After the conversion, element access, scaling, adding another matrix, matrix-vector products and writing the matrix out give the same results as before it, for square and rectangular matrices.",
 "all sparsity patterns and values, every order of insertion",
 "The tests convert one small fixed matrix; they cannot sample all patterns and insertion orders.",
 ["src/LinAlg/SparseMatrix.C","src/LinAlg/SparseMatrix.h"],
 [("conversion","SparseMatrix::optimiseCols, optimiseRows, calcCSR"),("products","SparseMatrix::multiply, add, mult")])

prop("C07","Dense vector and matrix operations equal their algebraic definition",
 "Scaling, addition, inner products, norms, matrix-vector and matrix-matrix products (plain, transposed, scaled, accumulating), outer products, transposition, trace, determinant and inverse of dense vectors and matrices give exactly what linear algebra says, for every compatible dimension. Incompatible dimensions are refused and leave the result unchanged or empty as documented.",
 "all dimensions and all values",
 "Tests use a handful of fixed-size numeric examples.",
 ["src/LinAlg/matrix.h"],
 [("vector operations","utl::vector"),("matrix operations","utl::matrix")])

prop("C08","Resizing and block operations on matrices keep the data they promise to keep",
 "Resizing with retained content keeps every entry whose row and column still exist and zero-fills the new ones; resizing with forced clearing leaves only zeros. Inserting, adding and extracting columns, rows and sub-blocks touches exactly the addressed entries and returns exactly the addressed values, also for transposed blocks and three-dimensional matrices.",
 "all old and new dimensions, all block positions, all contents",
 "Tests exercise one or two sizes; grow-and-shrink combinations are not sampled.",
 ["src/LinAlg/matrix.h","src/LinAlg/matrixnd.h"],
 [("storage re-arrangement","utl::matrixBase::redim, utl::matrix::resize"),("blocks","utl::matrix::addBlock, extractBlock, fillColumn, getColumn, expandRows, augmentRows")])

prop("C09","Diagonal matrix storage behaves as the diagonal of the dense matrix",
 "Assembling elements (with distinct nodes) into diagonal storage, scaling, adding, multiplying by a vector and solving for one or several right-hand sides give the same as the corresponding operation on the full matrix with all off-diagonal terms dropped. A solve multiplied back gives the right-hand side, and a zero pivot is reported rather than divided by, without affecting the other unknowns.",
 "all diagonals, right-hand sides and element matrices",
 "A test uses one fixed vector; zero pivots and accumulated assembly are not sampled.",
 ["src/LinAlg/DiagMatrix.C"],
 [("assembly","DiagMatrix::assemble"),("arithmetics and solve","DiagMatrix::add, multiply, solve")])

prop("C10","Tensor algebra equals the tensor calculus definitions",
 "For second-order tensors in one, two and three dimensions, products, transposition, inner and outer products, rotation, trace, determinant and inverse equal the matrix definitions; an inverse multiplied by the tensor is the identity. For symmetric tensors the same holds in the compact storage, including the transformation R*A*R', the Cauchy-Green tensors, the norm and the von Mises value. The tensors built as local axes or rotations are orthonormal and right-handed. Fourth-order tensors map second-order tensors by double contraction over the stored components, and their identities map a tensor onto itself or its symmetric part.",
 "all component values, all dimensions, with and without the out-of-plane component",
 "Tests evaluate a few numeric tensors; index slips in rarely used dimensions or storage variants stay unseen.",
 ["src/Utility/Tensor.C","src/Utility/Tensor.h","src/Utility/Vec3.h","src/Utility/Vec3Oper.C","src/Utility/Tensor4.C"],
 [("general tensors","Tensor"),("symmetric tensors","SymmTensor")])

prop("C11","Time stepping reaches the stop time exactly and never runs past it",
 "Incrementing advances the time by the current step size and the step counter by one, never past the stop time, and stops there. The end of each stage of a step table is hit exactly, also after cut-backs. A cut-back moves the time back to the previous time plus a reduced step, refusing only below the allowed minimum, and time after any sequence of increments and cut-backs equals the start time plus the sum of accepted steps. Step sizes never leave their allowed range.",
 "all start and stop times, step tables, histories of increments, cut-backs and resets",
 "No test drives the stepping; cut-back and adaptive step histories are unbounded.",
 ["src/SIM/TimeStep.C","src/SIM/TimeStep.h"],
 [("increment and cut-back","TimeStep::increment, TimeStep::cutback, TimeStep::reset")],over=("inputs","histories"))

prop("C12","Backward difference formulas are exact for polynomials of their order",
 "With any positive step sizes, the backward difference coefficients for first and second order differentiate every polynomial up to the order of the formula exactly, sum to zero, and the start-up formula is used for exactly the first steps. The second-derivative formulas are exact for quadratic polynomials.",
 "all step sizes and step ratios, all step histories",
 "The tests use constant step sizes and one variable case.",
 ["src/Utility/BDF.C","src/Utility/BDF.h"],
 [("coefficients","TimeIntegration::BDF, TimeIntegration::BDFD2")],over=("inputs","histories"))

prop("C13","Newmark-type time integrators keep displacement, velocity, acceleration tied",
 "After predicting and any number of corrections, the displacement, velocity and acceleration increments of a time step satisfy the Newmark relations for the given beta, gamma and step size, in the displacement-based, acceleration-based, Hilber-Hughes-Taylor and generalized-alpha variants. A correction changes the state only by the multiples of the solved increment that the method prescribes. Intermediate (alpha-level) states are the prescribed weighted averages of the old and the new state.",
 "all states, increments, step sizes, parameters, any number of iterations",
 "Tests run a few oscillators with fixed parameters; an inconsistent update can hide within the tolerance or in an untested predictor.",
 ["src/SIM/NewmarkSIM.C","src/SIM/HHTSIM.C","src/SIM/NewmarkNLSIM.C","src/SIM/GenAlphaSIM.C"],
 [("predictor","predictStep, predictStepSchemes"),("corrector","correctStep")],over=("inputs","histories"))

prop("C14","Element matrices for time integration equal the method's effective matrices",
 "The effective element matrix and right-hand side built from mass, damping and stiffness for the Newmark, Hilber-Hughes-Taylor, generalized-alpha and backward difference methods equal the linear combinations that define these methods for the current step size, including Rayleigh damping.",
 "all element matrices, vectors, step sizes and parameters",
 "Tests check few parameter sets; each combination of damping, formulation and predictor flag has its own formula.",
 ["src/ASM/NewmarkMats.C","src/ASM/HHTMats.C","src/ASM/BDFMats.C","src/ASM/ElmMats.C"],
 [("effective matrix","getNewtonMatrix"),("effective load","getRHSVector")])

prop("C15","Lagrange basis functions interpolate and sum to one",
 "Each Lagrange polynomial is one at its own node and zero at the others, all of them sum to one everywhere, their derivatives sum to zero and equal the derivative of the polynomial, and tensor products in two and three dimensions follow the node numbering with the first direction running fastest. Interpolating nodal data of a polynomial up to the degree reproduces it.",
 "all evaluation points, distinct interpolation nodes, and polynomial orders",
 "Tests evaluate single points for low orders.",
 ["src/ASM/Lagrange.C","src/Utility/LagrangeInterpolator.C"],
 [("basis evaluation","Lagrange::computeBasis"),("interpolation","LagrangeInterpolator")])

prop("C16","Quadrature rules integrate polynomials up to their degree exactly",
 "Each available one-dimensional rule with n points has points symmetric about zero inside the interval, positive weights that sum to the interval length, and integrates all polynomials up to degree 2n-1 (to rounding). Each triangle rule integrates all polynomials up to its degree. Unavailable rules are refused.",
 "all tabulated rules and all monomials up to the degree of each rule",
 "The tests compare a few integrals; a single wrong digit in a higher-order table would pass.",
 ["src/Utility/GaussQuadrature.C","src/Utility/TriangleQuadrature.C"],
 [("tables","GaussQuadrature::getCoord, getWeight"),("tables","TriangleQuadrature::getCoord, getWeight")])

prop("C17","Legendre and Chebyshev polynomials fulfil their defining recurrences",
 "The Legendre polynomials and their derivatives equal the ones defined by the three-term recurrence for every index and every point, including the end points, and an out-of-range argument is refused. The Chebyshev polynomials, their derivatives and the polynomial fields built of them equal the defining sums.",
 "all polynomial indices and all points in the interval",
 "Tests evaluate a few indices at a few points.",
 ["src/Utility/Legendre.C","src/Utility/Chebyshev.C"],
 [("recurrence","Legendre::eval, Legendre::derEval"),("Chebyshev","Chebyshev::evalPol1, evalDer1")])

prop("C18","Threaded element groups cover every element once and never clash",
 "The thread groups computed for a structured mesh contain every element with non-zero knot span exactly once and no element twice, for any mesh size, zero-span pattern, polynomial degree and thread count, also when the groups are calculated anew. Two different threads of the same group never work on elements that share basis functions (index distance at most the degree in every direction). Mapping and filtering groups keeps exactly the mapped or selected elements.",
 "all mesh sizes, zero-span patterns, degrees, thread counts and strip directions",
 "Tests use a few mesh sizes with the thread count of the test machine.",
 ["src/Utility/ThreadGroups.C","src/Utility/ThreadGroups.h"],
 [("striping","ThreadGroups::calcGroups"),("selection","ThreadGroups::filter, applyMap, oneGroup, oneStripe")],over=("inputs","configurations"))

prop("C19","Time functions take the values and slopes their definition gives",
 "A piecewise linear function passes through its points, is linear in between and constant outside; its slope is the derivative of its value everywhere but at the points. Ramp, step, Dirac, sine and constant functions, and piecewise linear vector functions, equal their closed forms.",
 "all function tables and all arguments",
 "Tests sample one table at a few arguments.",
 ["src/Utility/Functions.C","src/Utility/Functions.h"],
 [("piecewise linear","LinearFunc::evaluate, deriv, locate"),("closed forms","RampFunc, StepFunc, SineFunc, LinVecFunc")])

prop("C20","Derivatives of spatial functions are the derivatives of their values",
 "For linear, quadratic, rotational, step and interpolated spatial functions and for products of space and time functions, the first derivatives returned are the partial derivatives of the value returned in each direction and in time, and the second derivatives returned are its second partial derivatives in space and mixed in space and time. (A pure second time derivative of nonlinear time functions is not offered.)",
 "all points, times and parameters",
 "No test compares derivatives with values for all directions.",
 ["src/Utility/Functions.C","src/Utility/Functions.h"],
 [("derivatives","deriv and dderiv of the function classes")])

prop("C21","Mixed-field element blocks land in the right rows and columns",
 "The element matrix and vector assembled from the blocks of a mixed formulation contain each block entry at the row and column of its field component and node, mirror off-diagonal blocks with the declared symmetry, and are zero elsewhere.",
 "all block values, block counts, bases, node and component counts",
 "Tests use two configurations with fixed block values.",
 ["src/ASM/BlockElmMats.C"],
 [("offsets","BlockElmMats::finalize"),("assembly","BlockElmMats::getNewtonMatrix, getRHSVector")])

prop("C22","Weak and residual operators integrate the forms they are named after",
 "Each equal-order operator adds to the element matrix or vector exactly the quadrature-point contribution of its bilinear or linear form, for scalar and vector fields, and leaves the rest alone. The Laplacian and mass operators are symmetric, and residuals equal the operator applied to the field.",
 "all basis function values and gradients, coefficients and field dimensions",
 "Tests use one element with constant basis values, for which many different forms coincide.",
 ["Apps/Utils/EqualOrderOperators.C","Apps/Utils/EqualOrderOperators.h"],
 [("forms","EqualOrderOperators::Weak, EqualOrderOperators::Residual")])

prop("C23","Stabilization parameters equal their formulas and Jacobians",
 "The element size is the shortest edge, the stabilization parameters equal their defining formulas and the returned Jacobians are the derivatives of those parameters with respect to the velocity.",
 "all velocities, metrics, viscosities and step sizes",
 "Tests compare with one recorded value.",
 ["Apps/Utils/StabilizationUtils.C"],
 [("formulas","getTauPt, getTauNSPt, getTauNSALEPt and Jacobians")])

prop("C24","Index and list utilities return exactly the entries asked for",
 "Gathering picks exactly the addressed nodal values and counts the out-of-range ones; merging keeps existing entries in order and appends the new ones once; interleaving alternates the blocks; renumbering assigns consecutive numbers in order of first appearance; nearest-value and index searches return the right position.",
 "all index lists, values, offsets and lengths",
 "Tests use one or two short lists.",
 ["src/Utility/Utilities.C","src/Utility/Utilities.h"],
 [("list utilities","utl::gather, utl::merge, utl::interleave, utl::renumber, utl::find_closest")])

prop("C25","Control messages of any length are handled without memory errors",
 "Polling the control pipe never reads or writes outside its buffers and never acts on data that was not received, for any message length and content including empty, partial and malformed messages.",
 "all message lengths and contents",
 "The test sends one short well-formed message.",
 ["src/Utility/ControlFIFO.C"],
 [("polling","ControlFIFO::poll")],over=("inputs","histories"))

prop("C26","Global norms are the sum of the element norms, finalised once",
 "Assembling element norms adds each element's contribution to the matching global norm, and the square root or absolute value is applied exactly once to each global and element value, whichever order and grouping the elements come in.",
 "all element norm values, group sizes and numbers of elements",
 "Tests check a few totals.",
 ["src/ASM/GlbNorm.C","src/ASM/GlbNorm.h"],
 [("accumulation","GlbNorm::assemble, applyFinalOp")],over=("inputs","histories"))

prop("C27","Solution history shifting keeps every stored state",
 "When a step is advanced, each stored state moves one step back, the newest is kept as start value and the oldest is dropped, for any number of states and any number of vectors per state.",
 "all numbers of states, vectors per state and vector lengths",
 "One test uses one configuration.",
 ["src/SIM/SIMsolution.C","src/SIM/SIMsolution.h"],
 [("shift","SIMsolution::pushSolution, initSolution")],over=("inputs","histories"))

prop("C28","Coordinate mappings give consistent Jacobians and physical derivatives",
 "The Jacobian of the mapping, its determinant, the physical gradients and second derivatives satisfy the chain rule with the parametric ones for volumes, surfaces and curves; surface and curve normals are unit vectors orthogonal to the tangents. Singular mappings are reported and not divided by.",
 "all nodal coordinates and basis function derivatives",
 "The test needs GoTools and is not built; upstream it compares one mapping.",
 ["src/Utility/CoordinateMapping.C"],
 [("first derivatives","utl::Jacobian"),("second derivatives","utl::Hessian"),("stabilization metric","utl::getGmat")])

prop("C29","Rotating element matrices to local axes is a congruence transformation",
 "Transforming an element matrix or vector by nodal rotations gives the congruence (or linear) transform with the block-diagonal rotation, for any block count and size (the matrix dimension being a multiple of the block size, as the documentation requires), and transforming back with the transposed rotation restores the original.",
 "all matrices, vectors, rotation blocks and block positions",
 "Tests check one numeric rotation.",
 ["src/LinAlg/MatVec.C","src/LinAlg/MatVec.h"],
 [("transformation","utl::transform")])

prop("C30","Overlapping and local groups split the elements completely",
 "The local partition of a structured mesh into a given number of sub-domains per direction assigns every element to a sub-domain, also when there are more sub-domains than elements. Each sub-domain is a contiguous box; in each direction the boxes start one after the other with the size n/g+1 (rounded down), the last one takes the rest, all are clipped at the mesh boundary, and neighbours share exactly the requested overlap. Without overlap each element is in exactly one sub-domain. (The overlap is at most n/g elements.)",
 "all mesh sizes, numbers of sub-domains per direction and overlaps",
 "Tests check three partitions of one mesh.",
 ["src/ASM/DomainDecomposition.C"],
 [("local groups","DomainDecomposition::calcSubdomains")])

prop("C31","A restarted run continues from exactly the saved state",
 "Writing the solution and time-step state to a restart record and reading it back restores every value bit for bit, for any number of vectors and lengths, for all time integrators and also with time step schedules, and a missing record is reported.",
 "all states and vector lengths",
 "Tests store one small state.",
 ["src/SIM/SIMsolution.C","src/SIM/TimeStep.C","src/SIM/MultiStepSIM.C","src/SIM/HHTSIM.C","src/SIM/NewmarkNLSIM.C"],
 [("restart data","SIMsolution::saveSolution, restoreSolution, TimeStep::serialize, MultiStepSIM/HHTSIM/NewmarkNLSIM::serialize")],over=("inputs","histories","crash_points"))

prop("C32","A time step counts as converged only when its criterion is met",
 "The nonlinear solution drivers (NonLinSIM, NewmarkSIM) end a step as converged only when the selected norm of the current increment or residual, relative to the reference norm (or absolutely, when the absolute tolerance is the larger), is below the tolerance, or when there is no increment at all; they stop at the first iteration that meets it, never iterate more than the allowed number of times, and report divergence otherwise. Every computed increment enters the solution exactly once, each assembly is for the state reached so far, prescribed values are updated once per step, new tangents are assembled in the prescribed iterations only, the line search ends at an evaluated step length, and simulators iterating in turn do not influence each other.",
 "all sequences of residual and increment norms, all tolerances, solver options",
 "Tests run a few converging examples.",
 ["src/SIM/NonLinSIM.C","src/SIM/NewmarkSIM.C","src/SIM/MultiStepSIM.h","src/SIM/SIMbase.C"],
 [("iterations","NonLinSIM::solveStep, solveIteration, checkConvergence, lineSearch, updateConfiguration; NewmarkSIM::solveStep, solveIteration, checkConvergence; SIMbase::iterationNorms, solveEqSystem, extractLoadVec")],over=("inputs","histories"))

prop("C33","Several patches become one consistent table of nodes, elements and constraints",
 "Initialising the equation table of a model of several patches gives every node the number of degrees of freedom its patches say, the fixed degrees of freedom and constraint equations of all patches under their global numbers (chained masters resolved, fixed masters left out, the first definition of a degree of freedom kept), each element its nodes at the place of its element number also when the numbers are out of order or have holes, and the node and dof types of the patches; contradicting patches are refused. Merging the table of another model gives the table of the joined patches with shifted numbers, where coupled nodes are one node and each keeps its types, and the constraint equations can be updated afterwards.",
 "all sets of patches, connections, boundary conditions, element numberings and couplings",
 "Tests check a few plain patches without merging.",
 ["src/ASM/SAMpatch.C","src/ASM/ASMbase.C"],
 [("initialisation","SAMpatch::init, initNodeDofs, initElementConn, initConstraintEqs"),("merging","SAMpatch::merge, ASMbase::shiftGlobalElmNums, shiftGlobalNodeNums, renumberNodes")])

prop("C34","Adaptive refinement marks exactly the elements the criterion selects",
 "Given the error indicators, the elements (or basis functions) marked for refinement are the ones with the largest errors, each once and in decreasing order: exactly the given (also fractional) share of them, that share extended by equal errors, all those not below the given percentage of the largest, mean or smallest error, or a leading set with at least the given share of the total error, and no more than needed for that apart from the next error level. Refinement stops when and only when a limit on steps, size, error or condition number is reached or nothing can be marked, and a negative reference norm is an error.",
 "all error distributions with and without ties, thresholds, percentages and limits",
 "Tests check the limit values for one increasing sequence of errors only.",
 ["src/SIM/AdaptiveSetup.C"],
 [("selection","AdaptiveSetup::calcRefinement"),("limits","AdaptiveSetup::errorLimits")])

prop("C35","Mixed finite elements: one geometry mapping for all bases, Piola mapping",
 "In a mixed element, all bases are differentiated through the same mapping, given by the geometry basis or by a separate geometry: the Jacobian is the inverse mapping derivative, the gradients and second derivatives of every basis obey the chain rule, inside the element, on its boundary and on element interfaces (each side with its own mapping, the normal being that of the first), and a singular point is reported. The Piola-mapped functions are P = J N/det(J), and their stored derivatives are the exact derivatives of that expression.",
 "all mapping derivatives, basis values and derivatives",
 "Tests evaluate a few patches at a few points, and only 2D and 3D Piola mappings of special geometries.",
 ["src/ASM/FiniteElement.C","src/ASM/FiniteElement.h"],
 [("mapping","MxFiniteElement::Jacobian, Hessian"),("Piola","MxFiniteElement::piolaMapping, piolaBasis, piolaGradient")])

prop("C36","Div-compatible and Piola operators integrate the forms they are named after",
 "The weak and residual operators for div-compatible and Piola-mapped velocity spaces add, to the blocks given by the index arguments and to no other, scale times the integration weight times the integrand of the named bilinear or linear form: mass, Laplacian with and without stress terms, advection and convection in convective, conservative and skew-symmetric form, pressure gradient, sources and residuals; the convection matrices are the derivatives of the convection residuals.",
 "all basis function values and derivatives, fields, weights, scalings and block numberings",
 "Tests check the mass and Laplacian blocks of one element; convection, advection and all Piola operators are not tested.",
 ["Apps/Utils/CompatibleOperators.C","Apps/Utils/PiolaOperators.C"],
 [("compatible","CompatibleOperators::Weak, CompatibleOperators::Residual"),("Piola","PiolaOperators::Weak, PiolaOperators::Residual, PiolaOperators::Copy")])

prop("C37","Time integrators have the order of accuracy they are named after",
 "The explicit Runge-Kutta methods (Euler, Heun, RK3, RK4, and the embedded Heun-Euler, Bogacki-Shampine and Fehlberg pairs) have tableaus fulfilling the order conditions of their order, evaluate each stage at its time with the state given by the tableau and with the boundary values of that time, and take the weighted sum of the slopes as the step; the embedded methods estimate the error by the difference to the better method, repeat the step with a smaller size while it is too large, and select the next step size from it. The Adams-Bashforth and Adams-Moulton multistep methods of order q integrate slopes that are polynomials in time of degree below q exactly, from the first step if the initial slopes are given and else as soon as enough steps have been taken; they evaluate the slopes at the right time and state, and a step that fails leaves them in a valid state.",
 "all states, slopes, boundary values, step sizes, error estimates and step histories",
 "There are only tests of two look-up functions on the methods; wrong coefficients or times still converge, only slower.",
 ["Apps/Utils/SIMExplicitRK.h","Apps/Utils/SIMExplicitRKE.h","Apps/Utils/SIMExplicitLMM.h","Apps/Utils/SIMImplicitLMM.h","Apps/Utils/TimeIntUtils.C"],
 [("Runge-Kutta","SIMExplicitRK, SIMExplicitRKE: solveStep, solveRK"),("multistep","SIMExplicitLMM, SIMImplicitLMM: advanceStep, solveStep")],over=("inputs","histories"))

prop("C38","Time stepping drivers and couplings carry out every step once and in order",
 "The stationary and transient drivers write the model first, then advance to, solve and save each time step exactly once and in order until the end time; the first failure ends the run with its return code, and nothing is done after it (except for saving a diverged solution on request). Results are exported for every n-th step, to consecutive time levels, with the mesh whenever it has changed since the last export; the state for restarts is saved at every n-th step. The time-slab adaptive driver gets every solution by stepping on from a stored state on the mesh in use, at the right times, and saves results once per step and in order. Coupled simulators are both called, in order, the second one only if the first one succeeds; staggered iterations go on until both converge in the same iteration, one of them fails, or the iteration limit is reached, with relaxation and Aitken acceleration of the coupling variable as defined.",
 "all sequences of results (success, divergence, failure, refinement) of the simulators, step counts, strides, limits and coupling variables",
 "Tests check only that each call of a coupled simulator is forwarded, not the order, the time stepping loops, failures, export intervals or relaxation.",
 ["Apps/Utils/SIMSolver.h","Apps/Utils/SIMSolverTS.h","Apps/Utils/SIMCoupled.h","Apps/Utils/SIMCoupledSI.h","src/Utility/DataExporter.C","src/SIM/TimeStep.C"],
 [("time stepping","SIMSolver::solveProblem, SIMSolverStat::solveProblem, SIMSolverTS::solveProblem, saveState"),("export","DataExporter::dumpTimeLevel, HDF5Restart::dumpStep"),("coupling","SIMCoupled, SIMCoupledSI::solveStep")],over=("inputs","histories"))

prop("C39","Solving the equation system returns the solution of the assembled equations",
 "An equation system of any number of matrices, right-hand-sides and scalars, dense or sparse, holds the sum of the contributions of all elements, with prescribed values and reaction forces, through initialization, repeated assembly with and without a new left-hand-side, copying and adding; static condensation gives the Schur complement, and the recovered internal values fulfil the full equations. The solution of the system fulfils the equations as they were assembled, for any number of right-hand-sides, also when the factorization is reused or the system is assembled anew after a solution; singular systems are reported and not solved. The simulator gives the solution in all degrees of freedom, fulfilling the constraints (homogeneous ones for additional load vectors), and refuses to solve without an equation system, a matrix or a right-hand-side.",
 "all element matrices, constraints, storage formats and sequences of assembly and solution",
 "Tests solve a few small systems once; copying, adding, condensing and reuse are not tested.",
 ["src/ASM/AlgEqSystem.C","src/LinAlg/SparseMatrix.C","src/LinAlg/DenseMatrix.C","src/SIM/SIMbase.C"],
 [("equation system","AlgEqSystem::init, initialize, assemble, finalize, copy, add, staticCondensation, recoverInternals"),("solution","SparseMatrix::solve (solveSLUx, solveUMF), DenseMatrix::solve"),("simulator","SIMbase::solveEqSystem, solveSystem")],over=("inputs","histories"))

prop("C40","A simulator visits every patch and property once, with its own data",
 "Assembly, norm integration and projection in a model of several patches visit every active patch and every property condition of it exactly once: interior terms with the material and integrand of the patch, Neumann conditions on the boundary they are given for with their own code, and nothing on inactive patches. Each patch gets its own part of the primary solutions, of the projected solutions and of the patch-wise defined functions, norms are added to the element groups they belong to, with one group per projection and the values of all boundaries included, projected solutions are placed where the nodes of the patch are, and a failure in any patch is reported.",
 "all patches, properties, materials, projections and solution vectors",
 "Tests run single-patch models, or multi-patch models with the same data in every patch.",
 ["src/SIM/SIMbase.C","src/ASM/IntegrandBase.C"],
 [("assembly","SIMbase::assembleSystem, assemblePatch, setPatchMaterial"),("norms","SIMbase::solutionNorms"),("projection","SIMbase::project, projectAnaSol")],over=("inputs",))

prop("C41","Boundary nodes, forces and reactions, and patch vectors are those of the model",
 "The nodes of a boundary code are the nodes on the entities it is given for, each once and with its coordinates, whatever their dimension and number. Boundary and nodal forces are the sum over all these entities of the integrated contributions, with interior terms integrated once per patch, and nodal values placed at their node and component. Reaction forces are reported for the supported directions and the nodes of the code only, and the external energy is the accumulated work of reactions and loads. Solution vectors are extracted from and injected into the global vectors at the dofs of the nodes, also for mixed fields, nodes with differing numbers of dofs and element-wise results, and doing both changes nothing else.",
 "all topologies, numberings, numbers of dofs per node and values",
 "Tests look at one boundary of a small regular model.",
 ["src/SIM/SIMbase.C","src/SIM/ForceIntegrator.C","src/ASM/GlbForceVec.C","src/ASM/ReactionsOnly.C","src/ASM/ASMbase.C"],
 [("boundary nodes","SIMbase::getBoundaryNodes, getNodeSet"),("forces","SIM::getBoundaryForce, SIM::getNodalForces, GlbForceVec, ForceBase"),("reactions","ReactionsOnly, SIMbase::getCurrentReactions, externalEnergy, assembleForces"),("vectors","SIMbase::extractPatchSolution, injectPatchSolution, extractPatchElmRes, ASMbase::extractNodalVec, injectNodalVec, extractNodeVec, injectNodeVec")],over=("inputs",))

prop("C42","Fields, field functions and L2 projection give the values they are defined by",
 "A field over a patch has in each point the value, gradient and dimension of the finite element interpolation of its nodal values, for any number of components and any basis. A function defined by fields from stream or file evaluates the field of the patch it is evaluated in, at the nearest time level stored in the file, for scalar, vector and tensor functions. An L2 projection onto any basis, continuous, discrete or global, is the function whose residual is orthogonal to that basis, with the function or the secondary solution evaluated in the actual integration points, at all its components; functions built of other functions (sums, pressures, tractions, nodal tables) have the values of their definition.",
 "all nodal values, points, time levels and functions",
 "Tests project a few polynomials on regular patches and evaluate fields in a few points.",
 ["src/ASM/LagrangeField2D.C","src/ASM/LagrangeField3D.C","src/ASM/LagrangeFields2D.C","src/ASM/LagrangeFields3D.C","src/ASM/GlbL2projector.C","src/Utility/FieldFunctions.C","src/Utility/Functions.C"],
 [("fields","LagrangeField2D/3D, LagrangeFields2D/3D, FieldFunction, FieldFuncStream, FieldFuncHDF5"),("projection","L2FuncIntegrand, L2ProbIntegrand, GlbL2, ASMbase::L2projection, globalL2projection"),("functions","FunctionSum, PressureField, TractionField, NodeVecFunc")],over=("inputs",))

prop("C43","Immersed boundaries and visualization grids represent the geometry they describe",
 "The integration points of an element cut by an immersed boundary lie in the element, and their weights add up to the area (volume) of the cells of the refinement that are inside; an element wholly inside or outside is reported so, and a failing element fails the whole. An immersed shape is inside exactly where its equation says so. The points, elements, element numbers and parameters of a grid are those given, and merging grids, removing elements, scaling, rotating, translating or transforming a grid changes exactly what the operation says; the elements of a sphere, cylinder, plane or cube lie on that shape.",
 "all element geometries, shapes, grids and transformations",
 "Tests integrate a few shapes with one refinement depth; mixed grids and repeated operations are not sampled.",
 ["src/ASM/ImmersedBoundaries.C","src/ASM/IBGeometries.C","src/Utility/ElementBlock.C","src/Utility/Point.h"],
 [("immersed boundaries","Immersed::getQuadraturePoints, Hole2D, Oval2D, PerforatedPlate2D, GeoFunc2D"),("grids","ElementBlock and its subclasses")],over=("inputs",))

prop("C44","Unstructured grids have the nodes, elements and sets of their input",
 "A grid read from a matlab or XML text has exactly the nodes, elements, node sets and element sets written in it, whatever the order, line lengths and names; a text which is no grid is refused. Node and element sets given by numbers, boxes or unions have the indices of exactly those nodes and elements, whether given before or after the numbering is generated and whatever external numbers the grid has. Generated node and element numbers are consecutive over the patches. The visualization grid has the elements of the patch. Two elements that contribute to a common equation, also through couplings, are never in the same colour of an element grouping.",
 "all grids, sets, external numberings and couplings",
 "Tests read two or three small files and look at sizes.",
 ["src/ASM/ASMutils.C","src/ASM/ASMu1DLag.C","src/ASM/ASMu2DLag.C","src/ASM/ASMLagBase.C","src/ASM/ASMbase.C"],
 [("input","ASM::readMatlab, ASM::readXML, ASMu1DLag::read, ASMu2DLag::read"),("sets","parseElemSet, parseElemBox, parseNodeSet, parseNodeBox, convertNodeSets"),("colouring","ASMbase::generateThreadGroupsMultiColored")],over=("inputs",))

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
