#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only so that the text stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

M = "matslise/matslise/"; U = "matslise/util/"
prop("C01", "Eigenvalues by index are the true eigenvalues, complete and in order",
 "For a regular Schrodinger problem y'' = (V(x)-E) y on a finite interval with separated boundary conditions, asking for the eigenvalues with indices [Imin, Imax) terminates and returns exactly one value for each index in that range, in increasing order and labelled with consecutive indices. The value labelled k is the (k+1)-th smallest eigenvalue of the problem, to within an accuracy governed by the requested tolerance.",
 ["inputs", "configurations"], "every smooth potential, finite interval, pair of separated boundary conditions, index range, tolerance and sector layout (automatic or uniform)",
 "The tests compare a dozen textbook potentials with tabulated values; a wrong root, skipped index or duplicated index shows only for particular combinations of potential, boundary condition and index range.",
 [M+"matslise.cpp", M+"sector.cpp", M+"matslise_formulas.cpp", U+"sectorbuilder.cpp"],
 [("Matslise::eigenvaluesByIndex brackets, computeEigenvaluesHelper bisects on the Prufer angle", M+"matslise.cpp"), ("newtonIteration polishes", M+"matslise.cpp"), ("constant perturbation propagation", M+"sector.cpp")],
 ["Matslise::eigenvaluesByIndex"])
prop("C02", "Queries by energy interval and by index describe the same spectrum",
 "Asking for the eigenvalues in an energy interval returns exactly the eigenvalues lying in that interval, with their true indices, so that adjoining intervals partition the spectrum and every answer agrees with the query by index. Empty intervals and index ranges give an empty answer, and index ranges that are negative or reversed are rejected with an exception.",
 ["inputs"], "every problem, every energy interval (including empty, below the spectrum, and with endpoints close to eigenvalues) and every index range",
 "The interval query is exercised by the tests on a few fixed intervals of a few potentials; completeness is a statement about all intervals.",
 [M+"matslise.cpp"], [("computeEigenvaluesHelper", M+"matslise.cpp")], ["Matslise::eigenvalues", "Matslise::eigenvaluesByIndex"])
prop("C03", "Propagation carries solutions of the Schrodinger equation across the domain",
 "Propagating an initial value (y, y') from a to b for energy E yields the value at b of the solution of y'' = (V-E) y, for any a and b in the domain in either direction and whatever the alignment of a and b with the internal mesh. Consequently propagation is linear, composes over intermediate points, is inverted by propagating back, and preserves the Wronskian; a point outside the domain is rejected with an exception.",
 ["inputs"], "every potential, energy (below, inside and far above the potential), initial value, pair of points, one or two columns",
 "Tests check a few propagation results on a few potentials with a and b at the ends of the domain; off-mesh points, backward directions and rejection are barely sampled.",
 [M+"matslise.cpp", M+"sector.cpp", M+"matslise_formulas.cpp", U+"find_sector.h", U+"y.h"],
 [("Matslise::propagate walks the sectors", M+"matslise.cpp"), ("Sector::propagate / calculateT", M+"sector.cpp"), ("find_sector", U+"find_sector.h")], ["Matslise::propagate"])
prop("C04", "Propagated energy derivatives are the derivatives of the solution to E",
 "The second half of a propagated value is the derivative with respect to E of the solution itself, given the derivative of the initial value, and the matching error and its derivative returned for E are consistent with each other and with the solutions from both ends.",
 ["inputs"], "every potential, energy, initial value with or without an energy derivative, and pair of points",
 "Existing tests only see the derivative through the convergence of Newton's iteration, which tolerates a wrong derivative.",
 [M+"sector.cpp", M+"matslise.cpp", U+"y.h"], [("dt half of T, calculateT", M+"sector.cpp"), ("T::operator* and T::operator/", U+"y.h"), ("matchingError", M+"matslise.cpp")], ["Matslise::propagate", "Matslise::matchingError"])
prop("C05", "The reported Prufer angle counts zeros and indexes eigenvalues",
 "The angle returned with a propagated solution is a continuous Prufer angle: its integer part in multiples of pi counts the zeros of the solution, its fractional part is zero exactly where the solution vanishes, and it undoes itself when propagating back. The matching angle equals index times pi exactly at the eigenvalues and passes these multiples in increasing order: rounded up to a multiple of pi it counts the eigenvalues below E.",
 ["inputs"], "every potential, energy, initial condition, and pair of points in either direction",
 "The tests follow the angle for a handful of problems; branch mistakes in the angle appear for particular sign patterns and energies relative to each sector's mean potential.",
 [M+"sector.cpp", M+"matslise.cpp"], [("pruferHelper, theta0, rescale", M+"sector.cpp"), ("propagate accumulates the angle", M+"matslise.cpp")], ["Matslise::propagate", "Matslise::matchingError"])
prop("C06", "Eigenfunctions solve the problem, are normalised and have index-many zeros",
 "An eigenfunction returned for an eigenvalue satisfies the differential equation on the whole domain, satisfies both boundary conditions, has unit L2 norm, is orthogonal to the others and has exactly as many interior zeros as its index. Evaluating it point by point or on an array in any order gives the same values and derivatives, and it is zero outside the domain.",
 ["inputs", "configurations"], "every problem, eigenvalue and set of evaluation points (any order, duplicates, on and off the mesh, outside the domain)",
 "Tests compare a few eigenfunctions with closed forms at equispaced points; mesh-dependent evaluation paths and unsorted arrays are not sampled.",
 [M+"matslise.cpp", M+"abstract_matslise.cpp"], [("propagationSteps normalises", M+"matslise.cpp"), ("MEigenfunction evaluation", M+"matslise.cpp"), ("eigenpairsByIndex", M+"abstract_matslise.cpp")], ["Matslise::eigenfunction", "Matslise::eigenpairsByIndex"])
prop("C07", "The reported eigenvalue error is a sound estimate of the true error",
 "The error estimate returned for a computed eigenvalue is nonnegative and finite, never exceeds the order of the requested tolerance, and is an estimate from above: up to rounding it is at least the true distance between the computed and the exact eigenvalue, except for accidental cancellation in isolated eigenvalues.",
 ["inputs"], "every problem and index, for full-range, half-range and Sturm-Liouville problems",
 "A bound on an unknown error can only be falsified by searching problems against an independent reference.",
 [M+"matslise.cpp", M+"halfrange.cpp", "matslise/liouville.h"], [("eigenvalueError: Newton with the reference (use_h=false) formulas", M+"matslise.cpp")], ["Matslise::eigenvalueError", "MatsliseHalf::eigenvalueError", "SturmLiouville::eigenvalueError"])
prop("C08", "Half-range reduction agrees with the full symmetric problem",
 "For an even potential on a symmetric interval with a symmetric boundary condition, the half-range solver returns the same indexed eigenvalues and eigenfunctions (values and derivatives, up to one global sign) as the full-range solver, with even-indexed eigenfunctions even and odd-indexed odd. Asymmetric boundary conditions are rejected with an exception.",
 ["inputs"], "every even potential, half-width, boundary condition, index range, energy interval and evaluation points of either sign",
 "Tests compare a few even potentials, mostly through the array evaluation and mostly values only.",
 [M+"halfrange.cpp", "matslise/matslise.h"], [("mergeEigenvalues", M+"halfrange.cpp"), ("EigenfunctionHalf", M+"halfrange.cpp"), ("checkSymmetry", "matslise/matslise.h")], ["MatsliseHalf public methods"])
prop("C09", "The sector mesh tiles the domain and respects its contract",
 "After construction the mesh tiles the domain exactly: consecutive sectors share endpoints, the first and last touch the ends, the match index separates the sectors that step forward from those that step backward, and every declared jump is a sector boundary. With automatic sectors each sector's own error estimate meets the tolerance unless it reached the minimum width (or, for tolerances near the rounding errors, the limit on refinements); with uniform sectors there are exactly the requested number of equal width; and the potential is evaluated only inside the domain and only during construction.",
 ["inputs", "configurations"], "every potential, interval, tolerance, jump list and sector count, for scalar and coupled problems",
 "Mesh construction is a data-dependent loop; tests check two potentials.",
 [U+"sectorbuilder.cpp", U+"sectorbuilder.h", "matslise/matslise.h", "matslise/matscs.h"], [("AutomaticSectorBuilder, UniformSectorBuilder", U+"sectorbuilder.cpp")], ["Matslise::sectors", "Matslise::matchIndex", "Sector::error"])
prop("C10", "Declared discontinuities do not cost accuracy",
 "For a piecewise smooth potential whose discontinuities are declared as jumps, solutions, eigenvalues and eigenfunctions have the same accuracy and completeness as for a smooth potential, wherever the jumps lie and however many there are.",
 ["inputs"], "every piecewise smooth potential, number and position of interior jumps, energy and boundary conditions",
 "One test has jumps; the interaction of jumps with forward and backward stepping and with the matching point depends on positions.",
 [U+"sectorbuilder.cpp", M+"matslise.cpp"], [("next jump bookkeeping in AutomaticSectorBuilder", U+"sectorbuilder.cpp")], ["AutomaticSectorBuilder::jumps", "Matslise public methods"])
prop("C11", "Periodic eigenvalues are complete, correctly indexed and accurate",
 "For coupled boundary conditions y(b) = K y(a) with real K of determinant one, the eigenvalues returned by index or by interval are true eigenvalues to within the tolerance, carry their true index counted with multiplicity, and miss none in the requested range. Reported multiplicity is 1 or 2 and is 2 only where two eigenvalues coincide to within the tolerance.",
 ["inputs"], "every potential, interval, coupling matrix K (periodic, antiperiodic, general), index range and energy interval",
 "Tests use the identity, its negative and a few matrices on four potentials; the index bookkeeping branches on the entries of K.",
 [M+"periodic.cpp"], [("eigenpairsHelper, binarySearch, eigenvaluePair", M+"periodic.cpp")], ["PeriodicMatslise::eigenvaluesByIndex", "PeriodicMatslise::eigenvalues"])
prop("C12", "Periodic eigenfunctions satisfy the coupled boundary condition",
 "Each eigenfunction returned with an eigenvalue of a coupled problem solves the differential equation, satisfies y(b) = K y(a), and has unit norm; an eigenvalue of multiplicity two comes with two linearly independent eigenfunctions. Asking for the eigenfunctions of a known eigenvalue gives functions with the same properties and has no other visible effect.",
 ["inputs"], "every potential, K and eigenvalue",
 "Tests evaluate a few eigenfunctions with K the identity.",
 [M+"periodic.cpp", M+"matslise.cpp"], [("eigenpairsHelper kernel vector", M+"periodic.cpp"), ("PeriodicMatslise::eigenfunction", M+"periodic.cpp")], ["PeriodicMatslise::eigenpairsByIndex", "PeriodicMatslise::eigenpairs", "PeriodicMatslise::eigenfunction"])
prop("C13", "The Liouville transformation is a faithful change of variables",
 "For positive smooth p and w, the maps between r and x are increasing, mutually inverse, and satisfy dx/dr = sqrt(w/p); the maps between (z, z') and (y, y') are mutually inverse and turn solutions of -(p z')' + q z = E w z into solutions of y'' = (V-E) y with the transformed potential, derivatives and energy derivatives included.",
 ["inputs"], "every smooth p > 0, w > 0, q, interval and point, including end points and piece boundaries",
 "Tests transform two or three coefficient triples and never check the derivative map back.",
 ["matslise/liouville/liouville.cpp", "matslise/liouville.h", U+"polynomial.h", U+"legendre.h"], [("Piece construction, constructPiecewise", "matslise/liouville/liouville.cpp"), ("z2y, y2z, V", "matslise/liouville/liouville.cpp")], ["LiouvilleTransformation public methods"])
prop("C14", "Sturm-Liouville eigenvalues are the true eigenvalues of (p, q, w)",
 "For a regular Sturm-Liouville problem -(p z')' + q z = E w z with separated boundary conditions on (z, z'), the eigenvalues returned for an index range are the true ones with those indices, to within an accuracy governed by the tolerance.",
 ["inputs"], "every smooth p > 0, w > 0, q, interval, boundary conditions and index range",
 "Tests cover two or three coefficient triples, mostly with Dirichlet conditions.",
 ["matslise/liouville.h", "matslise/liouville/sturm_liouville.cpp", "matslise/liouville/liouville.cpp"], [("SturmLiouville::eigenvaluesByIndex", "matslise/liouville.h")], ["SturmLiouville::eigenvaluesByIndex"])
prop("C15", "Sturm-Liouville eigenfunctions solve the original equation",
 "The eigenfunctions returned for a Sturm-Liouville problem give z and z' of a solution of the original equation on the whole closed interval, satisfy both boundary conditions, are normalised with weight w, and agree between scalar and array evaluation.",
 ["inputs"], "every coefficient triple, boundary conditions, index and evaluation points including both end points",
 "No test looks at the derivative of a Sturm-Liouville eigenfunction or at the end points for non-Dirichlet conditions.",
 ["matslise/liouville/sturm_liouville.cpp", "matslise/liouville/liouville.cpp"], [("SLEigenfunction", "matslise/liouville/sturm_liouville.cpp")], ["SturmLiouville::eigenpairsByIndex"])
prop("C16", "Coupled-system propagation solves the matrix Schrodinger equation",
 "For a symmetric matrix potential, propagating a matrix or a single column from a to b gives the solution of Y'' = (V-E) Y at b together with its energy derivative, in either direction; it composes, inverts, preserves the symplectic form, and agrees column by column and, for uncoupled systems, with the scalar solver. Points outside the domain are rejected with an exception.",
 ["inputs"], "every symmetric matrix potential of any size, sector layout, energy, initial value and pair of points",
 "The coupled tests check a few fixed systems.",
 ["matslise/matscs/matscs.cpp", "matslise/matscs/sector.cpp", "matslise/matscs/matscs_formulas.cpp", U+"y.h"], [("Matscs::propagate, propagateColumn", "matslise/matscs/matscs.cpp"), ("Sector::calculateT", "matslise/matscs/sector.cpp")], ["Matscs::propagate", "Matscs::propagateColumn"])
prop("C17", "The coupled-system angle counts focal points",
 "The angle returned with a propagated matrix solution changes by the winding of the determinant angle, so that following it from one end of the domain to the other counts the points where det Y vanishes; it is additive over subintervals and for a system of one equation or an uncoupled system it is twice the sum of the changes of the scalar angles.",
 ["inputs"], "every symmetric matrix potential, size, energy and interval",
 "No test verifies the count for a generic coupled system.",
 ["matslise/matscs/sector.cpp"], [("Sector::theta, angle, propagateDelta", "matslise/matscs/sector.cpp")], ["Matscs::propagate"])
prop("C18", "Riccati propagation of coupled systems matches the linear propagation",
 "Propagating psi = Y (Y')^{-1} gives the same quotient as propagating Y itself, for either direction and any points in the domain.",
 ["inputs"], "every symmetric matrix potential, size, energy, symmetric psi and pair of points where Y' stays invertible",
 "One test samples one direction on one problem.",
 ["matslise/matscs/sector.cpp", "matslise/matscs/matscs.cpp"], [("propagatePsi_delta", "matslise/matscs/sector.cpp")], ["Matscs::propagatePsi"])
prop("C19", "The eta functions equal their defining series",
 "For every argument Z and order, the computed eta functions agree with their defining entire functions to near working precision, relative to their natural size, including around Z = 0 and across the switch between series and recurrence, and they satisfy the three-term recurrence and the derivative relation.",
 ["inputs"], "every Z of either sign in the range used by the solver, every count and scalar type",
 "The test evaluates a short list of arguments.",
 [U+"calculateEta.h"], [("calculateEta", U+"calculateEta.h")], ["calculateEta"])
prop("C20", "Legendre projection, polynomials and quadrature are exact on polynomials",
 "The Legendre expansion of a polynomial of admissible degree reproduces it: coefficients, integral, and conversion to a monomial polynomial are exact up to rounding on any interval. Polynomial arithmetic (sum, difference, product, scaling, evaluation, derivatives and integrals) agrees with exact polynomial algebra.",
 ["inputs"], "every polynomial, degree, interval, number of nodes and combination of operations",
 "Tests use a few fixed polynomials; the data tables hold hundreds of constants each used by different orders.",
 [U+"legendre.h", U+"legendre_data.h", U+"polynomial.h", U+"horner.h"], [("Legendre class and tables", U+"legendre.h"), ("Polynomial operators", U+"polynomial.h")], ["legendre::getCoefficients", "Legendre::asPolynomial", "Legendre::integrate", "Polynomial"])
prop("C21", "Spectra are invariant under the symmetries of the equation",
 "Reflecting, translating or rescaling the interval, shifting the potential by a constant, or rescaling or negating a boundary condition changes the computed eigenvalues, eigenfunctions and error estimates only as the equation prescribes. Raising the potential pointwise never lowers an eigenvalue, and tightening the tolerance or changing the sector layout changes results only within the tolerance.",
 ["inputs", "configurations"], "every problem and every symmetry transformation of it",
 "Metamorphic relations quantify over pairs of problems, which example tests never run.",
 [M+"matslise.cpp", M+"sector.cpp", U+"sectorbuilder.cpp"], [("everything between construction and eigenvalues", M+"matslise.cpp")], ["Matslise public methods"])
prop("C22", "Results agree across scalar types",
 "Instantiations for long double and quadruple precision solve the same problems as double: for the same problem their propagated values, eigenvalues, indices and eigenfunctions agree with the double results to the accuracy of double, and are themselves at least as accurate for a tighter tolerance.",
 ["inputs", "configurations"], "every problem and every supported scalar type",
 "The tests for wider types reuse a few example problems.",
 [M+"instantiate.h", U+"instantiate.h", U+"legendre_data.h", U+"constants.h"], [("per-scalar instantiation and tables", U+"instantiate.h")], ["Matslise<long double>", "Matslise<__float128>"])
prop("C23", "No input makes the library touch invalid memory or invoke undefined behaviour",
 "Whatever the problem and sequence of queries on it, constructing, querying and destroying solvers and eigenfunctions never reads or writes invalid memory, never leaks, and never invokes undefined behaviour; every call terminates with a result or a C++ exception.",
 ["inputs", "histories"], "every problem and sequence of API calls, including rejected and degenerate arguments",
 "Tests run without sanitizers on valid fixed input.",
 ["matslise/"], [("ownership through unique_ptr, vectors of sectors", "matslise/matslise.h")], ["all public methods, under AddressSanitizer and UndefinedBehaviorSanitizer"])
prop("C24", "Queries are pure: history and concurrency do not change answers",
 "Every query on a constructed problem is a function of the problem and its arguments only: repeating it, interleaving it with any other queries, running it concurrently from several threads, or rebuilding the same problem gives bitwise the same answer, and queries write nothing to standard output.",
 ["histories", "schedules"], "every interleaving of queries from one or several threads on a shared problem",
 "Tests call each query once on a fresh problem from one thread.",
 [M+"matslise.cpp", M+"periodic.cpp", M+"halfrange.cpp", "matslise/matscs/matscs.cpp"], [("const methods, no mutable state", "matslise/matslise.h")], ["all const public methods"])
prop("C25", "The Python module exposes the solver with the documented semantics",
 "Through the Python module, problems built with any mix of documented arguments (potential, interval, tolerance, jumps in any order, symmetric flag, boundary conditions as pairs, omitted right boundary condition, coupling matrix) give the same eigenvalues, indices, errors and eigenfunctions as the underlying solver; invalid combinations raise an exception; and eigenfunctions stay valid after the problem object is released.",
 ["inputs", "configurations", "histories"], "every documented constructor argument combination and query sequence",
 "The Python tests cannot run here and cover a few calls.",
 ["matslise/pyslise/pyslise.cpp", "matslise/pyslise/pyscs.cpp", "matslise/pyslise/sturm_liouville.cpp", "matslise/pyslise/module.h"], [("binding lambdas", "matslise/pyslise/pyslise.cpp")], ["the functions registered with the module"])
prop("C26", "The JavaScript module exposes the solver with the documented semantics",
 "Through the JavaScript module, eigenvalue, eigenpair, error and propagation queries return the same numbers as the underlying solver for the boundary conditions, intervals and jumps given as JavaScript values.",
 ["inputs", "configurations"], "every problem and query expressible in JavaScript values",
 "No test runs the JavaScript module here.",
 ["matslise/js/matslise.cpp", "matslise/js/sturm_liouville.cpp", "matslise/js/module.h"], [("binding lambdas", "matslise/js/matslise.cpp")], ["the functions registered with the module"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
