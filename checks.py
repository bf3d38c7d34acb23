"""How the check of each property is built (harness files are relative to /verif) and how it is described in the manifest."""

CHECKS = {
    "C01": {"harness": ["harness/c01.cpp"],
            "technique": "property-based testing against an independent long double eigenvalue-counting oracle",
            "note": "Generated smooth problems, tunnelling wells, high indices and closed forms. Every returned eigenvalue is judged by counting the eigenvalues below E-d and E+d with a separate integrator, d = 25*tol*scale (measured: below 8). Assumes the reference integrator and the generator's range of potentials."},
    "C02": {"harness": ["harness/c02.cpp"],
            "technique": 'property-based testing against an independent eigenvalue-counting oracle, and metamorphic relations between interval and index queries',
            "note": 'Generated problems, random cuts of an energy interval (also placed exactly on eigenvalues, empty, reversed, adjacent) and random index ranges (also negative and reversed). Assumes the reference integrator; eigenvalues closer to a cut than the tolerance may fall on either side.'},
    "C03": {"harness": ["harness/c03.cpp"],
            "technique": 'property-based testing against an independent high-order integrator, and metamorphic relations (linearity, composition, inverse, Wronskian)',
            "note": 'Points inside, on and next to mesh boundaries, both directions, automatic and uniform meshes. Tolerances follow the condition number of the route through the mesh, computed by the reference.'},
    "C04": {"harness": ["harness/c04.cpp"],
            "technique": 'property-based testing against an independent integrator of the variational equation',
            "note": "d/dE of propagated values and of the matching error, against the reference's variational equation."},
    "C05": {"harness": ["harness/c05.cpp"],
            "technique": 'property-based testing against independent zero counting and eigenvalue counting',
            "note": 'Integer and fractional part of the angle, continuity in the end point, going back, several columns at once; matching angle against the number of eigenvalues below E.'},
    "C06": {"harness": ["harness/c06.cpp"],
            "technique": 'property-based testing with an independent integrator as judge of eigenfunctions',
            "note": 'Steps between random sample points are compared with the reference; boundary conditions, norm, zeros, orthogonality, scalar against array evaluation. Functions that hardly reach the matching point (jump over 1%) are not judged for norm and zeros.'},
    "C07": {"harness": ["harness/c07.cpp"],
            "technique": "property-based testing against exact eigenvalues found and certified by an independent long double integrator",
            "note": "Batches of 8 neighbouring eigenvalues on automatic and on coarser uniform meshes; the estimate is heuristic (isolated eigenvalues may be underestimated by accident), so a violation is an estimate below a third of the true error for more than 5 of 8, or any estimate that is negative, infinite, a millionth of the true error or beyond 25*tol*scale."},
    "C08": {"harness": ["harness/c08.cpp"],
            "technique": "differential property-based testing of MatsliseHalf against the full-range solver and the independent reference",
            "note": "Even potentials on [-X, X]: eigenvalues, indices, estimates, eigenfunctions (values, derivative, scalar and array evaluation, parity, norm), refusal of unequal boundary conditions. Assumes the reference integrator."},
    "C09": {"harness": ["harness/c09.cpp"], "matscs": True,
            "technique": "property-based testing of invariants of the constructed mesh",
            "note": "Scalar, half-range and coupled problems, automatic and uniform meshes, jumps close to each other and to the ends; every evaluation of the potential is recorded; sector means are compared with a quadrature of the potential."},
    "C10": {"harness": ["harness/c10.cpp"],
            "technique": "property-based testing against an independent integrator that restarts at every discontinuity",
            "note": "Random, regular, crowded, central and near-end jump positions, up to 15, narrow barriers, full and half range; eigenvalues (index and interval), propagation with energy derivative, eigenfunctions."},
    "C11": {"harness": ["harness/c11.cpp"],
            "technique": "property-based testing against an independent integrator and the index theorem for coupled boundary conditions",
            "note": "Eight families of K (periodic, antiperiodic, diagonal, shears, rotations, J, general; random signs), eigenvaluesByIndex and eigenvalues over generated ranges: values, indices, multiplicities, completeness, order, range filtering. Assumes the reference integrator."},
    "C12": {"harness": ["harness/c12.cpp"],
            "technique": "property-based testing: eigenfunctions are judged by short reference propagations, the coupling and quadrature",
            "note": "eigenpairsByIndex, eigenpairs and eigenfunction(E): differential equation, coupling by K, norm, independence for double eigenvalues, scalar and array evaluation, nothing written to stdout. Boundary states that decay by more than e^25 inside of one sector are not judged."},
    "C13": {"harness": ["harness/c13.cpp"],
            "technique": "property-based testing against exact derivatives (jets) and quadrature of generated p, q, w",
            "note": "Generated products of powers, exponentials, oscillations and peaks. Maps, inverses, monotonicity, z2y/y2z with energy derivatives, transformed potential. V is the second derivative of a fitted polynomial, so it is judged to 3e-4 at single points and 1e-6 in the median."},
    "C14": {"harness": ["harness/c14.cpp"],
            "technique": "property-based testing against an independent eigenvalue-counting integrator of the original equation",
            "note": "The eigenvalues below E-d and E+d are counted in the original variables, never in the transformed ones; d = 25*tol*scale plus 1e-7 of the size of the terms (the transformation is a polynomial fit)."},
    "C15": {"harness": ["harness/c15.cpp"],
            "technique": "property-based testing with an independent integrator of the original equation as judge",
            "note": "Steps between sample points (ends, mesh points and their neighbours included) are compared with the reference in the original variables; boundary conditions, weighted norm, zeros, scalar against array evaluation. Functions that hardly reach a mesh point are not judged for norm and zeros."},
    "C16": {"harness": ["harness/c16.cpp"], "matscs": True,
            "technique": "property-based testing of coupled systems against an independent extrapolation integrator, and metamorphic relations",
            "note": "1 to 4 coupled equations, jumps, automatic and uniform meshes, points on and next to mesh boundaries, both directions; values and energy derivatives of matrices, single columns and any number of columns; symplectic form, composition, inversion; uncoupled and rotated systems against the scalar solver; points outside the domain. Meshes whose own error estimate exceeds 1e-3 are skipped."},
    "C17": {"harness": ["harness/c17.cpp"], "matscs": True,
            "technique": "property-based testing against the argument of det(Y' + iY) followed by an independent integrator, and metamorphic relations",
            "note": "Self-adjoint initial values, any two points in both directions; the reference follows the phase in steps of a fifth of a radian. Uncoupled systems against the scalar solver; additivity, going back, change of basis. Cases where error growth makes the angle meaningless (kappa above 1e5) are skipped."},
    "C18": {"harness": ["harness/c18.cpp"], "matscs": True,
            "technique": "property-based testing against an independent integrator and against the linear propagation",
            "note": "psi = Y/Y' from random (symmetric or not) start, both directions, any points; cases where the reference finds a pole of psi within the error bound of a point of the route are skipped."},
    "C19": {"harness": ["harness/c19.cpp"], "nolib": True, "libs": ["-lquadmath"], "harness_flags": ["-std=gnu++17", "-DMATSLISE_LONG_DOUBLE", "-DMATSLISE_QUADMATH"],
            "technique": "property-based testing against the defining series with 80 digits",
            "note": "Arguments from -1e6 to 4.9e5, dense around 0, the switch at |Z| = 100, integers where the number of terms changes, and zeros of cos and sin; 2 to 16 functions; double, long double and quadruple precision; recurrence; arrays of arguments. Errors are judged relative to the value (Z > 0) or the amplitude of the oscillation (Z < 0), with the error growth of the forward recurrence beyond |Z| = 100."},
    "C20": {"harness": ["harness/c20.cpp"], "nolib": True, "libs": ["-lquadmath"], "harness_flags": ["-std=gnu++17", "-DMATSLISE_LONG_DOUBLE", "-DMATSLISE_QUADMATH"],
            "technique": "property-based testing against exact integer polynomial algebra and Legendre polynomials with 60 digits",
            "note": "All polynomial operators for several pairs of degrees, exact over int, double and quadruple precision; Legendre expansions with 1 to 18 coefficients on generated intervals in double, long double and quadruple precision: coefficients, monomial form, quadrature up to degree 2k-1 (at most 19), matrix-valued functions."},
    "C21": {"harness": ["harness/c21.cpp"], "matscs": True,
            "technique": "metamorphic property-based testing: every problem is posed again in an equivalent or comparable way",
            "note": "Reflection, translation, scaling, constant shift, rescaled conditions, other tolerance or mesh layout, in sequences of one to three; starting point of periodic problems; half-range against full range; p, q, w rescaled in Sturm-Liouville problems; rotated coupled systems; order relations (raised potential, smaller interval, interlacing, Dirichlet and Neumann bracketing). No reference solution is involved, so indices up to 300 and strong potentials are covered."},
    "C22": {"harness": ["harness/c22.cpp"], "matscs": True, "variant": "wide",
            "defs": ["-std=gnu++17", "-DMATSLISE_LONG_DOUBLE", "-DMATSLISE_QUADMATH"], "libs": ["-lquadmath"],
            "technique": "property-based testing: wider types against each other on different meshes, against double, an independent integrator and exact solutions",
            "note": "Long double (tolerances down to 1e-16) and quadruple precision (down to 1e-25): eigenvalues, indices, eigenfunctions, estimates, propagation, half-range, coupled conditions, Sturm-Liouville, coupled systems; piecewise constant potentials against elementary functions in quadruple precision. Sturm-Liouville problems in the wider types are only judged to 3e-8 (polynomial fit)."},
    "C24": {"harness": ["harness/c24.cpp"], "matscs": True, "variant": "tsan",
            "flags": ["-O2", "-DNDEBUG", "-fsanitize=thread"], "env": {"TSAN_OPTIONS": "halt_on_error=1 exitcode=66 report_signal_unsafe=0"}, "fallback": ["-O2", "-DNDEBUG"],
            "technique": "stateful and concurrent property-based testing under ThreadSanitizer: random query sequences and thread schedules against freshly built problems, bit by bit",
            "note": "All solvers (full range, half range, coupled conditions, Sturm-Liouville with its transformation, coupled systems), random sequences of queries with other problems in between, two to four threads that also build problems, eigenfunctions that are kept and shared; standard output is captured. Schedules are those the machine happens to give; data races are found by ThreadSanitizer on any schedule. If ThreadSanitizer cannot run, the check runs without it."},
    "C23": {"harness": ["harness/c23.cpp"], "matscs": True, "variant": "asan",
            "flags": ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"], "harness_flags": ["-fno-sanitize=undefined"],
            "env": {"ASAN_OPTIONS": "detect_leaks=0:detect_stack_use_after_return=1:allocator_may_return_null=1:abort_on_error=0", "UBSAN_OPTIONS": "print_stacktrace=1"}, "fallback": ["-O2"],
            "technique": "stateful property-based testing of random call histories under AddressSanitizer, UndefinedBehaviorSanitizer and assertions, with allocation counting for leaks",
            "note": "All solvers, ordinary histories and histories with odd arguments: negative and reversed ranges, energies far outside, points outside of the domain, NaN and infinite points, unsorted and empty arrays, kept eigenfunctions, potentials that throw, empty, reversed and infinite intervals, meshes of one sector. More than 30 CPU seconds without an answer is a violation. Not generated, because they are out of contract: NaN or zero boundary conditions, energies beyond 1e6, potentials with NaN values, jumps outside of the domain. The generated formulas and the harness are compiled without UndefinedBehaviorSanitizer (with AddressSanitizer)."},
}
