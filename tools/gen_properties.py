#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that long statements stay readable)."""
import json, os
P = []
MPS = "lib/mpslib/mps.py"; MF = "lib/mpslib/mpsfunctions.py"; EN = "lib/mpslib/engines.py"
HA = "lib/mpslib/Hamiltonians.py"; LA = "lib/Lanczos/LanczosEngine.py"; SE = "lib/mpslib/sexpmv.py"
NC = "lib/ncon/ncon.py"; UT = "lib/utils/utilities.py"; BI = "lib/utils/binaryoperations.py"


def p(id, title, statement, over, qtext, why, files, mech, state=None):
    anchors = {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}
    if state:
        anchors["state"] = state
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": anchors})


p("C01", "Tensor-network contraction equals the explicit index sum",
  "ncon(tensors, legs, order, forder) returns, for every well-formed network (any number of tensors, traces, disconnected parts, scalars, real or complex), exactly the sum over all positive labels of the product of the tensors, with the open legs ordered -1, -2 and so on, or as given by forder. "
  "The value does not depend on the contraction order and the caller's tensors and leg lists are left untouched. "
  "A malformed network (wrong number of legs, a positive label not occurring exactly twice, an open label repeated, mismatching dimensions) is rejected with an exception instead of producing a number.",
  ["inputs", "programs"], "all networks, contraction orders, final orders, dtypes and leg dimensions",
  "ncon is only used implicitly by other tests with a handful of fixed networks; the quantifier is over all networks and orders.",
  [NC], [("ncon", NC), ("connect_graph", NC), ("do_check_indices", NC)])

p("C02", "Local QR/SVD splittings are exact, isometric and normalised",
  "Splitting an MPS tensor to the left or right by QR or SVD (prepareTensor with and without phase fixing, prepareTensorSVD, prepareTruncate without truncation, svd, qr) returns an isometric tensor, a bond matrix of unit Frobenius norm (non-negative, descending singular values for SVD) and a scalar Z whose product reproduces the input tensor. "
  "With truncation the kept singular values are the largest ones not below the threshold, at most D of them, rescaled to norm one, while Z remains the norm of the untruncated tensor. "
  "Orthonormalising a stretch of an MPS (orthonormalizeQR/SVD) makes the tensors of the stretch isometric, with the returned matrix (or the neighbouring tensor) carrying the rest up to normalisation.",
  ["inputs"], "all tensor shapes (tall, wide, D=1), dtypes, ranks (rank-deficient included), scales, directions, fixphase options, D and thresholds",
  "The tests run the splittings only inside full sweeps on well-conditioned random states; isometry and exact reconstruction must hold for every tensor.",
  [MF], [("prepareTensor", MF), ("prepareTruncate", MF), ("prepareTensorSVD", MF), ("orthonormalizeQR", MF), ("orthonormalizeSVD", MF), ("svd", MF), ("qr", MF)])

p("C03", "Moving the orthogonality centre never changes the state",
  "For a finite MPS, any sequence of moves of the centre bond (position, getSchmidt, and the reads tensor and tolist) leaves the represented vector, including norm and phase, unchanged. "
  "After a full sweep every tensor left of the centre is left-isometric, every tensor right of it right-isometric, the centre matrix has unit Frobenius norm, and getSchmidt(n) returns exactly the Schmidt coefficients of the normalised state across bond n, in descending order up to zeros. "
  "The constructors (random, ones, fromList, productState) produce the state they are documented to produce, with the requested lengths, local dimensions and dtype.",
  ["histories", "inputs"], "all finite states (lengths >= 2, mixed local dimensions, any bond dimensions, real/complex, any scale) and all sequences of centre moves",
  "Tests sweep a few random states once and look at the overlap only; phases, norms and arbitrary move histories are not sampled.",
  [MPS, MF], [("position", MPS), ("getSchmidt", MPS), ("tensor", MPS), ("tolist", MPS), ("fromList/productState/random", MPS)],
  [{"name": "centre bond", "meaning": "bond where left- and right-isometric tensors meet", "observe_at": "mps.pos, mps.tensors, mps.tolist()"}])

p("C04", "Truncation respects its limits and its error budget",
  "Truncating a finite canonical MPS (position with D/schmidt_thresh, or truncate) keeps at most D states on every bond crossed by the sweep, never increases a bond, and a threshold discards exactly the Schmidt coefficients that are not above it. "
  "The result keeps the norm and phase of the original, stays canonical, and its squared normalised overlap with the original is at least one minus the sum over the crossed bonds of the discarded squared Schmidt coefficients. "
  "It equals the original state if only vanishing coefficients are discarded.",
  ["inputs", "configurations"], "all finite states, all D and schmidt_thresh values, all start positions",
  "One test truncates one kind of random state; the error bound must hold for every spectrum (decaying, degenerate, rank deficient), limit and start position.",
  [MPS, MF], [("position(D,schmidt_thresh)", MPS), ("truncate", MPS), ("prepareTruncate", MF)])

p("C05", "MPS arithmetic is vector arithmetic",
  "a+b, a-b, a+=b, -a, c*a, a*c, a/c, a*=c, a/=c and conjugate() represent exactly the corresponding operation on the represented vectors, for finite MPS of equal local dimensions whatever their centre positions, norms, phases, bond dimensions and mix of real and complex dtypes, and also when chained. "
  "Operands that are not assigned to keep the vector they represented, and copies are independent of their source in both directions. "
  "Adding states of different length or local dimension is refused with an exception.",
  ["inputs", "histories"], "all expressions over finite MPS",
  "Tests check one chain of real additions and subtractions after normalising; mixed dtypes, phases, positions, chained in-place operations are not covered.",
  [MPS, MF], [("__add__/__iadd__/__sub__/__mul__/__neg__/conjugate/copy", MPS), ("addMPS", MF), ("directsum", MF)])

p("C06", "Overlaps and local expectation values equal their dense counterparts",
  "dot/overlap of two finite MPS returns sum_s a_s*conj(b_s) of the represented vectors including phases and norms. "
  "measureLocal, measureList, measureMatrixElementList and the list-based mpsfunctions.measureLocal/matrixElementLocal/measure return psi_in * op[in,out] * conj(psi_out) (first operator index on the ket) for every site, operator and centre position. "
  "All of them leave the represented states and the centre positions as they were.",
  ["inputs", "histories"], "all swept finite states, all operators (hermitian or not, real or complex), all sites, mixed local dimensions, all centre positions",
  "Measurements are tested only through DMRG densities on real operators in one gauge.",
  [MPS, MF], [("overlap", MF), ("measureLocal/measureList/measureMatrixElementList", MPS), ("measureLocal/matrixElementLocal/measure", MF)])

p("C07", "Correlators, including Jordan-Wigner strings, equal the dense ones",
  "measure(ops, sites) returns the expectation value of the product of the given operators at the given weakly increasing sites (operators on the same site are multiplied in order) for a normalised finite MPS. "
  "With Jordan-Wigner operators P it returns the expectation value of the fermionic operator string, which is that of the product of the dressed operators (prod_{m<site} P_m) op_site. "
  "Measuring leaves the represented state unchanged.",
  ["inputs"], "all normalised finite states, operator lists, site lists (adjacent, distant, repeated, boundary), parity strings, mixed local dimensions",
  "The docstring itself warns the routine could be wrong; no test measures a string of more than one operator.",
  [MPS], [("measure", MPS)])

p("C08", "Gates act exactly and account for truncation",
  "applyOneSiteGate and applyTwoSiteGate replace the represented vector psi by psi_in*gate[in,out] (gate indices in1,in2,out1,out2) on the addressed sites and nothing else, keep the canonical form, and are exact for one-site gates (norm included) and for two-site gates when no truncation is requested (a two-site gate keeps the norm stored in the object and yields the normalised result). "
  "A truncating two-site gate leaves at most Dmax states on the bond, drops coefficients below thresh, returns as tw the sum of the squared discarded Schmidt coefficients and the resulting bond dimension, and yields the best normalised approximation on that bond.",
  ["inputs", "histories"], "all finite states, gates, sites, mixed local dimensions, Dmax and thresh values, sequences of gates",
  "No stable test applies gates; TEBD tests look at densities of one model only.",
  [MPS], [("applyOneSiteGate", MPS), ("applyTwoSiteGate", MPS)])

p("C09", "Applying an MPO to an MPS is exact",
  "Applying an MPO to a finite MPS, through the MPS method or through mpsfunctions.applyMPO (in place or not), yields exactly the vector psi_in*O[in,out] with bond dimensions that are the products of those of MPS and MPO. "
  "The not-in-place variant leaves its input untouched, and repeated application composes.",
  ["inputs"], "all finite MPS (any centre position, norm, phase) and MPOs with matching local dimensions, including non-hermitian, complex and dimension-changing ones",
  "No stable test applies an MPO to a state.",
  [MPS, MF], [("applyMPO", MPS), ("applyMPO", MF)])

p("C10", "Canonical Gamma-Lambda form represents the same state",
  "canonize() (finite and infinite MPS) and canonizeMPS (finite lists) deliver Gammas and Lambdas whose alternating product Lambda-Gamma-Lambda reproduces the normalised state (for infinite states: the same local physics), with N+1 vectors of positive, descending Schmidt coefficients normalised to one, equal to the true Schmidt coefficients of each cut and [1] at open ends. "
  "With a truncation threshold the same holds for the truncated state, which deviates by no more than the discarded weight allows. "
  "Lambda*Gamma is left-isometric and Gamma*Lambda right-isometric on every site; the state the MPS itself represents is not changed.",
  ["inputs"], "finite and infinite MPS, real/complex, any unit-cell length, bond dimension, initial centre",
  "Tests canonise a few random states and check isometry only.",
  [MPS, MF], [("canonize", MPS), ("canonizeMPS", MF)])

p("C11", "Gauge transforms of infinite MPS preserve the physical state",
  "regauge of an infinite MPS (MPS.regauge, regaugeIMPS, single-tensor mpsfunctions.regauge) to 'left', 'right' or 'symmetric' gauge yields isometric tensors in the requested direction, with normalised bond/connector matrices that, in symmetric gauge, are the positive descending Schmidt coefficients and make the complementary isometry hold. "
  "The infinite state is unchanged: the mixed transfer operator of old and new unit cell has spectral radius one after normalisation, and all local expectation values agree. "
  "Truncation of an infinite MPS respects D and the threshold, keeps the state canonical and normalised, and changes nothing when only vanishing Schmidt coefficients are discarded.",
  ["inputs"], "all normal (injective) unit cells of any length >= 1, bond and local dimensions, real or complex, any scale, gauges, repeated regauging in any order",
  "Tests verify isometry for some random tensors; invariance of the physical state and sequences of gauges are not tested.",
  [MPS, MF], [("regauge", MPS), ("regaugeIMPS", MF), ("regauge", MF), ("truncate", MPS)])

p("C12", "Transfer operators are the right linear maps, and eigensolvers solve them",
  "TransferOperator, MixedTransferOperator, their unit-cell variants, the GeneralizedMatrixVectorProduct, and contractE/addELayer apply exactly the linear map defined by their tensors (left: x -> sum A^T x conj(B), right: x -> sum A x B^dagger, leg 0 of x on the unconjugated side), left and right versions being adjoint to each other. "
  "TMeigs, UnitcellTMeigs and MixedUnitcellTMeigs return the dominant eigenvalue and an eigenvector satisfying the eigen-equation, and computeDensity propagates reduced density matrices consistently through the cell.",
  ["inputs"], "all tensors (rectangular where allowed), lengths, dtypes, directions",
  "The tests check TMeigs on a few random square tensors; the maps themselves and the mixed versions are not compared to anything.",
  [MF], [("TransferOperator", MF), ("MixedTransferOperator", MF), ("UnitcellTransferOperator", MF), ("TMeigs", MF), ("UnitcellTMeigs", MF), ("computeDensity", MF)])

p("C13", "Model MPOs are the Hamiltonians they claim to be",
  "For every model class (TFI, XXZ, XXZflipped, spinless fermions, Hubbard chain, the on-site-squared JessHamiltonian, the bosonic phi^4 and Lieb-Liniger families) and every choice of site-dependent couplings, chain length and boundary condition the class supports, contracting the MPO gives exactly the documented second-quantised or spin Hamiltonian, with correct fermionic signs, and a hermitian operator for real couplings. "
  "Coupling n acts on exactly bond (n,n+1) or site n, and the constructor does not modify its arguments.",
  ["inputs", "configurations"], "all coupling arrays (random, zero, sign changing, site dependent), lengths, dtypes",
  "DMRG tests use homogeneous couplings of two models, so a misplaced or missing site-dependent coefficient is invisible.",
  [HA], [("TFI, XXZ, XXZflipped, SpinlessFermions, HubbardChain, JessHamiltonian, PhiFour*, LiebLiniger*", HA)])

p("C14", "Two-site gates and bond Hamiltonians derive consistently from the MPO",
  "For every nearest-neighbour MPO with open ends, the bond operators behind twoSiteGate(m,n,tau) sum over all bonds exactly to the full Hamiltonian with every on-site term counted once. "
  "twoSiteGate(m,m+1,tau) is the exact exponential exp(tau*h_bond) for real, imaginary and complex tau, in the index order (in1,in2,out1,out2), unitary for imaginary tau.",
  ["inputs"], "all models, coupling arrays, bonds, lengths >= 2, values of tau",
  "No stable test looks at a gate; boundary bonds and site-dependent on-site terms are the classical places for mistakes.",
  [HA], [("MPO.twoSiteGate", HA)])

p("C15", "Environments and effective Hamiltonians are exact projections of H",
  "Left/right environments (getL, getR, getUCL, getUCR, addLayer, addELayer, contractMPO, contractE, initializeLayer, and those an engine keeps while its centre is moved) contracted with the remaining tensors give exactly <psi|H|psi> at every bond. "
  "contractionH and the single-site and bond matrix-vector products (HAproductSingleSite, HAproductSingleSiteMPS, HAproductZeroSite, HAproductZeroSiteMat, HAproductBond, HAproductBondMatrix) apply exactly the projection of H onto the tangent space at that site or bond, which is hermitian in a canonical gauge.",
  ["inputs", "histories"], "all states, MPOs (including random non-hermitian ones where hermiticity is not claimed), sites, centre moves",
  "Tests see only converged ground-state energies.",
  [MF, EN], [("addLayer/addELayer/getL/getR/contractMPO", MF), ("HAproduct*", MF), ("Container.position/update", EN)])

p("C16", "Krylov eigensolvers return true extremal eigenpairs of the effective Hamiltonian",
  "The local eigensolvers (LanczosEngine, lanczos, lanczosbond, eigsh, eigshbond, lobpcg) return, in ascending order, the lowest eigenvalues of the hermitian operator they are given, with normalised mutually orthogonal eigenvectors satisfying H v = e v to the requested tolerance whenever convergence is reported (several Lanczos vectors, and degenerate levels: only as far as one Krylov space resolves them). "
  "A returned value is never below the true lowest eigenvalue and never above the Rayleigh quotient of the start vector, and the start vector is not modified.",
  ["inputs"], "all hermitian operators (real, complex, degenerate, gapped), start vectors, tolerances, numbers of vectors, Krylov sizes",
  "The solvers are exercised through DMRG energies of two models only.",
  [LA, MF], [("LanczosEngine.__simulate__", LA), ("lanczos/lanczosbond/eigsh/eigshbond/lobpcg", MF)])

p("C17", "Local exponential propagators equal the matrix exponential",
  "evolveTensorSexpmv, evolveTensorLan, evolveMatrixSexpmv, evolveMatrixLan and gexpmv return exp(tau*H_eff) applied to the tensor, and evolveTensorsolve_ivp/evolveMatrixsolve_ivp return exp(-i*tau*H_eff) applied to it, within the tolerance of the method, for real, imaginary and complex steps of either sign where accepted. "
  "For unitary steps the norm and the energy are conserved, forward and backward steps cancel, steps compose, and the inputs are not modified.",
  ["inputs"], "all hermitian effective Hamiltonians, tensors (real and complex), steps, Krylov dimensions",
  "The time-evolution tests are not reliably runnable here and look at one model's density profile.",
  [MF, SE, LA], [("evolveTensor*/evolveMatrix*", MF), ("gexpmv", SE), ("LanczosTimeEvolution", LA)])

p("C18", "Finite DMRG is variational and converges to the ground state",
  "DMRG (single-site simulate with AR, LAN or LOBPCG, and two-site simulateTwoSite) returns an energy that equals <psi|H|psi>/<psi|psi> of the final state, is never below the exact ground-state energy, and does not rise from sweep to sweep beyond solver tolerance without truncation. "
  "With sufficient bond dimension it reaches the exact ground-state energy, the final MPS is canonical and normalised, and two-site DMRG respects the maximal bond dimension; the run works on the MPS it is given and leaves the MPO and boundary environments as they are.",
  ["inputs", "configurations", "histories"], "all finite open-chain MPOs, initial states, solvers, bond dimensions, sweep counts, restarts",
  "Tests converge two models at fixed size from random starts; the variational bound, consistency of returned energy and state, two-site limits are not asserted.",
  [EN, MF], [("DMRGengine.simulate/simulateTwoSite", EN), ("Container.position/update", EN)])

p("C19", "TEBD reproduces exact time evolution with second-order error",
  "doTEBD(dt,numsteps) evolves the engine's state by exp(dt*numsteps*H) up to a second-order Trotter error (halving dt at fixed total time reduces the global error about fourfold) and the truncated weight it reports; it is exact when all bond terms commute. "
  "Imaginary dt preserves the norm and conserved quantities, real negative dt lowers the energy and converges to the ground state with the state kept normalised, and the reported elapsed time equals the time evolved, also across consecutive calls. "
  "Dmax is never exceeded, and splitting a run into consecutive calls, or checkpointing it, gives the same state as one uninterrupted call.",
  ["inputs", "histories", "configurations"], "all nearest-neighbour models, states, dt (real, imaginary), step numbers, Dmax, verbosity and checkpoint settings, splits of a run",
  "The time-evolution tests are not stable here and cover one model and one dt.",
  [EN, MPS, HA], [("TimeEvolutionEngine.doTEBD", EN), ("applyTwoSiteGate", MPS), ("twoSiteGate", HA)])

p("C20", "TDVP conserves norm and energy and converges to exact evolution",
  "doTDVP with imaginary dt conserves the norm and the energy of the state at any bond dimension and, at full bond dimension, reproduces exp(dt*numsteps*H) up to an error vanishing with dt; all solvers (LAN, SEXPMV, RK45, RK23, DOP853, BDF) agree. "
  "Real negative dt lowers the energy monotonically. "
  "Bond dimensions never change, runs compose (n+m steps equals n then m), and the user's initial state is not altered.",
  ["inputs", "histories", "configurations"], "all finite MPOs, states, dt, step numbers, solvers able to treat complex numbers, bond dimensions",
  "The time-evolution tests are not stable here and cover one model.",
  [EN, MF], [("TimeEvolutionEngine.doTDVP", EN), ("evolveTensor*/evolveMatrix*", MF)])

p("C21", "Infinite-system optimisers converge to the thermodynamic ground state",
  "VUMPS (AR and LAN solvers), the gradient engine HomogeneousIMPSengine and IDMRG, when converged, yield a uniform or unit-cell state whose energy density, measured independently from its tensors, equals the value the engine reports and approaches the exact ground-state energy density from above as D grows. "
  "The state left in the engine is the optimised one, its tensors are isometric and mutually consistent, and its residual gradient is below the requested accuracy.",
  ["inputs", "configurations"], "gapped translation-invariant nearest-neighbour MPOs, D >= 3, dtypes, solvers, start states",
  "One critical model is tested with one solver against one number.",
  [EN, MF], [("VUMPSengine.simulate", EN), ("HomogeneousIMPSengine.simulate", EN), ("IDMRGengine.simulate", EN)])

p("C22", "Steady-state environments of infinite MPS solve their linear equations",
  "The environment routines for infinite systems (RENORMBLOCKHAMGMRES, TDVPGMRES, computeUCsteadyStateHamiltonianGMRES, getBoundaryHams) return blocks that solve the geometric-series equation with the divergent component projected out, and whose energy-per-cell extensive part equals the energy density measured directly on the state. "
  "Pseudo- and one-minus-transfer operators are exactly 1 - exp(i*k)*(T - |r)(l|), with the projector present only at zero momentum, in both directions.",
  ["inputs"], "all normal unit cells, models, directions, dtypes, momenta where supported, regauging options",
  "Tests check the zero-momentum equation for random two-site operators; unit cells and boundary Hamiltonians are not checked.",
  [MF], [("RENORMBLOCKHAMGMRES", MF), ("computeUCsteadyStateHamiltonianGMRES", MF), ("getBoundaryHams", MF), ("OneMinusPseudoTransferOperator", MF)])

p("C23", "Saving, loading, checkpointing and resuming lose nothing",
  "save followed by load (MPS and engines) into any object restores every observable property: the represented vector with norm and phase, bond dimensions and limits, centre position, dtype, boundary condition and canonical form, and for engines the MPO, environments and bookkeeping needed to continue. "
  "A checkpoint written during a DMRG, TEBD, TDVP, VUMPS or gradient run is a complete file holding the state of that step, from which the run continues to the same result as the checkpointed run that was not interrupted, also when the process is killed between checkpoints; keep_cp keeps or removes the intermediate files as requested, and no file of the user is touched. "
  "Saving does not alter the object saved.",
  ["histories", "crash_points", "configurations"], "all states and engines at any point of a history, all checkpoint periods, kills at any step",
  "No test saves, loads or resumes anything.",
  [MPS, EN], [("MPS.save/load", MPS), ("Container.save/load, cp arguments", EN)])

p("C24", "Bit operations, basis enumeration and Wick sums are exact",
  "flipBit, setBit, unsetBit and getBit act on exactly the addressed bit of any 64-bit integer, and binarybasis(N,Nup) lists every N-bit state with Nup bits set exactly once. "
  "SFwick and SBwick return the fermionic (determinant, with sign) respectively bosonic (permanent) Wick contraction of the given creation and annihilation operators for a two-point function Mij, and the scalar root finder, step-size and gradient helpers, random periodic functions, smoothing filter and phase or order matching of utilities satisfy their defining equations.",
  ["inputs"], "all bit positions 0..63, all N and Nup, all correlation matrices (non-symmetric, complex) and index lists",
  "Nothing in the tests calls these.",
  [BI, UT], [("flipBit/setBit/unsetBit/getBit/binarybasis", BI), ("SFwick/SBwick", UT)])

p("C26", "Homogeneous TDVP update is the projected gradient of the energy",
  "TDVPupdate(r, A, mpo) for a left-orthogonal homogeneous tensor returns the energy density of the two-site Hamiltonian, a tangent vector in left gauge (sum over A^dagger Adot vanishes) that is the orthogonal projection of H|psi> onto the tangent space in the metric of the state, and the norm of that vector. "
  "The energy therefore changes at the rate 2*norm^2 along it and not at all along i times it, so that small steps A - dt*Adot followed by regauging lower the energy in imaginary time and conserve it in real time up to second order. "
  "The result does not depend on the start vector of the linear solver, on the local dimension, or on real or complex tensors.",
  ["inputs", "histories"], "all injective left-orthogonal tensors (D >= 3, any local dimension), two-site hermitian operators in MPO form, start vectors, histories of steps",
  "Only an example script calls the routine; no test does.",
  [MF], [("TDVPupdate", MF), ("TDVPGMRES", MF), ("regauge", MF)])

p("C25", "Queries and pure functions do not mutate or alias their inputs",
  "Every function documented to return a new object (tensor decompositions, contractions, transfer operators, environment builders, solvers, propagators, MPO constructors and gates, MPS constructors, copy, tolist, arithmetic) leaves the arrays, lists and objects passed to it bitwise unchanged. "
  "Objects it returns can be modified in place without affecting the inputs, and constructing an MPS or engine from user data decouples it from later changes of that data where documented to copy. "
  "Repeating a deterministic query returns the same value.",
  ["inputs", "histories"], "all public functions over the generated inputs of the other properties",
  "Aliasing bugs need a later mutation to show; no test mutates inputs afterwards.",
  [MPS, MF, HA, EN], [("public functions", MF), ("MPS methods", MPS)])

p("C27", "Auxiliary network routines do what they are documented to do",
  "FinegrainDolfi splits every two-level site into two by the isometry |0> -> |00>, |1> -> (|01>+|10>)/sqrt(2) without any other change of the state; patchmpo rotates the sites of an MPO; MPSinit/MPSinitializer return tensors of the requested length, shapes, dtype, scale and range. "
  "fixPhase, check_normalization, prepareTensorfixA0 and contractionE satisfy their defining equations. "
  "The site and bond environments of a homogeneous periodic chain (PeriodicMPSengine.getHeffNeff with matvec, gram and matvecbond) give exactly the energy and norm forms of the periodic state.",
  ["inputs"], "all tensors, bond and local dimensions, dtypes, chain lengths, cut positions",
  "No test calls these routines apart from MPSinit, whose dtype is never looked at.",
  [MF, EN], [("FinegrainDolfi, patchmpo, MPSinitializer, fixPhase, check_normalization, prepareTensorfixA0", MF), ("PeriodicMPSengine.getHeffNeff", EN)])

p("C28", "Inadmissible calls are refused and leave everything unchanged",
  "A call outside the documented domain (bond, site or gate position outside the chain, operators, gates, MPO tensors or partner states of the wrong dimension or number, unsorted sites, unknown solver, gauge or direction, non-numeric steps or factors, missing or corrupt files, engines with states and Hamiltonians that do not fit together) raises an exception instead of returning a number or a state. "
  "After the refusal the represented state, its canonical form and all tensors passed in are the same as before, from every centre position, so that the caller can carry on.",
  ["inputs", "histories"], "all finite states, centre positions and inadmissible arguments of the public methods, list-level functions and finite engines",
  "Tests only make valid calls; a silently accepted invalid call or a half-done update shows up much later as wrong physics.",
  [MPS, MF, EN], [("MPS methods", MPS), ("list-level functions", MF), ("DMRGengine, TimeEvolutionEngine", EN)])

p("C29", "Public operations compose: any program equals the same program done exactly",
  "For every sequence of public operations on finite states (construction, centre moves, gates, MPOs, sums, products with numbers, copies, conjugation, truncation, canonization, storage, single-tensor access, measurement, DMRG, TEBD and TDVP runs) every state in use represents after every step the vector the same program produces on exact vectors, stays canonical with the right shape, and every number returned along the way is that of the exact vector; other states are unaffected. "
  "This covers states straight from a sum, an MPO or a truncation, whose bonds can exceed the rank and whose centre matrix can be rectangular, and the sequence of the example scripts (ground state, truncation, excitation, evolution, storage). "
  "The same holds for programs on infinite unit cells (gauges, scaling, conjugation, truncation, measurement, overlap, storage) relative to the state per unit cell.",
  ["histories", "inputs"], "all finite chains of up to 6 sites with mixed local dimensions, all programs of public operations and engine runs on them; infinite cells of 1-3 sites",
  "Each unit test applies one operation to a freshly made state; defects at the hand-over between operations (stale caches, centre conventions, dtypes, shapes) need sequences.",
  [MPS, MF, EN], [("MPS public methods", MPS), ("applyMPO, HAproductBond", MF), ("DMRGengine, TimeEvolutionEngine", EN)])

P.sort(key=lambda x: x["id"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        n = x["statement"].count(". ") + 1
        assert n <= 3, (x["id"], n)
        f.write(json.dumps(x) + "\n")
print(len(P))
