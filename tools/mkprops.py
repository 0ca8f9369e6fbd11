#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the statements are easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe, hook_needed=hook)))

prop('C01', 'A stored state file loads back exactly, or not at all, after any disk fault',
 'Loading a file that storing a finite or infinite matrix product state wrote gives back exactly the stored state (same number, order, shape and values of the tensors, real or complex), in the same process or after a restart, and however often names are reused. '
 'If a write is cut short, fails, or is lost in a crash, a later load either raises an error or returns exactly a state that had been stored under that name, never a different one. '
 'Storing never changes the state being stored, and a store that cannot succeed reports an error rather than returning normally.',
 ['fault_sequences', 'crash_points', 'histories', 'inputs'],
 'Every sequence of stores, loads and restarts over a few file names, for states of any length, site dimension, bond structure (regular or not) and number type, with every position of a failed, short or torn write, full disk, read error or crash.',
 'The tests store one random state to a healthy disk and read it back at once; they never fail a write, crash, reuse a name, or store a state whose bond dimensions are irregular.',
 ['xmps/fMPS.py', 'xmps/iMPS.py'],
 [('serialisation of tensors with a structure header', 'fMPS.store/load/serialize/deserialize'), ('unit-cell header and tensors', 'iMPS.store/load/serialize/deserialize')],
 ['fMPS.store', 'fMPS.load', 'iMPS.store', 'iMPS.load'],
 [('L,d,D header', 'shape information written in front of the tensor data', 'xmps/fMPS.py store')])

prop('C02', 'Checkpoints never overwrite one another and survive a crash while saving',
 'Every time a time-evolution run is checkpointed, the checkpoint goes to a fresh numbered place next to the earlier ones of the same run name and is reported to the caller, no earlier checkpoint of this or any other run is altered, and resuming by name restores the most recent complete checkpoint (or a requested one): its current and initial state, Hamiltonian and accumulated results. '
 'A crash or disk error in the middle of checkpointing leaves every earlier checkpoint resumable and never makes resuming return a mixture of runs or a silently incomplete run. '
 'Saving a finished record to a data directory writes exactly that record under the name of the run and, when asked, resets the run to its initial state only after the record is written.',
 ['crash_points', 'histories', 'fault_sequences'],
 'Every sequence of checkpoint, resume, save, evolve and restart operations by several runs whose names may be prefixes of one another, any number of checkpoints per name, with a crash or disk error at any file operation.',
 'The one test of stopping and resuming needs a compiled extension that is absent and is skipped; even it takes a single checkpoint on a healthy disk and resumes it at once.',
 ['xmps/fTDVP.py', 'xmps/fMPS.py'],
 [('numbered run directories', 'Trajectory.stop'), ('selection of the latest run directory', 'Trajectory.resume'), ('record files', 'Trajectory.save')],
 ['Trajectory.stop', 'Trajectory.resume', 'Trajectory.save', 'contents of the run directories'],
 [('run_dir', 'directory of the current checkpoint', 'xmps/fTDVP.py')])

prop('C03', 'Measuring or re-gauging a finite chain never changes its state or later results',
 'Whatever sequence of canonicalisations, orthogonalisations, gauge matching, zero-padding of bonds and measurements (one-site, several-site and full operators, reduced density matrices, entropies, energies, overlaps, norms) has been applied to a finite chain or thermofield double, by whatever clients sharing it, the physical state (up to norm and phase) is the one it was given. '
 'Every measurement returns the value that state implies, as computed from its full state vector, independent of which other operations came before it. '
 'After a canonicalisation or orthogonalisation call the tensors really have the form asked for, with the stored Schmidt spectrum being that of the state.',
 ['histories', 'schedules', 'inputs'],
 'Every interleaving of measurement and gauge operations issued by several clients on one shared state, for every starting state including product, degenerate-Schmidt-spectrum, rank-deficient and real ones, and every site, site range and operator.',
 'Tests call one operation on a fresh random state; bugs here need a particular earlier operation (which moved the orthogonality centre, or left a stale flag) or a state with degenerate singular values.',
 ['xmps/fMPS.py', 'xmps/tensor.py', 'xmps/tests.py', 'xmps/peps_tools.py'],
 [('tracking of the orthogonality centre and canonical flags', 'fMPS.oc/canonical/orthogonal'), ('SVD and QR sweeps', 'fMPS.left_canonicalise, right_canonicalise, mixed_canonicalise, *_orthogonalise')],
 ['fMPS.E, E_, Es, E_k, E_L, rho, entanglement_entropy, energy, overlap', 'fTFD.E, Es'],
 [('oc', 'site of the orthogonality centre', 'xmps/fMPS.py')])

prop('C04', 'Gate circuits on a finite chain act as the same circuit on the state vector',
 'Applying any circuit of one-site operators, two-site gates on any two different sites (adjacent or not, in either order, the gate\'s first factor acting on the first site named), single-site post-selections and sums or scalar multiples of states, mixed with measurements and re-gauging, leaves the chain in the state (up to norm and phase) that the same circuit gives on the full state vector, and later measurements agree with it. '
 'A bond limit given to a gate is respected at the bond it acts on, is exact when it is not binding, and when it binds with the orthogonality centre at the gate it keeps the largest Schmidt weights and nothing else.',
 ['programs', 'histories', 'schedules'],
 'Every circuit and every interleaving of its gates with measurements and gauge changes by other clients, for every length, pair of sites, choice of side and bond limit.',
 'Tests check the helper functions on one tensor and a one-site operator on a fresh state; no test applies a two-site gate to a chain, measures between gates, or post-selects.',
 ['xmps/fMPS.py'],
 [('swap network for distant sites', 'fMPS.apply_two_site'), ('splitting by QR, RQ or truncated SVD', 'separate_tensor_*')],
 ['fMPS.apply, apply_two_site, post_select, add, mul', 'measurements afterwards'])

prop('C05', 'A singular value decomposition that fails to converge never corrupts a result',
 'If the fast singular value decomposition fails to converge at any subset of the places where the library calls it during any operation on finite or infinite states, the operation completes with the same physical result as without the failures, by falling back to the robust driver. '
 'If the robust driver fails as well, the operation raises an error, and a canonicalisation without truncation that fails this way leaves the physical state of the chain as it was. '
 'The fallback accepts the same options and matrix shapes and returns factors with the same shapes and meaning as the fast one.',
 ['fault_sequences', 'histories'],
 'Every subset of decomposition calls failing (fast driver only, or both), in every operation that decomposes tensors, over histories of operations on several states.',
 'Convergence failures practically never occur on test inputs, so no test ever runs the fallback path or sees an operation abort between two decompositions.',
 ['xmps/svd_robust.py', 'xmps/fMPS.py', 'xmps/tensor.py'],
 [('fallback from the divide-and-conquer to the QR-iteration driver', 'svd_robust.svd'), ('order of updates in the sweeps', 'fMPS.right_canonicalise, left_canonicalise')],
 ['results of state construction, canonicalisation, truncation, gates', 'svd_robust.svd'])

prop('C06', 'Copies, inputs and other states are never changed by work on one state',
 'Any operation on one state object, whether it completes or is aborted at any point by an interrupt, an allocation failure or a numerical error, leaves every other state object (copies, the state it was copied or derived from, the initial state kept by a time-evolution run, states passed as arguments to read-only operations) and every operator, Hamiltonian or vector passed in exactly as they were. '
 'Editing the tensors of a copy in place does not show in the original. '
 'Operations that only read a state (overlaps, norms, full state vectors, serialisation, energies, sums, one-site gates on a new state, tangent vectors, saving) leave its own tensors unchanged as well, even when aborted.',
 ['fault_sequences', 'crash_points', 'histories'],
 'Every history of operations over a pool of finite chains, infinite chains, PEPS and evolution runs derived from one another, with an abort at any executed line of any operation.',
 'Tests never look at other objects after an operation, nor abort one; sharing of tensors between objects shows only under a particular derive-then-modify order.',
 ['xmps/fMPS.py', 'xmps/iMPS.py', 'xmps/fPEPS.py', 'xmps/fTDVP.py', 'xmps/iTDVP.py'],
 [('copies', 'fMPS.copy, iMPS.copy, fPEPS.copy'), ('new objects for results', 'fMPS.apply, add, mul, dA_dt'), ('copied initial states', 'Trajectory.__init__')],
 ['tensors of all other objects', 'arguments after each call'])

prop('C07', 'Independent computations running in parallel threads do not affect each other',
 'When several threads each work on states of their own (evolving, canonicalising, measuring, applying gates, computing tangent-space quantities, solving for infinite-chain environments), or share states that they only read, each gets the results it gets when it runs alone, however the threads are interleaved. '
 'No thread is made to fail or wait for ever by another.',
 ['schedules'],
 'Every interleaving, at the granularity of executed lines of the library, of two to four tasks with workloads drawn from all parts of the library.',
 'Tests are single threaded; state shared behind the scenes (module-level buffers, caches, class attributes) shows only when a switch falls between its write and its use.',
 ['xmps/fMPS.py', 'xmps/iMPS.py', 'xmps/fTDVP.py', 'xmps/ncon.py', 'xmps/svd_robust.py', 'xmps/tensor.py', 'xmps/fPEPS.py'],
 [('no shared mutable state between objects', 'all modules'), ('memo tables held per object', 'fMPS.F1, F2, christoffel')],
 ['results of each task'])

prop('C08', 'Evolution runs record every step; interrupting or resuming them loses nothing',
 'Integrating a finite or infinite chain over a list of times adds exactly one record per time, in order, each record being the state at that time with its bond dimension, and leaves the run at the last recorded state. '
 'If a run is interrupted or a step fails at any point, every record made before stays intact and readable, and continuing from the last record gives the same later states as a run that was never interrupted; splitting one integration into consecutive ones, also across changes of bond dimension, does the same. '
 'Clearing a run restores its initial state and empties its records, so that repeating it reproduces them; derived quantities (expectation values, energies, return probabilities, Schmidt spectra) are those of the recorded states.',
 ['fault_sequences', 'histories', 'crash_points'],
 'Every split of an evolution into segments and every interruption point inside a step (interrupt, allocation or numerical failure), for each integrator, with bond dimension changes, measurements and clears in between.',
 'Tests run one uninterrupted integration and look at expectation values; nothing is interrupted, continued, cleared or recorded across a change of bond dimension.',
 ['xmps/fTDVP.py', 'xmps/iTDVP.py', 'xmps/fMPS.py'],
 [('record lists', 'Trajectory.mps_history, Ds'), ('rebuilding states from records', 'Trajectory.mps_list, mps_evs, schmidts, loschmidt')],
 ['Trajectory.mps_history', 'mps_list', 'mps_energies', 'mps_evs', 'loschmidt', 'schmidts'],
 [('mps_history', 'serialised states, one per step', 'xmps/fTDVP.py'), ('Ds', 'bond dimension of each record', 'xmps/fTDVP.py')])

prop('C09', 'Evolution follows the Schroedinger equation through any history of run segments',
 'With enough bond dimension to hold the state, evolving a finite chain, in any sequence of segments with any of the integrators, forwards or backwards in time and with gauge changes, measurements and bond expansions in between, stays within the step-size error of exact evolution of the full state vector, and exact diagonalisation follows it to rounding. '
 'At any bond dimension, on finite and infinite chains, norm stays one and energy drifts by no more than the step-size error, and halving the step reduces the deviation.',
 ['histories', 'schedules', 'inputs'],
 'Every sequence of evolution segments, Hamiltonians (including site-dependent ones), initial states and interleaved operations that do not change the physical state.',
 'Tests evolve fixed small states from stored files along one segment and compare expectation values loosely; several are skipped or fail on current library versions.',
 ['xmps/fTDVP.py', 'xmps/iTDVP.py', 'xmps/fMPS.py', 'xmps/iMPS.py'],
 [('projection on the tangent space', 'fMPS.dA_dt, iMPS.dA_dt'), ('integrators', 'Trajectory.euler, rk4, edint, odeint')],
 ['states along a run', 'energies along a run'])

prop('C10', 'Infinite-chain results do not depend on solver starts, gauge or solver failures',
 'Canonical forms, expectation values, energies, overlaps, environments and time derivatives of an infinite chain are the same physical values whatever random vectors the iterative solvers start from, whatever gauge the tensor is given in, and whatever operations on the same chain came before, and agree with the dominant eigenvectors of the full transfer matrix. '
 'If an iterative solver fails to converge or returns no valid solution, the operation raises an error instead of returning a wrong value.',
 ['fault_sequences', 'histories', 'inputs'],
 'Every choice of solver starting vector and of admissible solver output (phase, scale, rounding), every gauge of the input tensor, every history of canonicalisations and measurements, and every solver call failing.',
 'Tests run each operation once per random state with whatever starting vector the solver library picks in that process, and never see a solver fail.',
 ['xmps/iMPS.py', 'xmps/tensor.py'],
 [('fixing the phase and sign of eigenvectors', 'rotate_to_hermitian, TransferMatrix.eigs, Map'), ('environment equations', 'iMPS.Lh, Rh')],
 ['iMPS.canonicalise, E, Es, energy, overlap, mixed, Lh, Rh, dA_dt', 'ivMPS.canonicalise, E'])

prop('C11', 'Re-seeding the random generator makes every randomised computation repeat',
 'After the same seeding of the global random number generator, every randomised construction or algorithm gives the same outcome (identical numbers, or equal to rounding where an external solver keeps its own state), whatever ran before in the process, and whatever the clock, unique identifiers, hash seed and operating-system entropy are. '
 'Operations that are not randomised neither read nor disturb the generator, so inserting them does not change later draws, and different seeds give different states.',
 ['histories', 'configurations', 'schedules'],
 'Every program of randomised and deterministic operations, run twice under different ambient conditions and earlier histories.',
 'Tests never repeat a computation under one seed, so hidden entropy sources or history-dependent caches are invisible to them.',
 ['xmps/fMPS.py', 'xmps/iMPS.py', 'xmps/fPEPS.py', 'xmps/iOptimize.py', 'xmps/tensor.py', 'xmps/spin.py'],
 [('all draws come from the global generator', 'fMPS.random, iMPS.random, fPEPS.random, haar_unitary, ...')],
 ['tensors of random states', 'generator state after each operation'])

prop('C12', 'Tangent-space quantities do not depend on what was computed before',
 'Time derivatives, projectors, metric-like overlaps, second-order overlaps, connection coefficients and Jacobians of a finite chain, asked for in any order, repeatedly, for any pair or triple of sites, with intermediate results reused within one evaluation, have the values that a fresh object with the same tensors gives for that single question. '
 'For a full-rank state in left or right canonical form these values are the ones the state vector defines: the first-order quantities are the matrix elements of the Hamiltonian between tangent vectors, the time derivative is the projection of the exact one, and the Jacobian and the derivative of a tangent vector are those of the linearised evolution. '
 'Changing the state or the Hamiltonian between questions is reflected in the next answer.',
 ['histories', 'schedules'],
 'Every sequence of questions (site indices, evaluation identifiers, Hamiltonians) interleaved with changes of the state by other clients, for chains up to lengths where site numbers have two digits.',
 'Tests ask for one quantity of a fresh short chain at a time, so results remembered from an earlier question, or remembered under an ambiguous name, are never returned.',
 ['xmps/fMPS.py'],
 [('memo tables keyed by evaluation and sites', 'fMPS.F1, F2, christoffel'), ('stored transfer of projectors', 'fMPS.dA_dt dA_cache')],
 ['fMPS.F1, F2, christoffel, jac, dA_dt, ddA_dt, projection_error'],
 [('memo dictionaries', 'intermediate tensors of the current evaluation', 'xmps/fMPS.py')])

prop('C13', 'Iterative procedures always finish, with a result as good as they report',
 'Ground-state searches and optimisers of finite and infinite chains, mixed canonicalisation, the disentangling iteration and the growth of the bond dimension finish within a bounded number of steps from every random start and after transient solver failures, either with a result meeting their stated stopping rule or iteration limit, or with an error. '
 'The energies a ground-state search reports are those of its states and never lie below the true ground-state energy, the mixed canonical form reproduces the state, and the disentangler returns a unitary that does not raise the entropy.',
 ['schedules', 'fault_sequences', 'inputs'],
 'Every starting point the random generator can supply, every admissible input, and every finite number of solver failures followed by recovery.',
 'Tests run one random start per procedure and would simply hang; they cannot show that no start loops for ever or ends in a wrong result.',
 ['xmps/iOptimize.py', 'xmps/iMPS.py', 'xmps/peps_tools.py', 'xmps/fMPS.py', 'xmps/projects/fHam.py', 'xmps/projects/iHam.py'],
 [('iteration limits and convergence tests', 'find_ground_state, iMPS.mixed, renyi_2_disentangler, fMPS.grow')],
 ['return values', 'executed steps'])

prop('C14', 'PEPS views, measurements and updates agree with one state under any history',
 'Whatever sequence of transpositions, flips, copies, normalisations, one-site operators, sums, row and column contractions, overlaps and expectation values (one site or a block) is applied to a two-dimensional state by several clients, each object stays in the physical state (with its sites moved as the flips say) that the same sequence gives on the full state vector. '
 'Working on a view, copy or embedding of a state never changes the state it was made from, and embedding a chain in two dimensions preserves the state along the snake. A state brought to isometric form has norm one, and its local values at the centre, wherever views move it, are those of the state.',
 ['histories', 'schedules'],
 'Every history of operations over a pool of PEPS and chains derived from one another, for every lattice shape, site and operator.',
 'Tests apply one operation to one fresh random PEPS; sharing of memory between views and wrong bookkeeping of positions after several flips need a sequence.',
 ['xmps/fPEPS.py', 'xmps/fMPS.py'],
 [('transposed and flipped objects', 'fPEPS.T, R, U'), ('embedding', 'fPEPS.from_mps'), ('contraction through matrix product operators', 'fPEPS.overlap, fMPO')],
 ['fPEPS.overlap, E, E_k, recombine, norm'])

prop('C15', 'A Hamiltonian stands for one operator whatever was asked of it before',
 'The bond matrix, the local matrices, the matrix product operator and the full matrix of a Hamiltonian given by its terms are one and the same operator, for every chain length, in whatever order representations and lengths are asked for by several clients, also after an operation was aborted or a coefficient changed. '
 'Asking never changes the term lists, matrices and operators the callers hold, and editing what was handed out changes no later answer. A Hamiltonian read from a matrix equals that matrix up to a multiple of the identity.',
 ['histories', 'fault_sequences', 'inputs'],
 'Every history of questions over shared term lists and matrices, every length and set of coefficients, every aborted operation.',
 'Tests compare one representation of a fresh Hamiltonian at one length; stale or shared representations need a history.',
 ['xmps/Hamiltonians.py', 'xmps/spin.py'],
 [('conversions', 'Hamiltonian.to_matrix, to_matrices, to_mpo, to_full, from_matrix'), ('ownership of terms', 'Hamiltonian.__init__')],
 ['return values', "callers' term lists and matrices"])

prop('C16', 'Operators, generators and example states are always what their names say',
 'Whoever asks, however often and next to whichever other requests: spin operators of every size satisfy the angular momentum algebra and are embedded at the right site of an N-body system, the generators of SU(N) are the generalised Gell-Mann matrices, group elements are the exponentials of their components and the components are recovered from them, and gates are the named gates. '
 'The example states are normalised and are the named states (Bell, computational basis, cat, and the AKLT ground state of its Hamiltonian). '
 'What is handed out belongs to the client: editing it, aborting a request, or asking from several threads changes no later answer, and no request changes its arguments.',
 ['histories', 'schedules', 'fault_sequences', 'inputs'],
 'Every history of requests for every size, site, component vector and example by several clients, with edits of what was handed out, aborts at any point and any interleaving of threads.',
 'Tests ask once, in one thread, for a few small cases; a result that is shared, remembered or left half-made shows only when it is asked for again.',
 ['xmps/spin.py', 'xmps/mps_examples.py'],
 [('construction from ladder coefficients', 'spins, n_body, N_body_spins'), ('generators', 'su, lambdas'), ('exponential maps', 'SU, U4, extractv'), ('constant tensors', 'mps_examples')],
 ['return values', "callers' arguments"])

prop('C17', 'Contractions, tensor tools and maps built from tensors always mean what they say',
 'Contracting a network by numbered index lists gives the explicit sum over repeated indices with the open ones in the order asked for, for every network, contraction order and final order; grouping and ungrouping legs are inverse to each other; partial traces are the explicit sums; factorisations multiply to the matrix and have the form they name; completing an isometry or a vector to a unitary keeps it and gives a unitary. '
 'Transfer maps act as their explicit matrices, null-space projectors project on the complement of the state tensor, and products of matrix product operators, with one another and with states, multiply the matrices they stand for, with whatever the tensors behind them hold at the time. '
 'This holds whatever was asked before, after aborted requests, and for requests from several threads, and no request changes its arguments.',
 ['histories', 'schedules', 'fault_sequences', 'inputs'],
 'Every history of requests over networks, shapes, partitions, maps and operators shared by several clients, with edits of tensors, aborts at any point and any interleaving of threads.',
 'Tests contract a handful of networks and matrices once; reused index lists, disconnected networks, shared maps whose tensors change and interleaved requests need a history.',
 ['xmps/ncon.py', 'xmps/tensor.py', 'xmps/peps_tools.py', 'xmps/iMPS.py', 'xmps/fPEPS.py', 'xmps/fMPS.py'],
 [('pairwise contraction', 'ncon'), ('permutation and shape record', 'group_legs, ungroup_legs'), ('index sums', 'partial_trace, ρA'), ('null spaces', 'unitary_extension, left_null_projector'), ('matrix-vector products', 'Map, TransferMatrix'), ('bondwise product', 'fMPO.__mul__')],
 ['return values', "callers' arguments"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P), max(len(p['title']) for p in P))
