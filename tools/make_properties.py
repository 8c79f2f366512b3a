"""Writes properties.jsonl (run by hand when a property changes)."""
import json, os
R = "acetn/"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[R+f for f in files],
            state=[dict(name=n, meaning=m, where=R+w) for n, m, w in state],
            mechanism=[dict(name=n, where=R+w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

DIST = ["utils/distributed.py", "renormalization/directional_mover.py", "renormalization/ctmrg.py",
        "evolution/fast_full_update.py", "ipeps/ipeps.py"]
NO_DIST = "No test starts more than one process: the two distributed tests are skipped because no process group exists, so nothing that only happens with several ranks is exercised."

prop("D01", "All ranks of a distributed run hold the same state and results",
 "In a distributed run, after every operation (creation, renormalization, evolution with full or simple update, change of chi or model parameters, saving, loading, measurement) all ranks hold the same site, corner and edge tensors and report the same measurements. This holds for any number of ranks, any unit cell, any random state each rank starts with, and any relative speed of the ranks.",
 ["schedules", "configurations", "histories", "inputs"],
 "every rank count, unit-cell shape, per-rank random generator state, operation history and interleaving of ranks between collective operations",
 NO_DIST, DIST,
 [("rank 0's random initial state is broadcast", "ipeps/ipeps.py"), ("updated bond tensors are broadcast from rank 0", "evolution/fast_full_update.py"),
  ("every rank gathers all projectors and renormalizes the whole boundary", "renormalization/directional_mover.py")],
 [("site/corner/edge tensors", "one copy per rank", "ipeps/site_tensor.py")],
 ["tensors of every site on every rank after each operation", "returned measurement dictionaries"])

prop("D02", "A distributed run computes what a single process computes",
 "Splitting the work over ranks does not change what is computed: every boundary move, renormalization and evolution gives the tensors a single process obtains when it performs the same simultaneous left-right and up-down moves, for any number of ranks and any assignment of rows and columns to ranks. In particular the results do not depend on the number of ranks, and energies, observables and reduced density matrices agree with those of an ordinary single-process run to the accuracy of the boundary truncation.",
 ["configurations", "schedules", "inputs"],
 "every rank count (even, odd, more ranks than rows), unit-cell shape, projector type, update type and interleaving",
 NO_DIST, DIST,
 [("work splitting over ranks and reassembly of gathered projectors", "renormalization/directional_mover.py"), ("padded gather of unevenly shaped tensors", "utils/distributed.py"),
  ("rank 0 performs the update with the shared boundary", "evolution/fast_full_update.py")],
 [], ["tensors after a distributed move, sweep or evolution compared with a single-process reference", "measure() on 1 and on N ranks"])

prop("D03", "Distributed operations always complete or fail loudly",
 "For any number of ranks the devices allow and any unit cell, every distributed operation completes on every rank without deadlock and with matching communication (same collective, same shape, same order on all ranks), however ranks are delayed relative to each other. If a rank fails or dies at any point, no other rank returns a result from an operation that needed it: the failure surfaces as an error there.",
 ["schedules", "fault_sequences", "crash_points", "configurations"],
 "every rank count, unit cell, scheduling of ranks, and failure of any rank at any collective",
 NO_DIST, DIST,
 [("all ranks enter each gather and broadcast the same number of times", "renormalization/directional_mover.py"), ("device count check before joining the group", "utils/distributed.py")],
 [], ["completion or exception of each operation on each rank", "sequence of collectives per rank"])

prop("D04", "The process group lives exactly as long as it is needed",
 "Whatever the order in which networks are created, copied, rebound and discarded, a distributed network stays fully usable while it exists; the process group the library started is released once the last network using it is gone, and can be started again afterwards. A process group started by the user is never shut down by the library.",
 ["histories", "schedules", "configurations"],
 "every history of creating, rebinding, copying and deleting networks on every rank, with the group started by the library or by the user",
 NO_DIST, ["utils/distributed.py", "ipeps/ipeps.py"],
 [("user count and ownership of the process group", "utils/distributed.py"), ("release on deletion of a network", "ipeps/ipeps.py")],
 [("process group", "default torch.distributed group of the process", "utils/distributed.py")],
 ["dist.is_initialized() after each step", "operations on the surviving networks"])

prop("D05", "Only rank 0 of a distributed run writes to the console",
 "In a distributed run at the default log level, progress bars, status messages and measurement tables appear once, written by rank 0 in the order of a single-process run; the other ranks write nothing to the console. A single-process run prints normally whatever other launcher variables are set.",
 ["schedules", "configurations", "histories"],
 "every rank count, operation history and interleaving of ranks",
 NO_DIST, ["utils/distributed.py", "renormalization/ctmrg.py", "evolution/evolve.py", "measurement/measure.py", "utils/logger.py"],
 [("print redirection on ranks other than 0", "utils/distributed.py"), ("progress bars disabled on ranks other than 0", "renormalization/ctmrg.py")],
 [], ["bytes written to stdout and stderr by each rank"])

prop("S01", "A checkpoint restores exactly the saved state, and saving changes nothing",
 "Saving and loading a network gives back exactly the site, corner and edge tensors that were saved, including across precisions up to the conversion itself, and the loaded network measures, renormalizes and evolves exactly as the saved one would have (from an even number of evolution steps on, since the order of bond updates alternates between steps and starts afresh in a new network). Saving leaves the live network untouched and later changes to it do not reach the checkpoint; a loaded state is what the next evolution starts from, never replaced by a fresh initial state.",
 ["histories", "configurations", "inputs"],
 "every history of evolution, renormalization, chi changes, saves and loads, in one process or many ranks, at either precision",
 "One test round-trips a freshly initialised 2x2 network, whose tensors used to be shared between all networks, so that it could not fail; nothing continues a simulation from a checkpoint.",
 ["ipeps/tensor_network.py", "ipeps/site_tensor.py", "ipeps/ipeps.py"],
 [("save", "ipeps/tensor_network.py"), ("load", "ipeps/tensor_network.py"), ("initial-state flag", "ipeps/ipeps.py")],
 [("site/corner/edge tensors", "the persisted state", "ipeps/site_tensor.py")],
 ["tensors before save, after save, after load", "results of continuing both networks"])

prop("S02", "A crash or I/O error while saving never costs the previous checkpoint",
 "If the process or machine stops at any moment of a save, or the disk returns an error or runs full, the file afterwards holds either the complete previous checkpoint or the complete new one, never a partial or mixed one (and no file where there was none before, or the complete new one). Errors are reported to the caller, after which the live network is unchanged and a later save succeeds; ranks or threads saving to the same path at the same time leave one complete checkpoint.",
 ["crash_points", "fault_sequences", "schedules"],
 "every crash point with every loss, tearing or reordering of data not yet forced to disk; every failing or short file operation; every interleaving of concurrent savers",
 "The tests save once to an empty directory on a healthy disk; they inject no error and never interrupt a save.",
 ["ipeps/tensor_network.py"],
 [("write to a temporary file, force it to disk, rename it over the target", "ipeps/tensor_network.py")],
 [("checkpoint file", "durable copy of the network", "ipeps/tensor_network.py")],
 ["contents of the checkpoint path after recovery", "exception from save", "tensors of the live network"])

prop("S03", "Loading a checkpoint is all or nothing",
 "A load that fails for any reason (missing, unreadable, truncated or corrupted file, read error or lack of memory part-way, interruption, a checkpoint of a different unit cell) raises an error and leaves the network exactly as it was, still usable (an interruption may also strike when the load is already complete, but never leaves a mixture). A load that succeeds installs the checkpoint completely: no tensor of the previous state survives.",
 ["fault_sequences", "crash_points", "inputs"],
 "every truncation or corruption of the file, every point at which a read, allocation or interrupt can fail, every pair of unit cells",
 "The tests only load intact files written for the same unit cell.",
 ["ipeps/tensor_network.py", "ipeps/site_tensor.py"],
 [("sites are checked and converted before any is installed", "ipeps/tensor_network.py")],
 [], ["tensors before and after a failed load", "exception from load", "tensors after a successful load"])

prop("I01", "Simulations in one process do not influence each other",
 "Several networks simulated in the same process, one after the other, alternating operation by operation, or in concurrent threads, each give exactly the results they give alone, whatever their unit cells, dimensions, precisions, models, couplings, time steps and settings. No operation on one network changes another network, including copies and networks one was created from.",
 ["schedules", "histories", "configurations"],
 "every interleaving (at operation or source-line granularity) of any number of simulations of any configuration",
 "Each test uses its own network and compares it with nothing that ran at the same time; none interleaves two simulations.",
 ["ipeps/tensor_network.py", "ipeps/site_tensor.py", "evolution/gate.py", "evolution/lambda_tensors.py", "model/model_factory.py", "ipeps/ipeps_config.py"],
 [("per-network tensors", "ipeps/tensor_network.py"), ("per-evolution gates", "evolution/gate.py"), ("per-evolution bond weights", "evolution/lambda_tensors.py")],
 [("tensors, gates, bond weights, model parameters", "must be private to a simulation", "ipeps/tensor_network.py")],
 ["tensors and measurements of each simulation, alone and interleaved"])

prop("I02", "Copies are exact and independent, and a supplied state is used",
 "A copy, a conversion to the same precision, or a network created from another one starts with exactly the same tensors, unit cell and dimensions, and nothing done afterwards to either (renormalizing, evolving, changing chi, assigning tensors in place, loading) is visible in the other. Evolving a network that was created from another, or loaded, continues from that state instead of starting afresh.",
 ["histories", "configurations"],
 "every history of operations applied to a network and to its copies in any order",
 "copy_from is tested for equality only, right after the copy; nothing modifies either side afterwards or evolves the result.",
 ["ipeps/tensor_network.py", "ipeps/site_tensor.py", "ipeps/ipeps.py"],
 [("copy/to/copy_from", "ipeps/tensor_network.py"), ("tensor cloning on assignment", "ipeps/site_tensor.py"), ("initial-state flag", "ipeps/ipeps.py")],
 [], ["tensors of both networks after each operation", "state after evolve"])

prop("I03", "User configuration, models and operators are inputs and never modified",
 "Configuration dictionaries, parameter dictionaries, Hamiltonians and observables handed to the library are never changed by it and may be reused for other simulations. Model classes, model parameters and chi set on one network take effect there from the next operation on, exactly as if the network had been configured with them at the start, and nowhere else.",
 ["histories", "configurations", "inputs"],
 "every history of set_model, set_model_params, set_chi, evolve and measure on networks sharing dictionaries, model classes, names and operator objects",
 "No test reuses a configuration, parameter dictionary or operator object, or changes parameters between operations.",
 ["ipeps/ipeps_config.py", "ipeps/ipeps.py", "model/model_factory.py", "evolution/gate.py", "measurement/measure.py"],
 [("private copies of dictionaries", "ipeps/ipeps_config.py"), ("models looked up per network", "model/model_factory.py"), ("out-of-place gate construction", "evolution/gate.py")],
 [], ["user objects before and after", "measurements after each parameter change"])

prop("F01", "A failed operation surfaces and leaves the network usable",
 "When memory runs out, a matrix factorisation does not converge, or the user interrupts at any point of creating, renormalizing, evolving or measuring a network, the error reaches the caller instead of being swallowed or turned into a wrong result. The network then still has mutually compatible, finite tensors: it can be measured, saved and the operation retried with the result it would have given; no gate is applied to only one of its two sites, and a failed renormalization or measurement leaves the state itself untouched.",
 ["fault_sequences", "crash_points", "histories"],
 "every tensor operation at which an allocation failure, factorisation failure or interrupt can strike, alone or in sequence, for every configuration",
 "The tests inject no failure at all.",
 ["renormalization/directional_mover.py", "evolution/tensor_update.py", "evolution/als_solver.py", "evolution/fast_full_update.py", "evolution/simple_update.py", "measurement/measure.py"],
 [("a row or column of boundary tensors is replaced only once all are calculated", "renormalization/directional_mover.py"), ("both tensors of a bond are replaced or neither", "evolution/tensor_update.py"), ("narrow fallback in the linear solver", "evolution/als_solver.py")],
 [], ["exception at the caller", "tensors, measurements and retry after the failure"])

prop("F02", "Recovered numerical failures do not change results",
 "Where the library recovers from a factorisation that fails (eigenvalue decomposition of the norm tensor, Cholesky factorisation in the least-squares solver), the run continues and gives the same physical results as without the failure, whichever calls fail and however often.",
 ["fault_sequences", "inputs"],
 "every subset of the recoverable factorisation calls failing, for every configuration",
 "The fallbacks are not reached by the tests, since the factorisations succeed on their inputs.",
 ["evolution/full_update.py", "evolution/als_solver.py"],
 [("SVD fallback of the positive approximation", "evolution/full_update.py"), ("LU fallback of the Cholesky solve", "evolution/als_solver.py")],
 [], ["reduced density matrices and energies with and without injected failures"])

prop("T01", "Results do not depend on clocks, logging or display",
 "Tensors and measurements are exactly the same whatever the wall clock does (jumps forwards or backwards, standing still), whatever the log level, whether progress bars are shown, and whether the run is inside a batch scheduler; none of these can make an operation fail.",
 ["fault_sequences", "configurations", "schedules"],
 "every clock behaviour, log level, progress-bar setting and batch-scheduler environment",
 "Tests run under one clock, one log level and one environment, and compare nothing between them.",
 ["evolution/evolve.py", "utils/benchmarking.py", "utils/logger.py", "ipeps/ipeps_config.py", "renormalization/ctmrg.py", "evolution/simple_update.py"],
 [("runtimes are only reported", "utils/benchmarking.py"), ("debug statistics in the evolution loop", "evolution/evolve.py"), ("progress bars in batch jobs", "ipeps/ipeps_config.py")],
 [], ["tensors and measurements across environments"])

prop("T02", "The same seed gives the same results",
 "Two runs of the same script with the same random seed give exactly the same tensors and measurements, independent of the contents of freshly allocated memory, of hash seeds, and of what other networks did earlier in the process. All randomness comes from the seedable generator.",
 ["histories", "schedules", "configurations"],
 "every content of uninitialised memory, every history of other objects in the process, every hash seed",
 "No test runs anything twice with the same seed.",
 ["linalg/svd_lowrank.py", "linalg/fused_matmul_svd_lowrank.py", "linalg/fused_3matmul_svd_lowrank.py", "ipeps/site_tensor.py", "evolution/full_update.py", "measurement/rdm.py", "evolution/fast_full_update.py"],
 [("random initial state and randomised SVD draw from the global generator", "ipeps/site_tensor.py"), ("uninitialised buffers are completely overwritten", "measurement/rdm.py")],
 [], ["tensors and measurements of repeated runs"])

prop("R01", "The randomised SVD does not influence physical results",
 "With the randomised SVD, whatever random vectors it draws, reduced density matrices, energies and observables agree with those of the full-rank SVD for the same state, projector type and chi, to the accuracy of the boundary truncation.",
 ["inputs", "configurations", "histories"],
 "every draw of the randomised SVD, projector type, unit cell and chi",
 "Low-rank SVDs are tested on single random matrices with one draw; no test compares a renormalization across draws or with the full-rank SVD.",
 ["linalg/svd_lowrank.py", "linalg/fused_matmul_svd_lowrank.py", "linalg/fused_3matmul_svd_lowrank.py", "renormalization/projectors.py"],
 [("oversampled, power-iterated range finder", "linalg/fused_matmul_svd_lowrank.py"), ("fused projector construction", "renormalization/projectors.py")],
 [], ["reduced density matrices after renormalization under different draws"])

prop("M01", "Boundary tensors keep a consistent shape and scale",
 "After any sequence of boundary moves, renormalizations, chi changes, evolutions and loads, boundary bond dimensions never exceed chi (once renormalized), all neighbouring boundary and site tensors have matching dimensions, and all tensors are finite and normalised with the requested precision. Every measurement, move and update therefore remains possible in every reachable state.",
 ["histories", "schedules", "configurations"],
 "every order and number of directional moves in any row or column, interleaved with chi changes, evolution and reloads",
 "Tests perform single moves or one fixed sweep at constant chi on a 2x2 cell.",
 ["renormalization/directional_mover.py", "renormalization/projectors.py", "renormalization/ctmrg.py", "ipeps/site_tensor.py"],
 [("chi bound and singular-value cutoff", "renormalization/projectors.py"), ("normalisation of renormalized tensors", "renormalization/directional_mover.py")],
 [], ["shapes, norms and finiteness of all tensors"])

prop("M02", "Renormalized boundaries give the exact expectation values of the state",
 "Once renormalized, by full sweeps or by any fair order of directional moves, a network yields the reduced density matrices, energy and observables of the infinite state its site tensors define, on every site and every bond of any unit cell, to the accuracy of the boundary truncation. Measured averages are the means over all sites and bonds, and the energy is the total energy per site for any site- and bond-dependent Hamiltonian.",
 ["schedules", "inputs", "configurations"],
 "every state with finite correlation length, unit cell, projector and SVD type, and every fair schedule of directional moves",
 "Ground-state tests compare two energies on a stored 2x2 state; no test has an independent value for an asymmetric state, another unit cell or another order of moves.",
 ["renormalization/directional_mover.py", "renormalization/projectors.py", "renormalization/ctmrg.py", "measurement/rdm.py", "measurement/measure.py", "ipeps/site_tensor.py"],
 [("directional moves", "renormalization/directional_mover.py"), ("projectors", "renormalization/projectors.py"), ("reduced density matrices", "measurement/rdm.py"), ("averaging", "measurement/measure.py")],
 [], ["one- and two-site reduced density matrices", "measure()"])

prop("M03", "Measuring, saving and copying are read-only; renormalizing keeps the state",
 "Measuring, computing reduced density matrices, saving or copying a network at any point changes none of its tensors, settings or later results, even when repeated or interrupted; measuring twice gives the same values. Renormalizing changes only the boundary tensors: the state itself stays exactly the same, and once converged further renormalization does not change measured values.",
 ["histories", "fault_sequences", "schedules"],
 "every placement of measurements, saves, copies and interrupted reads in every history of operations",
 "Tests measure once at the end; none compares a run with and without intermediate measurements.",
 ["measurement/measure.py", "measurement/rdm.py", "ipeps/tensor_network.py", "renormalization/ctmrg.py"],
 [("measurements work on temporaries", "measurement/rdm.py"), ("boundary moves write boundary tensors only", "renormalization/directional_mover.py")],
 [], ["all tensors and subsequent results with and without the extra reads"])

prop("E01", "Evolution applies exactly the imaginary-time evolution of the model",
 "Evolving a network by n steps of size dtau gives, on every site and bond, the normalised state exp(-n dtau H)|start> of the model's Hamiltonian up to the time-step and bond-dimension errors of the method, for any site- and bond-dependent one- and two-site terms, unit cell, start state, full and simple update, solver and gauge options, in one process or many ranks. In particular each bond and site term acts where it is defined with its full weight, for Pauli-matrix and plain-tensor operators alike.",
 ["inputs", "configurations", "histories", "schedules"],
 "every local Hamiltonian, product or entangled start state, unit cell, update type, solver option, split of the evolution into calls, and rank schedule",
 "Tests check a single gate application in shape only and the energy of two stored uniform ground states; no test has an exact value for a site- or bond-dependent evolution.",
 ["evolution/evolve.py", "evolution/gate.py", "evolution/tensor_update.py", "evolution/full_update.py", "evolution/fast_full_update.py", "evolution/simple_update.py", "evolution/lambda_tensors.py", "evolution/als_solver.py", "model/model.py"],
 [("gates from bond and weighted site terms", "evolution/gate.py"), ("bond updates", "evolution/fast_full_update.py"), ("bond weights", "evolution/lambda_tensors.py"), ("least-squares truncation", "evolution/als_solver.py")],
 [], ["reduced density matrices after evolve compared with exact evolution"])

prop("E02", "Every update finishes within bounded work",
 "Each bond update performs a bounded number of operations: the least-squares solver never exceeds the configured number of iterations, and conditioning the norm tensor ends after a bounded number of attempts, for any (also indefinite, singular or badly scaled) environment, at either precision, and even when its factorisations keep failing. The result is finite, and where bond dimension and gates allow it, the evolved state is still the exact one at the working precision.",
 ["inputs", "fault_sequences", "configurations"],
 "every environment reachable or not, precision, solver option and sequence of recoverable factorisation failures",
 "Tests run well-conditioned double-precision environments, on which the loops end at once.",
 ["evolution/full_update.py", "evolution/als_solver.py"],
 [("shift of the norm tensor by at least its rounding error", "evolution/full_update.py"), ("iteration limit", "evolution/als_solver.py")],
 [], ["number of tensor operations per update", "finiteness of the updated tensors"])

prop("E03", "A full update truncates optimally in the environment of the state",
 "When the bond dimension limits an evolution step, a full update of a bond in the renormalized environment gives the pair of tensors that represents the exactly evolved pair (nearly) as well as the bond dimension allows: its infidelity in the infinite state is close to the best possible, and far below that of truncating the pair by itself. All other site tensors stay as they are, and the boundaries describe the updated pair to its neighbours at once.",
 ["inputs", "configurations", "schedules"],
 "every state with finite correlation length, gate, bond direction, unit cell, gauge and solver option, and rank schedule",
 "Tests check shapes and the energy of two stored ground states, which a poorly weighted truncation hardly changes.",
 ["evolution/evolve.py", "evolution/tensor_update.py", "evolution/full_update.py", "evolution/fast_full_update.py", "evolution/als_solver.py", "renormalization/directional_mover.py"],
 [("norm tensor from the boundary", "evolution/full_update.py"), ("gauge fixing and positive approximant", "evolution/full_update.py"), ("least-squares truncation", "evolution/als_solver.py")],
 [], ["fidelity of the updated pair in the exact environment"])

prop("E04", "What a simulation holds does not grow with its length",
 "However often operations are repeated, whether they succeed or fail, a simulation holds no more memory, objects, open files or threads than after the first few of them, apart from its own state. Networks that the user dropped - copies, networks created from others, failed constructions - are released, and once the last network is dropped none of its tensors are left.",
 ["histories", "fault_sequences", "schedules", "configurations"],
 "every repeated history of operations, failures at any point of them, configuration, number of ranks and schedule",
 "Tests run a few operations and never look at what is kept afterwards; none lets an operation fail part-way.",
 ["ipeps/ipeps.py", "ipeps/tensor_network.py", "evolution/evolve.py", "evolution/fast_full_update.py", "evolution/simple_update.py", "evolution/gate.py", "renormalization/ctmrg.py", "renormalization/directional_mover.py", "renormalization/projectors.py", "measurement/measure.py", "model/model_factory.py", "utils/distributed.py"],
 [("temporary objects per operation", "evolution/evolve.py"), ("release of the process group with the network", "ipeps/ipeps.py")],
 [], ["everything alive in the process after each repetition"])

prop("L01", "A ground-state search reaches the ground state, whatever interrupts it",
 "Evolving in imaginary time with shrinking steps and renormalizing ends, after a bounded number of steps without faults, at the ground-state energy of the Hamiltonian on the infinite lattice, whatever happened before: failed and interrupted operations, killed processes resumed from checkpoints or started again, other parameters, chi or update types in between, forks, and lives spread over any number of ranks. No energy measured in a renormalized network on the way lies below that of the ground state.",
 ["histories", "crash_points", "fault_sequences", "configurations", "schedules"],
 "every gapped, weakly correlated Hamiltonian, unit cell, option, history of a search over several process lives, fault and kill point, and rank schedule",
 "Tests evolve a few steps from one state without interruption and compare two stored uniform ground states; none resumes a search.",
 ["evolution/evolve.py", "evolution/gate.py", "evolution/fast_full_update.py", "evolution/simple_update.py", "evolution/tensor_update.py", "evolution/full_update.py", "evolution/als_solver.py", "ipeps/ipeps.py", "ipeps/tensor_network.py", "renormalization/ctmrg.py", "renormalization/directional_mover.py", "renormalization/projectors.py", "measurement/measure.py", "model/model.py"],
 [("time steps over all bonds", "evolution/evolve.py"), ("checkpoint and resume", "ipeps/tensor_network.py"), ("energy per site", "measurement/measure.py")],
 [], ["energies returned by measure"])

prop("P01", "Operator algebra agrees with matrix algebra",
 "Sums, differences, scalar multiples, quotients and products of the supplied Pauli operators represent the corresponding matrix sums, multiples and tensor products, in real and complex precision.",
 ["inputs", "programs"],
 "every expression built from the supplied operators",
 "The existing tests cover single operations on fixed operands.",
 ["model/pauli_matrix.py"], [("operator overloads", "model/pauli_matrix.py")], [], ["matrix of the resulting operator"])

prop("G01", "The GPU backend agrees with the reference backend",
 "The compiled tensor backend returns the same updated tensors as the reference implementation for every least-squares problem, within rounding, and falls back to the reference implementation when it is unavailable.",
 ["inputs", "configurations"],
 "every least-squares problem, solver option and precision on every supported device",
 "All of its tests are skipped without the compiled extension and a GPU.",
 ["evolution/als_solver.py", "evolution/_extensions/__init__.py", "ipeps/ipeps_config.py"], [("compiled solver", "evolution/als_solver.py"), ("fallback", "ipeps/ipeps_config.py")], [], ["updated tensors from both backends"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
for p in P:
    for f in p["anchors"]["files"]:
        assert os.path.exists("/repo/" + f), f
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
