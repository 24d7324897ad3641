"""Writes properties.jsonl (kept as a script so that the texts stay readable)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
        state=[dict(name=n, meaning=m, where=w) for n, m, w in state], observe_at=list(observe), hook_needed=hook)))

NOMPI = "No test of the suite imports mpi4py or runs with more than one process, so every parallel branch, and with it every interleaving, is unexercised; "

p("C01", "Parallel runs return the serial energies on every process",
  "An embedding calculation run on any number of MPI processes returns, on every process, the same energies (total and correlation energy, projected-wavefunction, density-matrix, DMET, perturbative-triples and inter-cluster MP2 energies) as the same calculation run on one process. This holds for every legal order in which the processes reach their communication calls, every legal buffering of messages, and every number of processes, including more processes than fragments.",
  ["schedules", "configurations", "programs"],
  "for all world sizes, schedules, send-buffering decisions, reduction orders, RHF/UHF references, fragmentations (atomic, orbital, symmetry-derived, secondary), solvers and energy functionals",
  NOMPI + "serial tests compare single numbers on fixed molecules.",
  ["vayesta/ewf/ewf.py", "vayesta/ewf/uewf.py", "vayesta/ewf/icmp2.py", "vayesta/core/qemb/qemb.py", "vayesta/core/qemb/uqemb.py", "vayesta/core/qemb/fragment.py", "vayesta/mpi/interface.py"],
  [("reductions over fragments of the local process", "vayesta/mpi/interface.py: with_allreduce, nreduce"), ("ownership of fragments", "vayesta/core/qemb/fragment.py: mpi_rank; Embedding._register"), ("collection of cluster data", "vayesta/core/qemb/qemb.py: communicate_clusters")],
  [("fragment.mpi_rank", "process which owns the fragment", "vayesta/core/qemb/fragment.py")],
  ["EWF.e_tot, e_corr, get_*_energy on each process"])

p("C02", "Parallel density matrices and amplitudes equal the serial ones",
  "One- and two-particle density matrices, and global wave-function amplitudes assembled from fragments which are held by different MPI processes equal those of the serial calculation. The result is delivered on every process, or, if the caller names a receiving process, on that process, for every legal schedule and number of processes.",
  ["schedules", "configurations", "programs"],
  "for all world sizes, schedules, target processes, references, fragmentations, solvers and density-matrix constructions",
  NOMPI + "the pairwise remote-memory exchange of cluster wave functions is dead code in the suite.",
  ["vayesta/ewf/rdm.py", "vayesta/ewf/urdm.py", "vayesta/ewf/amplitudes.py", "vayesta/core/qemb/rdm.py", "vayesta/core/types/wf"],
  [("remote fetch of packed cluster wave functions", "vayesta/ewf/rdm.py: make_rdm1_ccsd_global_wf"), ("serialisation of wave functions", "vayesta/core/types/wf/*.py: pack, unpack"), ("reduction to a target", "vayesta/mpi/interface.py: nreduce")],
  [], ["make_rdm1, make_rdm2, get_global_t1/t2/l1/l2 on each process"])

p("C03", "Parallel runs terminate and match all their communication",
  "A program which makes the same sequence of public calls on every MPI process terminates on all of them: no process waits for a message or collective call which no other process will issue, all processes call the same collective operations in the same order, and no sent message is left unreceived. This holds for every legal schedule and buffering, including synchronous sends, and for any number of processes relative to fragments.",
  ["schedules", "configurations", "programs"],
  "for all world sizes, schedules, synchronous/buffered send decisions, early/late leaving of collectives",
  NOMPI + "a deadlock which needs an unbuffered send or a fragment-free process cannot occur in a serial run.",
  ["vayesta/mpi/interface.py", "vayesta/mpi/rma.py", "vayesta/core/qemb/qemb.py", "vayesta/ewf/ewf.py", "vayesta/ewf/rdm.py"],
  [("send/receive pairing and collectives in the decorators", "vayesta/mpi/interface.py: with_send, with_reduce, with_allreduce"), ("barriers and windows", "vayesta/mpi/rma.py")],
  [], ["MPI calls of each process"])

p("C04", "The remote-memory dictionary behaves like one shared dictionary",
  "A dictionary shared between MPI processes behaves, after each synchronisation, like one dictionary holding the union of what the processes stored: every process sees the same keys, reading a key returns exactly the stored array (values, shape, data type) or absent value whichever process stored it, in whatever memory layout and however many keys there are. Reads never return stale, torn or uninitialised data, whatever the schedule and whenever the one-sided transfers complete, and all remote memory is released when it is cleared.",
  ["schedules", "histories", "inputs"],
  "for all sequences of store / synchronise / read / delete / clear operations by all processes, all array shapes, dtypes and memory orders, all schedules and completion times of one-sided transfers",
  NOMPI + "no test touches it.",
  ["vayesta/mpi/rma.py"],
  [("metadata exchange", "vayesta/mpi/rma.py: RMA_Dict.synchronize"), ("windows", "vayesta/mpi/rma.py: RMA_Dict_Element")],
  [("elements", "local and remote entries", "vayesta/mpi/rma.py")], ["dictionary reads on each process"])

p("C05", "Communication helpers deliver the exact data to the right processes",
  "The communication helpers deliver what a serial observer would compute: a broadcast gives every process the root's object or array (any memory layout, shape, data type, empty or missing), a sum-reduction gives the element-wise sum over processes to every process or to the named one and nothing elsewhere, and a call routed from an owner process to a target returns there the owner's value, including for tuples, absent values and repeated calls. Calls restricted to the first process run exactly once.",
  ["schedules", "inputs", "histories"],
  "for all sequences of helper calls, payloads, roots/targets, world sizes, schedules and message matchings",
  NOMPI + "the helpers are no-ops in a serial run.",
  ["vayesta/mpi/interface.py", "vayesta/mpi/scf.py"],
  [("bcast/nreduce/gather", "vayesta/mpi/interface.py: MPI_Interface"), ("with_send/with_reduce/with_allreduce", "vayesta/mpi/interface.py"), ("tags", "vayesta/mpi/interface.py: get_new_tag")],
  [], ["return values on each process"])

p("C06", "All processes embed the same mean field",
  "Under MPI every process works with one and the same mean-field solution: when the mean-field object is shared through the package only one process runs the self-consistent-field calculation and all others receive its orbitals, energies, occupations, convergence flag and total energy; when the processes bring their own mean fields, differing by the sign, rotation or noise of orbitals, the first process's solution is used everywhere.",
  ["schedules", "configurations", "inputs"],
  "for all world sizes, schedules, per-process differences of the mean field (orbital signs, degenerate rotations), references and repeated SCF calls",
  NOMPI + "processes with different orbital signs exist only in parallel.",
  ["vayesta/mpi/scf.py", "vayesta/mpi/interface.py", "vayesta/core/qemb/qemb.py"],
  [("SCF on the first process, broadcast", "vayesta/mpi/scf.py"), ("orbital broadcast at initialisation", "vayesta/core/qemb/qemb.py: _mpi_bcast_mf")],
  [], ["mf attributes, embedding energies on each process"])

p("C07", "A non-converged fragment is never reported as a converged calculation",
  "If the solver of any fragment fails to converge, the calculation reports non-convergence on every process, whichever process owns the fragment, and a later complete re-run in which all solvers converge reports convergence again.",
  ["fault_sequences", "schedules", "histories"],
  "for all subsets of fragments whose solver fails to converge, in any of several consecutive runs, at all world sizes and schedules",
  "The suite never makes an individual fragment's solver fail, let alone on another process.",
  ["vayesta/ewf/ewf.py", "vayesta/ewf/fragment.py", "vayesta/dmet/dmet.py", "vayesta/dmet/fragment.py", "vayesta/solver/ccsd.py", "vayesta/solver/cisd.py", "vayesta/solver/fci.py", "vayesta/solver/tccsd.py"],
  [("convergence reduction", "vayesta/ewf/ewf.py: kernel"), ("per-fragment check", "vayesta/solver/solver.py, vayesta/ewf/fragment.py")],
  [], ["EWF.converged, exceptions"])

p("C08", "A failed or interrupted run leaves no trace in the caller's objects",
  "If a calculation fails or is interrupted at any point (solver error, out of memory, keyboard interrupt, full disk), the caller's mean-field object is unchanged, user options and fragment definitions are as before, and logging continues with the indentation it had before. Repeating the calculation on the same objects then gives the result of an undisturbed calculation.",
  ["fault_sequences", "crash_points", "histories"],
  "for all points of execution at which an exception can be raised in a kernel, a density-matrix query, a chemical-potential search or a self-consistency loop",
  "Tests do not raise exceptions at arbitrary points inside a calculation and then continue with the same objects.",
  ["vayesta/ewf/ewf.py", "vayesta/dmet/dmet.py", "vayesta/core/qemb/qemb.py", "vayesta/core/qemb/fragment.py", "vayesta/core/vlog.py", "vayesta/core/fragmentation/fragmentation.py", "vayesta/core/scmf/scmf.py"],
  [("reset of results before a run", "vayesta/core/qemb/qemb.py: reset"), ("log indentation contexts", "vayesta/core/vlog.py: log indent; core/util.py: time_string etc.")],
  [], ["mean-field attributes, energies after repeat, log indentation"])

p("C09", "Results depend on the current settings, not on the history of calls",
  "Any history of runs, density-matrix and energy queries, resets, option changes, fragment-potential changes and mean-field updates on one embedding object gives, for each query, the result which a newly created object with the current settings would give. No cached quantity from an earlier state is returned, and queries do not change the results of later queries.",
  ["histories"],
  "for all sequences of public operations on one object",
  "Tests create an object, run it once and query it in one order.",
  ["vayesta/core/qemb/qemb.py", "vayesta/core/qemb/fragment.py", "vayesta/ewf/ewf.py", "vayesta/ewf/fragment.py", "vayesta/core/util.py"],
  [("invalidation of caches", "vayesta/core/qemb/qemb.py: reset, update_mf; vayesta/core/util.py: cache, OptionsBase")],
  [], ["energies, density matrices, amplitudes"])

p("C10", "The electron-number search returns only a verified chemical potential",
  "The chemical-potential searches (per fragment, towards a target electron number, and global, towards the electron number of the molecule) either end with a potential for which the electron-number error is within tolerance, and results consistent with that potential, or they signal failure by an exception, a non-converged flag or a logged error; they never report success on an unverified potential. This holds for every sequence of converged, non-converged or failing solver evaluations during bracketing and root search, and the number of evaluations is bounded.",
  ["fault_sequences", "histories"],
  "for all sequences of solver failures during the search, initial guesses, tolerances and targets",
  "Tests run the search where every evaluation succeeds.",
  ["vayesta/solver/solver.py", "vayesta/ewf/fragment.py", "vayesta/core/qemb/qemb.py", "vayesta/misc/cptbisect.py"],
  [("bracketing and Brent search", "vayesta/solver/solver.py: optimize_cpt"), ("global bisection", "vayesta/core/qemb/qemb.py: optimize_chempot; vayesta/misc/cptbisect.py")],
  [], ["converged flags, electron numbers"])

p("C11", "Self-consistency loops report convergence truthfully and stop",
  "A self-consistent embedding run (DMET correlation-potential fitting, projected and Brueckner mean-field updates) stops within the allowed number of iterations. It reports convergence exactly when the changes in its last iteration were below the thresholds, also when repeated, resumed after an earlier run or after solver failures.",
  ["histories", "fault_sequences", "configurations"],
  "for all sequences of repeated runs, iteration limits, thresholds and failing iterations",
  "Tests run each loop once with a generous limit.",
  ["vayesta/core/scmf/scmf.py", "vayesta/core/scmf/pdmet.py", "vayesta/core/scmf/brueckner.py", "vayesta/dmet/dmet.py"],
  [("loop control", "vayesta/core/scmf/scmf.py: kernel; vayesta/dmet/dmet.py: kernel")],
  [], ["converged flag, iteration counts, energies"])

p("C12", "Dumped clusters are complete, exact and never silently damaged",
  "A run which dumps its clusters and returns normally leaves a file from which every cluster of every fragment, on whichever MPI process it was treated, reads back with exactly its orbitals, integrals and metadata, one entry per fragment. If writing fails at any point (full disk, I/O error, interruption) the failure is raised to the caller and no incomplete entry is left which looks complete; clusters completely written before, and data which the user had stored in the same file, survive. Dumping the same fragment a second time either raises or leaves an exact entry.",
  ["fault_sequences", "crash_points", "schedules"],
  "for all fragmentations, world sizes, schedules, repeated dumps and failures at every file operation",
  "Tests dump once, serially, without I/O faults.",
  ["vayesta/solver/dump.py", "vayesta/solver/hamiltonian.py", "vayesta/ewf/fragment.py", "vayesta/ewf/ewf.py"],
  [("one group per fragment", "vayesta/solver/dump.py: kernel"), ("MPI processes write in turn", "vayesta/ewf/ewf.py: kernel; vayesta/solver/dump.py")],
  [], ["contents of the HDF5 file", "exceptions"])

p("C13", "Log output, log level and clocks never influence results",
  "The log level, missing, closed or failing log destinations (full disk, closed streams, a directory in the way of a log file), command-line options for logging, and clocks which jump, stand still or run backwards do not change any computed result and do not raise into the calculation. Without such faults no log record is lost or written twice, under MPI every process writes its own log file with its own messages, and the indentation is back at its level on return from every public call.",
  ["fault_sequences", "configurations", "schedules"],
  "for all log levels, command-line options, clock behaviours and log I/O failures, at any point of a calculation",
  "Tests run quietly, with one log level and the real clock.",
  ["vayesta/core/vlog.py", "vayesta/core/cmdargs.py", "vayesta/__init__.py", "vayesta/core/util.py", "vayesta/mpi/interface.py"],
  [("handlers and lazy log files", "vayesta/core/vlog.py: VFileHandler, VStreamHandler"), ("set-up of logging from the command line", "vayesta/core/cmdargs.py; vayesta/__init__.py: new_log"), ("timers", "vayesta/mpi/interface.py: timer; vayesta/core/util.py: time_string, log_time")],
  [], ["results", "log files", "exceptions"])

p("C14", "Memory limits and block sizes never change results",
  "The memory which is available to the process, and the block sizes derived from it, change only cost: integrals, energies and density matrices are the same whether a transformation is done in one block or in many. A limit too small to hold even one block leads to an exception which names memory, or to the same result, never to a different result.",
  ["configurations", "fault_sequences"],
  "for all available-memory readings during a run (including changing ones), all limits and all partitions into blocks",
  "Test molecules are so small that everything always fits in one block.",
  ["vayesta/core/ao2mo/postscf_ao2mo.py", "vayesta/core/ao2mo/kao2gmo.py", "vayesta/core/util.py", "vayesta/core/qemb/qemb.py", "vayesta/core/bath/bno.py", "vayesta/core/bath/rpa.py", "vayesta/solver", "vayesta/rpa/rirpa/RIRPA.py", "vayesta/mpi/scf.py"],
  [("blocked loops", "vayesta/core/bath/bno.py: _make_t2; vayesta/core/ao2mo; vayesta/solver/mp2.py; vayesta/rpa/rirpa"), ("memory query", "vayesta/core/util.py: get_used_memory")],
  [], ["energies", "density matrices", "amplitudes", "integrals"])

p("C15", "Results do not depend on random state, heap layout or hash order",
  "Energies, density matrices and fragment definitions do not depend on the state of the global random number generators, on the addresses of objects in memory, on which other embedding objects live in the process, or on the interpreter's hash seed; two identical runs, in the same or in different processes, give identical results.",
  ["configurations", "histories"],
  "for all global random states, heap layouts, interleavings with other objects and hash seeds",
  "Tests run with one process-global random state, one hash seed, and do not repeat.",
  ["vayesta/core/linalg.py", "vayesta/core/fragmentation", "vayesta/core/qemb/qemb.py", "vayesta/core/qemb/register.py", "vayesta/core/bath", "vayesta/solver"],
  [("deterministic construction of fragments and baths", "vayesta/core/fragmentation; vayesta/core/bath"), ("class-level and module-level state", "vayesta/core/qemb/register.py; vayesta/core/util.py")],
  [], ["energies", "orbitals up to rotation", "density matrices"])

p("C16", "Population, cube and state files are complete, exact or reported as failed",
  "Population analyses (Lowdin, Mulliken, IAO, user orbitals), cube files and saved cube states which are written without fault contain exactly the populations, charges, spins, densities and orbitals of the arguments, whichever MPI process treats the fragments, and read back as they were written. If a file operation fails (no space, I/O error, missing directory, interruption), the failure is raised to the caller, no file changes after the call has returned, and neither results in memory nor other files are touched.",
  ["fault_sequences", "crash_points", "schedules"],
  "for all orders of write calls, orbitals, grids, world sizes, schedules and failures at every file operation",
  "Tests do not read these files back, and never let a write fail.",
  ["vayesta/core/qemb/qemb.py", "vayesta/core/qemb/uqemb.py", "vayesta/core/qemb/fragment.py", "vayesta/misc/cubefile.py"],
  [("population analysis", "vayesta/core/qemb/qemb.py: pop_analysis, write_population; vayesta/core/qemb/fragment.py: pop_analysis"), ("cube files and saved states", "vayesta/misc/cubefile.py; vayesta/core/qemb/fragment.py: plot3d")],
  [], ["contents of text and cube files", "exceptions"])

# Properties outside the reach of the technique
def na(id, title, statement, files):
    p(id, title, statement, ["inputs"], "for all molecules, lattices and solids, basis sets and options",
      "Tests sample a handful of systems.", files, [("numerical definition", files[0])])

na("N01", "A complete bath reproduces the full-system solver",
   "With a complete bath and a single fragment (or fragments whose clusters span the full space) the embedding energies and density matrices equal those of the solver applied to the whole system.",
   ["vayesta/ewf/ewf.py", "vayesta/core/bath", "vayesta/solver"])
na("N02", "Fragments and their environments partition the orbital space",
   "Fragment orbitals are orthonormal, mutually orthogonal for orthogonal fragmentations, and together with the environment span the complete orbital space with the right electron number.",
   ["vayesta/core/fragmentation", "vayesta/core/qemb/fragment.py"])
na("N03", "Wave-function conversions and projections are lossless",
   "Conversions between wave-function types and projection or restoration of amplitudes preserve the represented amplitudes and density matrices.",
   ["vayesta/core/types/wf"])
na("N04", "Symmetry-equivalent fragments give the symmetry-unique result",
   "Using translational, rotational or inversion symmetry to skip equivalent fragments gives the energies and density matrices of the calculation without symmetry.",
   ["vayesta/core/symmetry", "vayesta/core/qemb/qemb.py"])
na("N05", "Folding a k-point calculation is exact",
   "A mean field folded from k-points to the supercell has the energies, orbitals and integrals of the supercell calculation.",
   ["vayesta/core/foldscf.py", "vayesta/core/ao2mo/kao2gmo.py"])
na("N06", "RPA and moment quadratures are converged within their error estimate",
   "Numerical-integration RPA energies and moments agree with the exact ones within the estimated quadrature error.",
   ["vayesta/rpa"])

with open("/verif/properties.jsonl", "w") as f:
    for x in P:
        assert len(x["title"]) <= 80
        f.write(json.dumps(x) + "\n")
