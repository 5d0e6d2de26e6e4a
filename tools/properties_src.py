# ---------------------------------------------------------------- concurrency
prop("C01", "The shared memo cache behaves like one atomic map under any interleaving",
     "When several threads store, look up and clear entries of one shared cache, every completed operation takes effect "
     "at a single instant: a lookup returns exactly the value stored last for that key since the last clear, or nothing. "
     "Storing a key that is already present is refused and leaves the first value in place; storing an absent key succeeds. "
     "No interleaving crashes, deadlocks, reads freed memory or races on the stored data.",
     ["schedules", "histories"],
     "all interleavings (at every memory access, within a preemption bound) of 2-3 threads doing 1-3 save/restore/clear operations on 1-2 colliding keys",
     "cache_test runs save/restore on disjoint keys from a few threads once; it never clears concurrently and sees one schedule per run",
     [PI+"Cache.hpp"],
     [("mutex around save/restore", PI+"Cache.hpp save/restore"), ("duplicate refusal via emplace", PI+"Cache.hpp save"), ("clear", PI+"Cache.hpp clear")],
     observe=["return values and exceptions of the three operations"])

prop("C02", "Concurrent atomic-data lookups return what a lone lookup returns",
     "Looking up the energy, effective quantum number and model-potential parameters of an atomic state gives, in every "
     "thread and under every interleaving, the same values or the same error as the same lookup made alone in a fresh process, "
     "also when the threads look up the same state at the same time or use different databases. "
     "No interleaving crashes, deadlocks, or races on shared data.",
     ["schedules", "histories"],
     "all interleavings within a preemption bound, at every shared memory access, of 2-3 threads making 1-2 lookups of the same or different states in the embedded or user-supplied databases",
     "the quantum defect tests are single-threaded; the shared result cache and the remembered database name are only contended under particular schedules",
     [PI+"QuantumDefect.cpp", PI+"Cache.hpp"],
     [("process-wide result cache", PI+"QuantumDefect.cpp setup"), ("cache reset when the database changes", PI+"QuantumDefect.cpp setup"), ("per-thread database handles", PI+"QuantumDefect.cpp constructors")],
     observe=["public fields of the lookup result", "thrown exceptions"])

prop("C03", "Concurrent connections to one database file lose no write and return no error",
     "When several connections work on one database file at the same time, each statement that has to wait for another "
     "connection's transaction waits and then succeeds instead of failing; only a transaction that already read before its first write may be turned away, "
     "because waiting would then be a deadlock. "
     "Every row reported as written is in the file afterwards, no row appears twice or half-written, and a transaction's rows become visible together.",
     ["schedules"],
     "all interleavings, at statement granularity and at every busy-wait, of 2-3 connections running short autocommit and explicit-transaction histories on one file",
     "the sqlite thread-safety test runs one free schedule with autocommit inserts only",
     [PI+"SQLite.hpp"],
     [("busy handler installed on every handle", PI+"SQLite.hpp handle::install_busy_handler"), ("statement stepping", PI+"SQLite.hpp statement::step")],
     observe=["exceptions of statement execution", "rows in the file afterwards"])

# ---------------------------------------------------------------- databases / configuration
prop("D01", "Database queries deliver every row exactly once, in order, with bound values",
     "For every query result of any size, iterating a prepared statement visits each row exactly once in the order the database "
     "returns them and then stops, and stepping reports a row exactly as long as rows remain. "
     "Values bound to placeholders, including texts with quotes and bytes of any kind, arrive unchanged in the statement they were bound to, "
     "and re-setting, re-preparing or resetting a statement never leaves a previous query's rows or text behind.",
     ["inputs", "histories"],
     "all result sizes 0..N and all operation sequences (set, prepare, bind, step, reset, iterate, get, exec) up to a depth, compared with a reference model of the statement",
     "the unit test reads one table with two rows, the only size for which the iterator is exercised",
     [PI+"SQLite.hpp"],
     [("statement state", PI+"SQLite.hpp statement::step/prepare/reset/set"), ("row iterator", PI+"SQLite.hpp statement::iterator"), ("typed get/bind", PI+"SQLite.hpp statement::bind/get")],
     observe=["visited rows", "column values", "exceptions"])

prop("D02", "Configuration values survive storing, merging, comparing and JSON files",
     "A finite number (normal, not denormal) or a UTF-8 text stored in a configuration is read back equal to what was stored, and two configurations compare equal exactly when they hold the same keys with the same values, so parameters that differ are never mistaken for each other. "
     "Saving a configuration to a JSON file and loading it into an empty one yields an equal configuration for every set of keys and values. "
     "Merging overwrites the left side's values with the right side's and keeps all other keys.",
     ["inputs", "histories"],
     "all operation sequences up to a depth over an alphabet of keys and boundary values (int, size, float, double, text) against a plain map, with a JSON round trip in every reached state",
     "the unit test stores a handful of short values and never compares nearby doubles or unusual keys",
     [PI+"ConfParser.hpp", PI+"ConfParser.cpp"],
     [("value conversion", PI+"ConfParser.hpp Configuration::value"), ("JSON round trip", PI+"ConfParser.cpp load_from_json/save_to_json"), ("merge and comparison", PI+"ConfParser.hpp operator+= / operator==")],
     observe=["values read back", "comparison results", "JSON files"])

prop("Q01", "Atomic data depend only on the requested state and the selected database",
     "After any history of lookups, successful or failed, with the embedded or with user-supplied databases, the energy, effective quantum number and "
     "model potential reported for a state are those computed from the selected database's own entries, and a lookup that database cannot answer fails. "
     "A lookup result, and every copy of it, keeps reporting its values whatever is looked up, copied or destroyed later.",
     ["histories", "inputs"],
     "all lookup histories up to a depth over species, quantum numbers and databases (including missing and empty ones) plus every species/l/j of the embedded database, against an independent evaluation of the database's rows",
     "the unit tests look up a few rubidium states and one user database in a fixed order",
     [PI+"QuantumDefect.cpp", PI+"QuantumDefect.hpp", PI+"databases/quantum_defects.sql"],
     [("result cache keyed by state", PI+"QuantumDefect.cpp setup"), ("cache reset on database change", PI+"QuantumDefect.cpp setup"), ("clamping of l and j to the tabulated maximum", PI+"QuantumDefect.cpp setup")],
     observe=["public fields of lookup results", "exceptions"])

# ---------------------------------------------------------------- wave functions, angular algebra, matrix elements
prop("W01", "Radial wave functions are normalised and radial integrals symmetric",
     "For every species and bound state, both integration methods return the wave function on an increasing square-root-scaled radial grid: Numerov's method the normalised solution in the model potential, the Whittaker method the normalised Coulomb function of the effective quantum number, outside its inner turning point. "
     "The radial integral of a power of the radius between two states is the same in either order, positive for even powers of one state with itself, and consistent with hydrogen's exact values where those exist. "
     "A result never depends on which other wave functions were computed before.",
     ["inputs", "histories"],
     "every (species, n, l, j) in a bounded table, all ordered pairs of a state set, powers 0-3, both methods, in all evaluation orders up to a depth",
     "the unit tests integrate a few rubidium states only",
     [PI+"Wavefunction.cpp", PI+"Wavefunction.hpp"],
     [("radial integration over the common grid", PI+"Wavefunction.hpp IntegrateRadialElement"), ("Numerov integration and normalisation", PI+"Wavefunction.cpp"), ("Whittaker functions", PI+"Wavefunction.cpp")],
     observe=["wave function values", "radial integrals"])

prop("A01", "Rotation matrices of angular momenta are unitary representations",
     "For every angular momentum, integer or half-integer, and every rotation, the rotation matrix elements form a unitary matrix that equals the exact one; "
     "no rotation gives the identity, consecutive rotations about one axis multiply, and the opposite rotation gives the adjoint.",
     ["inputs"],
     "all j up to a bound, all m, m', all pairs of angles of a grid that contains the special-cased ones",
     "no unit test exercises the rotation matrices",
     [PI+"WignerD.cpp"],
     [("pi/2 matrix as sum over binomials", PI+"WignerD.cpp evalWignerdPiHalf"), ("general angle by Fourier sum", PI+"WignerD.cpp evalWignerd")],
     observe=["returned matrix elements"])

prop("A02", "Matrix elements equal exact angular factors times radial integrals",
     "For every pair of states of one species, electric dipole and multipole, magnetic dipole and diamagnetic matrix elements equal (to single precision) the product of the radial integral and the exact angular coefficient, whether computed or read back from a cache file, "
     "and swapping the states gives the conjugate element. "
     "The selection rules report a coupling as forbidden only if its matrix element vanishes, allow a component only if the magnetic quantum numbers differ by it, and the component-free rule is the union of the component rules.",
     ["inputs"],
     "all pairs of states with n in a small set, l up to a bound and every j, m, for singlet, doublet and triplet species, all multipole orders and components",
     "the only test that computes matrix elements compares one Hamiltonian with stored numbers and is not even built without the angular library",
     [PI+"MatrixElementCache.cpp", PI+"MatrixElementCache.hpp"],
     [("angular and reduced elements", PI+"MatrixElementCache.cpp update"), ("selection rules", PI+"MatrixElementCache.cpp selectionRules*"), ("key canonicalisation and signs", PI+"MatrixElementCache.cpp CacheKey constructors")],
     observe=["returned matrix elements", "selection rule verdicts"])

# ---------------------------------------------------------------- states
prop("S01", "State identity, ordering, hashing, reflection and storage agree",
     "For all one-atom and pair states, equality, hash and ordering agree with each other: equal states have equal hashes, the ordering is a strict total order whose equivalence is equality, and sets and hash tables therefore find exactly the states put in. "
     "Reflection inverts only the magnetic quantum number and undoes itself, a pair state consists of its two one-atom states, and storing and reloading a state yields an equal one. "
     "A generalised state contains exactly the states that agree with it in every quantum number that it fixes.",
     ["inputs", "histories"],
     "all pairs and triples of states from a bounded set of species, quantum numbers, artificial labels and wildcards, for both the current and the legacy state types",
     "no unit test touches the state types",
     [PI+"State.hpp", PI+"State.cpp", PI+"StateOld.hpp", PI+"StateOld.cpp"],
     [("comparison operators", PI+"State.cpp operator==,<"), ("hash specialisations", PI+"State.hpp std::hash"), ("reflection", PI+"State.cpp getReflected"), ("containment", PI+"State.cpp operator^")],
     observe=["results of comparisons, hashing, container lookups, archives"])

prop("S02", "The enumerated basis is exactly the set of states the restrictions describe",
     "For every configuration of quantum-number windows, the basis contains each physically allowed state inside the windows around the requested state or states exactly once and nothing else; an unlimited window imposes no restriction. "
     "Every state carries its own position as index, the requested initial states are in the basis, and the pair basis is the product of the two one-atom bases with consistent indices, its initial pair carrying the index it has there. Removing states keeps exactly the others, in order, renumbered by position.",
     ["configurations", "inputs"],
     "all configurations with initial states up to a bounded n and all window widths from unlimited to a bound, for one atom, both atoms and pairs, and all removals of subsets of a small basis",
     "no unit test covers the legacy basis builder",
     [PI+"Basisnames.cpp", PI+"Basisnames.hpp", PI+"Iter.hpp"],
     [("nested loops over quantum numbers", PI+"Basisnames.cpp BasisnamesOne::build"), ("product basis", PI+"Basisnames.cpp BasisnamesTwo::build"), ("renumbering on removal", PI+"Basisnames.cpp removeUnnecessaryStates")],
     observe=["listed states with indices", "dimension", "initial states"])

# ---------------------------------------------------------------- matrices and files
prop("M01", "A matrix stored to disk or memory always comes back as it is now",
     "After any sequence of edits, serialising a Hamiltonian or saving it to a file and reading it back yields the matrix and basis as they are at that moment, for every shape and sparsity pattern, real or complex. "
     "Two matrices with different contents never serialise identically merely because one was serialised before it was edited.",
     ["histories", "inputs"],
     "all sparsity patterns of small shapes, and all sequences of edit/serialise/save/load operations up to a depth, against a dense reference",
     "no unit test serialises a matrix; stale or shape-dependent results need particular histories and patterns",
     [PI+"Hamiltonianmatrix.cpp", PI+"Hamiltonianmatrix.hpp", PI+"Serializable.hpp"],
     [("byte image of the matrix", PI+"Hamiltonianmatrix.cpp doSerialization/doDeserialization"), ("cached byte image", PI+"Hamiltonianmatrix.hpp bytes"), ("typed records", PI+"Serializable.hpp Serializer")],
     observe=["entries and basis after loading", "byte images"])

prop("M02", "A truncated or unreadable matrix file is never mistaken for a stored matrix",
     "Loading a file that holds only part of a stored matrix, is empty, or does not exist reports failure, at every possible truncation point, and never yields a wrong matrix, crashes or hangs. "
     "A failed load followed by a fresh save and load works as if the damaged file had never existed.",
     ["crash_points", "fault_sequences"],
     "every prefix length of the stored image of several real and complex matrices, plus missing, empty and directory paths",
     "tests never interrupt a write; only exhaustive truncation reaches every record boundary",
     [PI+"Hamiltonianmatrix.cpp", PI+"Serializable.hpp"],
     [("record bounds check", PI+"Serializable.hpp Serializer::operator>>"), ("load status", PI+"Hamiltonianmatrix.cpp load")],
     observe=["return value or exception of loading", "matrix contents"])

prop("M03", "Symmetrised pair bases split the pair space into complete, orthonormal sectors",
     "Combining two one-atom Hamiltonians into a pair Hamiltonian without symmetries gives the sum of the two on the product space; combining with symmetries that the one-atom vectors share yields orthonormal basis vectors each of which has the requested parities and total momentum. "
     "The sectors of any one symmetry together contain every product state exactly once and reproduce the unsymmetrised spectrum. "
     "An energy cutoff keeps exactly the pair states whose energy distance is within it.",
     ["configurations", "inputs"],
     "every combination of inversion, reflection, permutation and rotation values over several small one-atom bases, and energy cutoffs at, below and above every pair energy",
     "no unit test combines matrices",
     [PI+"Hamiltonianmatrix.cpp", PI+"Symmetry.hpp"],
     [("pairing with symmetry projection", PI+"Hamiltonianmatrix.cpp combine"), ("normalisation", PI+"Hamiltonianmatrix.cpp combine")],
     observe=["basis and entries of the combined matrix"])

prop("M04", "Reducing, transforming and diagonalising a matrix preserves what it represents",
     "Adding, scaling, transforming to another basis, removing marked basis vectors or states, and diagonalising a Hamiltonian agree with dense linear algebra: diagonalisation returns the eigenvalues and orthonormal eigenvectors expressed in the original states, "
     "and removals delete exactly the marked rows or columns in every part of the object.",
     ["inputs", "histories"],
     "all small symmetric matrices over a value alphabet and all subsets of removed indices, and all short sequences of these operations, against a dense reference",
     "no unit test exercises the legacy matrix class",
     [PI+"Hamiltonianmatrix.cpp"],
     [("arithmetic operators", PI+"Hamiltonianmatrix.cpp operator+,-,*"), ("basis change", PI+"Hamiltonianmatrix.cpp changeBasis/applyCutoff"), ("diagonalisation", PI+"Hamiltonianmatrix.cpp diagonalize"), ("necessity masks", PI+"Hamiltonianmatrix.cpp removeUnnecessary*")],
     observe=["entries, basis, dimensions"])

prop("M05", "The graphical client reads back every matrix the backend writes",
     "For every matrix shape, sparsity pattern and value type, a file written by the calculation backend is read by the graphical client's loader as the same matrix and the same basis, in whatever order the two are asked for. The client finds every file of a calculation, with its step and symmetry block, from the lines the backend prints.",
     ["inputs"],
     "all sparsity patterns of small shapes, real and complex, written by the real backend code and read by the real loader",
     "the two sides are written in different languages and no test runs both",
     [PI+"Hamiltonianmatrix.cpp", PI+"Serializable.hpp", "pairinteraction_gui/loader.py", "pairinteraction_gui/worker.py"],
     [("writer", PI+"Hamiltonianmatrix.cpp save"), ("reader", "pairinteraction_gui/loader.py"), ("report lines", "pairinteraction_gui/worker.py AllQueues")],
     observe=["matrices in the client"])

prop("U01", "The graphical client follows every report of the backend and learns how it ended",
     "Whatever the backend prints, in whatever order its reports arrive, whenever the client looks at them and wherever the backend or the user stops the calculation: each announced basis and result is handed over exactly once, in order, with its step, number of blocks, block and file, to the field or potential it belongs to; the progress shown is that of the calculation; an error reported by the backend reaches the user, once, with its text; text that is no report is passed on; "
     "a calculation counts as finished exactly if the backend reported its end, and otherwise nothing of it is left for the next one. The backend announces each step of each block exactly once, as many results as it announced in total, and the reason when it cannot honour a configuration.",
     ["histories", "fault_sequences", "schedules"],
     "all sequences of reports, looks and stops up to a depth, with the backend ending at every place, on the real reader; the output of real calculations cut after every line",
     "the two sides are written in different languages, no test runs the client, and the failures need a backend that stops or reports an error",
     ["pairinteraction_gui/worker.py", PI+"Interface.cpp", PI+"HamiltonianOne.cpp", PI+"HamiltonianTwo.cpp"],
     [("reader", "pairinteraction_gui/worker.py Worker, AllQueues"), ("reports", PI+"Interface.cpp, "+PI+"HamiltonianOne.cpp, "+PI+"HamiltonianTwo.cpp")],
     observe=["queues and messages of the client"])

prop("U02", "The client's rotation coefficients depend only on what is asked for",
     "The coefficients with which the graphical client rotates states to another quantisation axis are those of the exact sum, for every angular momentum, pair of projections and angle: whatever was asked before, by this client or by another one on the same directory, whether they are computed, remembered, or read back after a restart, after the cache was cleared, "
     "and after a client that died or ran out of disk space while storing them. No such event keeps a later client from starting, asking or storing.",
     ["inputs", "histories", "crash_points"],
     "all pairs of requests of small angular momenta, all histories of two clients on one directory up to a depth, storing cut at every byte",
     "symmetries fold several requests onto one stored number with a sign, and no test runs the client",
     ["pairinteraction_gui/utils.py"],
     [("coefficients", "pairinteraction_gui/utils.py Wignerd")],
     observe=["returned coefficients", "files in the cache directory"])
prop("U03", "The client's own calculations give the results of the settings of each step",
     "When the graphical client calculates by itself (Python API), each announced step of each symmetry block is reported exactly once, and the reported file holds the energies, relative to the state of interest, and the eigenvectors that a new system with exactly the settings of this step has: "
     "whatever was calculated before on the same cache directory, in whatever process and order the steps run and however the atom is passed to them, for one atom, two equal or two different atoms, and also after a calculation that died or ran out of disk space while storing. "
     "An atom that is updated, copied, stored, restored or deleted in between equals a new one with the present settings, and different results never share a name. The blocks are those that the symmetries and the state of interest call for.",
     ["inputs", "histories", "crash_points"],
     "all calculations of two lists in every mode, each after each other one on one cache; all histories of updates of an atom up to a depth; storing cut at every byte",
     "the results of wrong settings look plausible and are kept in the cache; no test runs the client",
     ["pairinteraction_gui/pipy_thread.py", "pairinteraction_gui/pipy/atom.py", "pairinteraction_gui/pipy/config.py"],
     [("runs", "pairinteraction_gui/pipy_thread.py PipyThread"), ("atoms", "pairinteraction_gui/pipy/atom.py AtomOne, AtomTwo"), ("settings", "pairinteraction_gui/pipy/config.py Config")],
     observe=["reported lines", "stored results", "settings of the systems"])

# ---------------------------------------------------------------- element cache
prop("K01", "Cached matrix elements equal freshly computed ones after any history",
     "Whatever was requested, precalculated, reconfigured or failed before, the element cache answers a request with the value a new cache would compute under the present settings. "
     "A request that fails, for example for an unknown species, does not change the answers to any other request, and copies restored from an archive answer like the original. A table of dipole elements loaded by the user replaces exactly the listed elements of the method in use, incomplete lines being skipped.",
     ["histories", "fault_sequences"],
     "all sequences up to a depth of requests, bulk precalculations, setting changes, failing requests and archive round trips, in memory and file-backed, compared with fresh caches",
     "existing tests build one Hamiltonian per cache; order-dependent or stale answers need specific sequences",
     [PI+"MatrixElementCache.cpp", PI+"MatrixElementCache.hpp"],
     [("in-memory tables", PI+"MatrixElementCache.hpp cache_*"), ("pending-request sets", PI+"MatrixElementCache.cpp cache_*_missing"), ("settings", PI+"MatrixElementCache.cpp setDefectDB/setMethod")],
     observe=["returned matrix elements", "exceptions"])

prop("K02", "A persistent element store never yields a wrong element, even after a crash",
     "Elements read from a persisted store, by the same or another cache object and in any order of opening, equal the computed ones. "
     "If the process dies at any point while the store is written, reopening it yields only correct elements, recomputing what is missing.",
     ["crash_points", "histories"],
     "every crash point of short write histories (each write call of the database engine cut) and all interleaved histories of two cache objects on one directory",
     "no test kills a writer; each crash point needs its own execution",
     [PI+"MatrixElementCache.cpp", PI+"SQLite.hpp"],
     [("persistence of elements", PI+"MatrixElementCache.cpp update"), ("transaction per table", PI+"MatrixElementCache.cpp update")],
     observe=["returned elements after reopening"])

# ---------------------------------------------------------------- green tensor
prop("G01", "The Green tensor depends only on the geometry, not on call history",
     "For every relative position of two atoms, with or without a conducting plate, the dipole-dipole tensor equals the free-space field of a dipole plus that of its mirror image, and the dipole-quadrupole tensors equal its spatial derivatives. "
     "The returned tensors depend only on the present geometry: the order in which tensors are requested and the plate is added or moved makes no difference, and a rejected geometry is reported and changes nothing.",
     ["inputs", "histories"],
     "a grid of positions and plate distances including axis-aligned ones, and all call sequences (three getters, add plate at two distances or an invalid one) up to a depth, against an independent evaluation",
     "no unit test evaluates the Green tensor",
     [PI+"GreenTensor.cpp", PI+"GreenTensor.hpp"],
     [("vacuum terms", PI+"GreenTensor.cpp addVacuum*"), ("plate terms", PI+"GreenTensor.cpp addPlate*"), ("memoised tensors", PI+"GreenTensor.cpp getDDTensor/getDQTensor/getQDTensor")],
     observe=["tensor entries", "exceptions"])

# ---------------------------------------------------------------- systems
prop("Y01", "A one-atom Hamiltonian depends only on the present parameters, not on history",
     "After any sequence of changing fields, ion and diamagnetism settings, building, diagonalising and copying, a one-atom system yields, on the states its restrictions leave, the Hamiltonian of its present parameters: field-free energies, electric field, Zeeman and diamagnetic terms, ion interaction, expressed in its orthonormal basis, and diagonal right after a diagonalisation. "
     "Restrictions made before eigenvectors have been formed, or together with a parameter change, remove exactly the states they exclude; selecting eigenvectors keeps exactly the selected ones. The Hamiltonian is always Hermitian. A change that can no longer be honoured (memory saving, eigenvectors selected) or cannot be represented is refused and changes nothing.",
     ["histories"],
     "all operation sequences up to a depth over a small alphabet of parameter values, real and complex, with and without memory saving, against an independently computed Hamiltonian",
     "the integration test builds one system once; stale interaction data need a sequence of changes",
     [PI+"SystemOne.cpp", PI+"SystemBase.cpp"],
     [("kept field-free Hamiltonian", PI+"SystemBase.cpp buildHamiltonian"), ("kept interaction matrices", PI+"SystemOne.cpp initializeInteraction"), ("change notifications", PI+"SystemBase.cpp onParameterChange")],
     observe=["Hamiltonian, basis vectors, states, exceptions"])

prop("Y02", "A pair Hamiltonian depends only on the present parameters, not on history",
     "After any sequence of changing distance, angle, distance vector, order, surface and evaluation method, building, diagonalising and copying, a pair system yields, on the pair states its restrictions leave, the sum of the two atoms' Hamiltonians and their electrostatic interaction, expanded to the order set, for the second atom displaced from the first by the distance vector, with image charges if there is a surface. "
     "Every way of stating a geometry and every evaluation method give this same Hermitian operator. Settings that exclude each other, and changes that can no longer be honoured, are refused; a refused setting changes nothing.",
     ["histories", "configurations"],
     "all operation sequences up to a depth over a small alphabet of parameter values, and all configurations of a grid, against an independent numerical expansion of the Coulomb energy",
     "the integration test builds one pair system once",
     [PI+"SystemTwo.cpp", PI+"SystemBase.cpp", PI+"GreenTensor.cpp"],
     [("geometry parameters", PI+"SystemTwo.cpp setDistance/setAngle/setDistanceVector"), ("kept interaction matrices", PI+"SystemTwo.cpp initializeInteraction"), ("choice of evaluation", PI+"SystemTwo.cpp addInteraction")],
     observe=["Hamiltonian, basis vectors, states, exceptions"])

prop("Y07", "Effective Hamiltonians have the energies of the states they stand for",
     "The Schrieffer-Wolff transformation of a perturbed system gives a Hermitian Hamiltonian whose eigenvalues are those of the perturbed eigenvectors that overlap most with the unperturbed basis vectors, expressed in the orthonormal vectors of their space closest to the unperturbed ones; it leaves the unperturbed system as it is and is refused if it is not defined: bases not orthonormal, unperturbed Hamiltonian not diagonal, states or vectors missing. "
     "Forgetting the mixing of states keeps the energies and replaces every eigenvector by its dominant state, and is refused if one has none. Diagonalising with a threshold keeps exactly the coefficients above it and does not affect settings made later.",
     ["histories", "inputs", "configurations"],
     "all choices of basis vectors of small systems, all histories of a list, for fields and distances of different strengths, against the polar decomposition of the projected vectors",
     "the existing test compares one pair of Rydberg states with perturbation theory",
     [PI+"SystemBase.cpp"],
     [("transformation", PI+"SystemBase.cpp applySchriefferWolffTransformation"), ("states", PI+"SystemBase.cpp forgetStatemixing/diagonalize")],
     observe=["Hamiltonian", "basis vectors", "refusals"])
prop("Y03", "Conserved-symmetry sectors of systems are complete and share no state",
     "For one-atom and pair systems, the basis vectors of every sector are orthonormal, different sectors of one conserved symmetry are orthogonal and together span the full basis. "
     "Where the interaction respects the symmetry, the spectra of the sectors together are the spectrum of the system built without it, also after the sectors were merged. "
     "Combinations that cannot be realised are refused and leave the earlier settings in force.",
     ["configurations"],
     "every value and compatible combination of reflection, rotation, permutation and inversion over several small bases and symmetric field configurations",
     "the Python symmetry tests are not run here and check a few configurations",
     [PI+"SystemOne.cpp", PI+"SystemTwo.cpp"],
     [("one-atom symmetrisation", PI+"SystemOne.cpp addSymmetrizedBasisvectors"), ("pair symmetrisation", PI+"SystemTwo.cpp initializeBasis")],
     observe=["basis vectors, spectra, exceptions"])

prop("Y04", "Basis transformations of a system preserve its spectrum, norms and overlaps",
     "Diagonalising, canonicalising, making unitary, rotating, selecting basis vectors and merging orthogonal systems, in any order, keep the represented operator: the spectrum is unchanged or restricted to the selected part, basis vectors stay orthonormal, and rotating back restores the system. "
     "Overlaps with states lie between zero and one and sum to one over a complete basis, in the original and in any rotated frame. After a rotation, fields and distances set later act in the new frame of the states. "
     "Systems are merged only if their bases are orthogonal and all their parameters agree; refused merging leaves both as they were. Main states, indices of states and vectors, and connections between systems follow the largest overlaps. "
     "Every pair of orthogonal axes is accepted as a frame, and a system of real numbers accepts every rotation about y.",
     ["histories", "inputs"],
     "all sequences of transformations up to a depth over small systems and a set of rotations, compared with dense linear algebra",
     "tests apply single transformations to single systems",
     [PI+"SystemBase.cpp", PI+"SystemOne.cpp", PI+"SystemTwo.cpp"],
     [("transformations", PI+"SystemBase.cpp diagonalize/canonicalize/unitarize/rotate/add/constrainBasisvectors"), ("overlaps", PI+"SystemBase.cpp getOverlap"), ("rotators", PI+"SystemOne.cpp buildStaterotator")],
     observe=["spectra, basis vectors, overlaps"])

prop("Y05", "A stored and reloaded system continues exactly like the original",
     "Storing a one-atom or pair system at any point of its life and reloading it gives a system with the same states, basis vectors and Hamiltonian that reacts to every further operation as the original does.",
     ["histories"],
     "every prefix of all operation sequences up to a depth followed by every single further operation, original against reloaded",
     "the Python pickling tests store one fully built system",
     [PI+"SystemBase.hpp", PI+"SystemOne.hpp", PI+"SystemTwo.hpp", PI+"serialization_eigen.hpp", PI+"State.hpp"],
     [("archived members", PI+"SystemOne.hpp/SystemTwo.hpp/SystemBase.hpp serialize"), ("archived matrices", PI+"serialization_eigen.hpp")],
     observe=["states, basis, Hamiltonian, exceptions"])

prop("Y06", "Editing a Hamiltonian entry changes that entry and its conjugate only",
     "Setting the entry between two states makes reading it return the value set, its transpose partner the conjugate, and leaves every other entry as it was; adding to an entry changes it by the amount added. "
     "This holds in every complete basis the system is expressed in, for real and complex systems, and the Hamiltonian stays Hermitian.",
     ["histories", "inputs"],
     "all pairs of states of small systems, all sequences of set/add/read/diagonalise up to a depth, real and complex values, against a dense reference",
     "no existing test edits entries of a complex system",
     [PI+"SystemBase.cpp"],
     [("entry access", PI+"SystemBase.cpp getHamiltonianEntry/setHamiltonianEntry/addHamiltonianEntry")],
     observe=["entries read back", "Hamiltonian"])

# ---------------------------------------------------------------- legacy pipeline, perturbation, cli
prop("L01", "The calculation backend gives the same result with any state of its disk cache",
     "Running a calculation with an empty cache directory, with the cache left by the same or by other calculations, or with the cache left by a run that was killed at any point produces the same Hamiltonians and files. "
     "Cached matrices are used only for exactly the parameters they were computed for.",
     ["crash_points", "histories", "configurations"],
     "all short histories of calculations over a set of pairwise different configurations sharing one cache directory, and every crash point between and within the writes of the cache files",
     "no test runs the backend twice on one cache directory",
     [PI+"HamiltonianOne.cpp", PI+"HamiltonianTwo.cpp", PI+"Interface.cpp", PI+"Hamiltonianmatrix.cpp"],
     [("cache lookup by configuration", PI+"HamiltonianOne.cpp/HamiltonianTwo.cpp getMatrix loops"), ("configuration files beside matrices", PI+"HamiltonianOne.cpp"), ("validated load", PI+"Hamiltonianmatrix.cpp load")],
     observe=["matrices produced", "files written"])

prop("L03", "The backend gives the same result under any interleaving of its threads",
     "A calculation whose steps are processed by several threads produces, under every interleaving of the threads, the same bases, Hamiltonians, step and symmetry numbers and intact report lines as with one thread, from an empty or a used cache directory, "
     "and leaves a cache that a later calculation can use. No interleaving fails, deadlocks or accesses shared data unordered.",
     ["interleavings", "configurations"],
     "every schedule, up to a number of preemptions, of the parallel loops over field steps, distances and symmetries, for configurations that reach every parallel loop",
     "tests run on whatever schedule occurs; the table of cached matrices was created late by one of the threads only on a cold start",
     [PI+"HamiltonianOne.cpp", PI+"HamiltonianTwo.cpp", PI+"Hamiltonianmatrix.cpp"],
     [("parallel loop over field steps", PI+"HamiltonianOne.cpp build"), ("parallel loops over steps and symmetries", PI+"HamiltonianTwo.cpp calculate"), ("const operations shared by threads", PI+"Hamiltonianmatrix.cpp combine, changeBasis, energycutoff")],
     observe=["matrices produced", "report lines", "cache left behind"])

prop("L02", "The two generations of the calculation code agree",
     "For every configuration both can express, the calculation backend and the system interface give the same spectrum of the same states, for single atoms in fields and for interacting pairs.",
     ["configurations"],
     "all configurations over small windows, fields on and off along each axis, diamagnetism, multipole orders, and pair distances",
     "no test compares the two implementations",
     [PI+"HamiltonianOne.cpp", PI+"HamiltonianTwo.cpp", PI+"SystemOne.cpp", PI+"SystemTwo.cpp", PI+"MatrixElements.cpp", PI+"MatrixElementCache.cpp"],
     [("legacy elements", PI+"MatrixElements.cpp"), ("element cache", PI+"MatrixElementCache.cpp")],
     observe=["spectra"])

prop("P01", "Perturbative coefficients agree with each other and with the exact interaction",
     "The second-order coefficient of a pair state equals the one obtained for the set containing only that state and the large-distance limit of the exact calculation in the same basis; effective matrices are Hermitian, "
     "independent of the order in which states are listed, and unaffected by which coefficients were computed before.",
     ["inputs", "configurations"],
     "all small sets of pair states and their orders, several angles and basis windows, against explicit second-order sums over the element cache",
     "the Python perturbation tests are not run here and compare a few numbers",
     [PI+"PerturbativeInteraction.cpp", PI+"PerturbativeInteraction.hpp"],
     [("second-order sums", PI+"PerturbativeInteraction.cpp getC6"), ("first order", PI+"PerturbativeInteraction.cpp getC3"), ("angular terms", PI+"PerturbativeInteraction.cpp initializeAngleTerms")],
     observe=["returned coefficients"])

prop("I01", "The command line accepts exactly its documented options",
     "For every argument list, the backend runs exactly one calculation with the given configuration, output and type if and only if all three options are given with valid values, in any order, the last value winning, the argument after an option being its value whatever it is; "
     "it returns the status of the calculation. Otherwise it runs none: it prints the help if that is asked for, or nothing at all is given, before anything invalid, and else says why and reports failure.",
     ["inputs"],
     "all argument lists up to a length over the option names, their aliases, values and junk",
     "no test runs the executable",
     [PI+"main.cpp"],
     [("option loop", PI+"main.cpp main")],
     observe=["calls made", "exit status"])

# ================================================================ claims
SCHED = ("stateless model checking of the real code: every thread interleaving within a preemption bound under a "
         "controlled scheduler, happens-before race detection on every memory access")
TREE = "explicit-state exploration of the real code: exhaustive tree of operation histories, each node executed in a forked process"
claim("C01", SCHED + ", brute-force linearizability check of every execution", "model_checking",
      "All 2-thread programs with up to 2 operations each and all 3-thread programs with one operation each, colliding keys, "
      "copy failures included, at most 2 preemptions (quick). Data-race freedom is checked, so sync points suffice as "
      "scheduling points; atomics are treated as sequentially consistent.")
claim("C02", SCHED + ", compared with the lone lookup in a fresh process", "model_checking",
      "2-3 threads with 1-2 lookups over six (state, database) pairs, cold and warmed caches, at most 2 preemptions. sqlite's "
      "own code is not instrumented: its calls are scheduling points and atomic.")
claim("Q01", TREE + ", compared with an independent evaluation of the database rows", "model_checking",
      "All lookup histories up to length 3 (4 thorough) over 17 (state, database) letters including missing, empty, partial "
      "and broken databases, with copies outliving their originals; full scan of the embedded table. Files do not change during a run.")
claim("D01", "explicit-state exploration of the real code: all statement operation sequences up to a depth, stepped in lockstep with a reference model", "model_checking",
      "All sequences of up to 5 (6) operations out of 15 on tables of 0-3 rows, all result sizes up to 12 (40) with every place to leave "
      "a loop and three ways to go on, every byte value in bound texts. The engine's own rules (binding while running, resetting after an error) are excluded.")
claim("D02", "explicit-state exploration of the real code: all operation sequences on two configurations up to a depth against plain maps, JSON round trip in every state", "model_checking",
      "33 operations, depth 3 (4); numbers: all exponents of normal doubles with nine mantissas and their neighbours; all pairs of 28 keys. Denormal numbers and invalid UTF-8 are outside the property.")
claim("M01", "explicit-state exploration of the real code: all sparsity patterns and all edit/store/load histories up to a depth", "model_checking",
      "All patterns of entries up to 2x2 times bases up to 3x2 (3x3 against special patterns), real and complex, three ways of building, nine ways "
      "of storing; histories of 24 operations up to length 4 (5) real, 3 (4) complex. References kept to a matrix across a store are outside.")
claim("M02", "exhaustive enumeration of crash points: every truncation length of stored matrices, and all histories of good and failed loads up to a depth", "model_checking",
      "Every prefix of nine (seven quick) images loaded into four kinds of objects; all histories of 12 operations up to length 3 (4). "
      "Files whose bytes were altered rather than cut off are outside: the format has no checksum.")
claim("M04", "explicit-state exploration of the real code: all operation histories up to a depth in lockstep with a dense model, and all small Hermitian matrices", "model_checking",
      "All Hermitian 1x1-3x3 matrices over 3 (4 complex) values in four bases under every operation, mask and block; histories of 20 operations up to length 4 (5). "
      "Diagonalisation drops coefficients below 5e-5 by design: vectors are compared to 2e-3.")
claim("S02", "exhaustive enumeration of configurations on the real code against brute-force enumeration of the allowed states", "model_checking",
      "One atom: all start states with n<=4 (6) and all windows up to 3 (5); two atoms: all pairs with n<=3; pairs and all (repeated) removals of subsets of small bases.")
claim("M03", "exhaustive enumeration on the real code of all symmetry sectors of small pair spaces, compared with projectors built from the states", "model_checking",
      "4 (5) bases of 2-12 states, 8 kinds of one-atom vectors (product states in any order, shifted by a magnetic field, mixed by fields, without any symmetry, incomplete), "
      "real and complex, identical and different atoms, every set of symmetries with every value, 5 energy cutoffs each. One-atom vectors that break a symmetry are not combined with it.")
claim("G01", "explicit-state exploration of the real code: all histories of tensor requests and plate changes up to a depth, each compared with image charges differentiated automatically", "model_checking",
      "All histories of 7 operations up to length 5 (6) for 728 (2743) relative positions (3 (4) outside the xz-plane), accepted and rejected plates. References returned earlier are outside.")
claim("A01", "exhaustive enumeration on the real code of all angular momenta, matrix elements and sequences of up to three rotations on a grid of angles, against exp(-i beta Jy) in extended precision", "model_checking",
      "j up to 21/2 (31/2), 255 (399) angles including the neighbourhoods of 0, pi/2, pi, 2 pi and large angles, 490 Euler triples, 1000 triples of consecutive rotations per j. Exact up to 1e-13 (j small) to 1e-11.")
claim("I01", "exhaustive enumeration of argument lists given to the real entry point, the calculation and exit() replaced by recorders", "model_checking",
      "All lists of up to 6 arguments out of 13 (17), of 7 (8) out of 8, of 8 (10) out of 5, and every single-character change of every option and type. The calculation itself is a stand-in.")

claim("W01", "exhaustive enumeration on the real code of all states, pairs of states and powers up to a bound against an independent fine-grained integration and hydrogen's exact values; all computation histories up to a depth", "model_checking",
      "All 7 species, l up to 12 (60), n up to 45 (130) plus selected n up to 200, every j; integrals of 5 powers over all pairs of 20-60 states per species; all pairs of grids; hydrogen n up to 14 (22); histories of 6 computations up to length 3 (4). "
      "States below the ground state, and strontium states whose tabulated effective quantum number exceeds n, are outside.")
claim("S01", "exhaustive enumeration on the real code of all states, pairs of states and small sets of states from bounded ranges, compared with tuples", "model_checking",
      "About 600 one-atom and 900 (4000) pair states, generalised and artificial ones included: all ordered pairs for equality, order, hash and containment; all triples of 24 (40) states as table contents; archives in two formats. "
      "Default-constructed states and reflections of states with an arbitrary magnetic quantum number are outside.")
claim("A02", "exhaustive enumeration on the real code of all pairs of states of bounded sets, powers, ranks and components, against matrix elements built in the uncoupled basis by ladder operators and quadrature", "model_checking",
      "Lithium, rubidium, caesium (thorough: all alkali), singlet and triplet strontium; l up to 3 (4), every j and m, 3 (5) pairs of principal quantum numbers, both methods; powers and ranks 0-4 (5) in all combinations; "
      "selection rules for every component in and beyond the rank; the older class with all its elements, from a list of states and from a basis of the older code, fresh and from its cache file. "
      "Angular symbols come from the exact stand-in library in /verif/stub, the original library not being installed.")
claim("K01", "exhaustive enumeration on the real code of all histories of requests, precalculations, setting changes, failing requests, loaded tables and archive round trips up to a depth, each answer compared with a new cache's", "model_checking",
      "24 operations: all histories of 3 (4) ending in a request, 13 of them one deeper; with a store on disk 19 operations, additionally new objects on the same directory and process forks, all histories of 3 (4) in processes of their own; "
      "about 2400 elements of three species in a row, forwards and backwards from 64 (1024) starting points, also through a store. Elements loaded by the user belong to the method selected when they are loaded, listed with the smaller state first.")
claim("K02", "exhaustive fault enumeration on the real code: every write call of the database engine is cut (process death before, inside, after) or fails, also twice in a row, and every history of two cache objects on one directory", "model_checking",
      "7 scripts of writes with 24-119 write calls each (creation, single elements, many at once, stores of many pages), 5 fault modes at every call, with and without a second process having the store open; the same object going on after failing writes; "
      "a second death at every call while recovering (thorough: all mode pairs); histories of 14 operations up to 3 (4). Process death, not power failure: the system calls made before the death take effect.")
claim("Y01", "explicit-state exploration of the real code: all histories of one system up to a depth, every state compared with an independently computed Hamiltonian", "model_checking",
      "About 30 operations up to length 3 (4), 15 of them up to length 4 (5) from a system beside an ion; real and complex, with and without memory saving; Rb, n=20-21, l<=2, j<=3/2. "
      "Cutting states out of eigenvectors, orders of the ion interaction above 3 and conserved symmetries (Y03) are outside.")
claim("Y02", "explicit-state exploration of the real code: all histories of one pair system up to a depth and all configurations of a grid, every state compared with a numerical expansion of the Coulomb energy with image charges", "model_checking",
      "About 22 operations up to length 3 (4), 13 of them up to length 4 (5) from a pair beside a plate; 15 distance vectors x 3 orders x tensor x 3 plates x fields; Rb-Cs pairs of 36 and 144 states, real and complex, memory saving. "
      "Orders below 3 and above 5, zero distance, and whether the Green tensor stays on after a setting that needed it are outside.")
claim("Y06", "explicit-state exploration of the real code: all sequences of editing and reading entries and of changing the basis up to a depth, in lockstep with the dense matrix of entries", "model_checking",
      "Every ordered pair of four states, two values each, set, add, clear, diagonalise, canonicalise, copy; length 3; one-atom and pair systems (pairs: length 2, thorough 3), real and complex. Incomplete bases are outside.")
claim("Y07", "exhaustive enumeration on the real code of all choices of basis vectors, of perturbations and of histories of both systems, every result compared with the direct rotation computed from a polar decomposition", "model_checking",
      "One atom with 8 states: all choices of vectors, 5-6 fields, 6 histories of the perturbed and 4 of the unperturbed system (one with fewer states); pairs with 16 states: all choices of up to 3 (4) vectors, 4 distances; 7 kinds of impossible requests; 6 thresholds and the forgetting at 12-28 (64-200) settings. "
      "Choices for which the vectors overlapping most are not determined (ties) or (almost) orthogonal to the unperturbed ones are left out and counted.")
claim("Y03", "exhaustive enumeration on the real code of all symmetry sectors of small one-atom and pair systems under all symmetric and unsymmetric field configurations of a grid, against projectors and independently computed Hamiltonians", "model_checking",
      "12 one-atom bases (half-integer and integer spin, ranges and given states) x 12 configurations of fields and ion; 6 kinds of pairs x 10 fields x 8 positions x all compatible sets of symmetries; real and complex; all sequences of 8 settings up to length 4 (5). "
      "Momenta and parities of pairs are built from one-atom states that have them; reflection together with rotation for pairs is a known finding.")

claim("Y04", "explicit-state exploration of the real code: all sequences of transformations of one system up to a depth, in lockstep with a model that keeps the spanned space and the represented operator as dense matrices", "model_checking",
      "13-15 operations (two settings, Hamiltonian, diagonalise, canonicalise, unitarise, two pairs of rotations, selection, merging fitting and unfitting systems, copying) up to length 4 (5) for one atom, 3 (4) for pairs with and without fields; real and complex, memory saving; "
      "all pairs of orthogonal axes with components up to 2 (4) and 1728 rotated frames. Energy windows and thresholds of diagonalize() and rotations of bases lacking Zeeman levels are outside.")
claim("Y05", "explicit-state exploration of the real code: every history of a system up to a depth, stored and reloaded, then every further history up to a depth on original and reloaded system in lockstep", "model_checking",
      "24-26 operations; one atom: histories up to 3 and continuations so that both have 3 (4) operations together, at least 1; pairs: 2 (3); real and complex, memory saving; binary archives, JSON ones after up to one operation; storing twice. "
      "The Python wrapper around the archives is not built here.")
claim("L01", "exhaustive enumeration on the real backend of all histories of calculations on one cache directory up to a depth, and of every point of death at its write calls, each result compared with the one on an empty cache", "model_checking",
      "92 configurations; for every setting of the configuration file (except missingWhittaker) two of them differ in it alone and have different results: all histories of 2, each run again; 12 of them to depth 3 (4); "
      "8 (32) calculations killed before, inside and after every call that writes below the cache directory, each followed by the same calculation and by another. Process death, not power failure; one thread; one process at a time.")
claim("L03", "stateless exploration of the real backend under a controlled scheduler that replaces the OpenMP runtime: all schedules up to a preemption bound, with happens-before race detection on every memory access", "model_checking",
      "11 calculations that reach every parallel loop (one atom, pairs with distances or fields as steps, symmetries, real and complex), 2 threads with 1 preemption (2 for three of them) and every order of starting, 3 threads with 1; cold cache, used cache and one with damaged files; "
      "deviations from the first schedule lie in one loop at a time, the loops being separated by joins. Scheduling points are critical sections, database calls, calls on files and printing; linear-algebra libraries are not instrumented.")
claim("L02", "exhaustive enumeration on the real code of all configurations of a grid that both implementations can express, spectra and states compared", "model_checking",
      "About 1900 (3600) configurations: one atom and pairs, species with half-integer and integer spin, every combination of field components out of a small set, diamagnetism, "
      "orders of the interaction, energy windows, symmetries, several distances. States are compared to 1e-2 because the backend drops components below 1e-4.")
claim("P01", "exhaustive enumeration on the real code of all ordered sets of up to three pair states out of pools, over angles and windows, against second-order sums over all states with an independently expanded interaction, and of all sequences of calls on one object", "model_checking",
      "7 pools of 3-12 pair states (half-integer and integer spins, mixed species, low n), 5 (12) angles, windows of 0-2 (low n: 0-4) principal quantum numbers, all ordered sets of up to 3 states; all sequences of 2 (3) of 10 calls; "
      "5 pair systems at a large distance. Sets coupled to a degenerate state outside of the set are left out, the coefficient being infinite; sets mixing species are outside.")
claim("M05", "exhaustive enumeration on the real code of both sides: all sparsity patterns of small matrices written by the backend's code and read by the client's, and real calculations with their reports parsed by the client's queues", "model_checking",
      "All patterns up to 2x2 entries with up to 3x2 basis, and the 3x3 ones with a full, empty or single-element partner and every seventh (thorough: every) other; real and complex, compressed or not; three orders of access; all ordered pairs of 52 files, one replaced by the other under the same name, in 15 orders of access; 24 calculations run twice. Infinite values are outside.")
claim("U01", "exhaustive enumeration on the real code: all sequences of reports, looks and stops up to a depth through the client's reader, against an automaton; real calculations cut after every line", "model_checking",
      "16 letters (13 kinds of lines, a look, a stop) to depth 5 (thorough 6), the six central ones to depth 8 (9), two calculations in a row over 9 letters (4 and 2; thorough 5 and 2); 8 calculations run twice, 5 refused ones, cut after every line, with and without its line end. "
      "Qt's thread and signals are replaced by a stand-in that runs the reader at once; 14 sequences are also run with the real ones. Lines cut within their text and numbers of more than seven digits are outside, as is what the main window does with the queues.")
claim("U02", "exhaustive enumeration on the real code: all ordered pairs of requests, all histories of two clients on one directory up to a depth, storing cut at every byte, against the exact sum", "model_checking",
      "All pairs of requests for j up to 2 (thorough 4) at 13 angles, each new, remembered, stored and restarted; histories of length 3 (4) over 25 letters with 9 requests; 20 stores cut at each byte by death or a full disk. Angles closer than the stored resolution of 1e-9 are compared to 2e-8.")
claim("U03", "exhaustive enumeration on the real code: all ordered pairs of calculations on one cache and all modes of running them, all histories of updates up to a depth, storing cut at bytes, against systems set up independently", "model_checking",
      "31 field and 48 pair calculations, each in 5 ways of passing the atom in one process, every third (thorough: each) also in two, twice, and after each of the others; histories of length 4 (thorough 5; pairs 2 and 3) over up to 17 letters on three kinds of atoms; 8 storings cut at every third or seventh (thorough: every) byte. "
      "The compiled library (its Python bindings cannot be built here) is replaced by a recorder whose energies and vectors depend on everything it was told; its methods must exist in the headers. Pools of spawned processes and the user's termination of a run are outside.")
claim("C03", "stateless exploration of the real code: all orders of the statements and busy waits of several connections, up to a preemption bound", "model_checking",
      "14 kinds of histories (autocommit, prepared, deferred/immediate/rolled-back transactions, readers, upgrades, moved and assigned handles): two connections with one each in all orders, "
      "1x2 with at most 4 (6) preemptions, 2x2 with 3 (4), three connections with 1 (2), four with 1 (thorough); waits of up to 20000 (90000) attempts. "
      "Connections are taken from one process and switch at statements, steps and sleeps, where sqlite holds its locks; power failures are outside.")
