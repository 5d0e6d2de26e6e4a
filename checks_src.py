WRAPS = ("pthread_mutex_lock pthread_mutex_unlock pthread_mutex_trylock pthread_rwlock_rdlock pthread_rwlock_wrlock "
         "pthread_rwlock_tryrdlock pthread_rwlock_trywrlock pthread_rwlock_unlock pthread_cond_wait "
         "pthread_cond_signal pthread_cond_broadcast pthread_once __cxa_guard_acquire __cxa_guard_release "
         "__cxa_guard_abort sched_yield nanosleep clock_nanosleep usleep memcpy memmove memset memcmp strlen "
         "__cxa_allocate_exception sqlite3_prepare_v2 sqlite3_step sqlite3_exec").split()

check("C01", mode="sched", wrap=WRAPS,
      rule="a case is one schedule of one 2-3 thread program of save/restore/clear; distinct = distinct "
           "(program, results of all operations, final content)")

check("C02", lib="core", mode="sched", wrap=WRAPS,
      rule="a case is one schedule of 2-3 threads making 1-2 lookups; distinct = distinct (program, results)")

check("Q01", lib="core",
      rule="a case is one lookup at one node of the tree of all lookup histories (or of the scan of the embedded "
           "table); distinct = distinct (state, database, energy or error)")

check("D01", rule="a case is one sequence of statement operations on a table of 0-3 rows, one loop over 0-N rows left at one "
      "position, or one bound value; distinct = distinct final model states")

check("D02", lib="core", rule="a case is one state of two configurations after an operation sequence, one stored number, or one "
      "set of keys and values written to JSON; distinct = distinct contents or numbers")

check("M01", lib="core", rule="a case is one matrix (shape, sparsity pattern of entries and basis, values, way of building) stored and "
      "reloaded in nine ways, or one node of the tree of edit/store/load histories; distinct = distinct contents")

check("M02", lib="core", rule="a case is one (stored matrix, truncation length, object loading it) or one node of the tree of load/edit/save "
      "histories; distinct = distinct (matrix, length)")

check("M04", lib="core", rule="a case is one small Hermitian matrix in one basis under every operation and mask, or one node of the tree of "
      "operation histories; distinct = distinct matrices")

check("S02", lib="core", rule="a case is one set of start states and windows, or one sequence of removals from a basis; distinct = distinct "
      "(start states, resulting basis)")

check("M03", lib="core", rule="a case is one symmetry sector (or energy cutoff) of the pair space of two small sets of one-atom vectors; distinct = "
      "distinct sectors")

check("G01", lib="core", rule="a case is one history of tensor requests and plate changes for one relative position; distinct = distinct final geometries")

check("A01", lib="core", rule="a case is one angular momentum and one rotation (or three consecutive ones); distinct = distinct (j, angle)")

check("I01", lib="none", wrap=["exit", "_exit"],
      rule="a case is one argument list; distinct = distinct outcomes (calculation run, help, refusal with its message)")

check("W01", lib="core",
      rule="a case is one state under one integration method, one ordered pair of states and one power of the radius, one pair of grids, "
           "or one node of the tree of computation histories; distinct = distinct states or values")

check("S01", lib="full",
      rule="a case is one state, one ordered pair of states, or one set of states put into tables; distinct = distinct states")

check("A02", lib="full",
      rule="a case is one state with every other state, power and rank, one selection rule table row, or one basis of the older code; "
           "distinct = distinct states")

check("K01", lib="full",
      rule="a case is one request answered by a new cache, or one history of requests, precalculations, settings, loaded tables and archive "
           "round trips; distinct = distinct answers")

check("K02", lib="full",
      rule="a case is one history of two cache objects on one directory, or one script of writes with one or two of its write calls cut "
           "(process death before, inside, after it) or failing; distinct = distinct cases")

check("Y01", lib="full",
      rule="a case is one history of parameter changes, builds, diagonalisations, restrictions and copies of one system; distinct = "
           "distinct spectra")

check("Y02", lib="full",
      rule="a case is one configuration, or one history of parameter changes, builds, diagonalisations, restrictions and copies, of a "
           "pair system; distinct = distinct Hamiltonians")

check("Y06", lib="full",
      rule="a case is one sequence of setting, adding to and reading entries and of changes of basis; distinct = distinct matrices")

check("Y07", lib="full",
      rule="a case is one history of a perturbed and an unperturbed system, one choice of vectors and one transformation; distinct = distinct effective Hamiltonians")

check("Y03", lib="full",
      rule="a case is one sector of one combination of conserved quantities in one basis and configuration; distinct = distinct sectors")

check("Y04", lib="full",
      rule="a case is one sequence of transformations, parameter changes and merges of one system, or one pair of axes; distinct = distinct systems")
check("Y05", lib="full",
      rule="a case is one history of a system, stored and reloaded after it, with every further history of the given length; distinct = distinct systems")
check("L02", lib="full",
      rule="a case is one configuration of the calculation backend, each of its matrices compared with the one of the system interface; distinct = distinct matrices")
check("L01", lib="full", 
      rule="a case is one history of calculations on one cache directory, or one calculation killed at one of its writes and what follows; distinct = distinct "
           "pairs of a configuration and its numbers of states and matrices")
check("P01", lib="full",
      rule="a case is one ordered set of pair states with one angle and one window, one sequence of calls on one object, or one pair system; distinct = distinct sets, angles and windows")
check("M05", lib="full",
      rule="a case is one matrix (shape, sparsity pattern of entries and basis, values) written by the backend's code and read by the client's in three orders of access, or one calculation; distinct = distinct matrices")
check("U01", lib="full",
      rule="a case is one sequence of reports, looks and stops of the client's reader, or the output of one calculation cut after one of its lines; distinct = distinct sequences of observations")
check("U02", lib="none",
      rule="a case is one request for a coefficient after one history; distinct = distinct jobs (one quantum number and angle, one family of histories, one interrupted storing with its number of different files left behind)")
check("U03", lib="none",
      rule="a case is one step of one calculation of the client's own backend after one history of calculations on its cache, or one history of updates of an atom; distinct = distinct jobs (one calculation in one mode, one calculation after each other one, one family of histories)")
check("C03", lib="none",
      rule="a case is one order of the statements and busy waits of several connections running one set of short programs; distinct = distinct orders in which their transactions end")

check("L03", lib="full", mode="sched", wrap=WRAPS + ["malloc", "free", "calloc", "realloc"],
      rule="a case is one schedule of the threads of one calculation; distinct = distinct (program, reported basis, numbers and files)")
