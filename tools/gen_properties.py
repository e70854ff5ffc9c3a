#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the texts are easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "Work packages partition the enumeration",
 "For every admissible choice of coordinate ranges, fixed value sets, value sets depending on another coordinate, and package size, stepping through the iteration yields work packages that together contain every admissible coordinate tuple exactly once and nothing else. Every package is a non-empty box inside the ranges with at most package-size many tuples, enumerating a package (as a box or through its own sub-iterator) visits exactly the tuples of that box once each, and the iteration always ends and then stays ended.",
 ["inputs", "configurations"], "all range/set/dependent-set layouts and all package sizes",
 "The six block tests look at one fixed layout each (package sizes 1, 3, 4); a wrong carry, last short step or package-size split needs other shapes.",
 ["src/block_iterator.cc", "src/block_iterator.hh"],
 [("odometer stepping over dependent sets, sets, blocks", "BlockIterator::step_"), ("distribution of the package size over coordinates", "BlockIterator::initialize_blocks"), ("package as box / sub-iterator", "BlockIterator::as_block, as_block_enumerator")],
 [("position", "current tuple", "BlockIterator")], ["BlockIterator public API"])

prop("C02", "Enumerated representatives weigh every curve class exactly",
 "For every finite field of odd order, every positive genus, with or without marked point and for every package size, the enumerated square-free right hand sides with their multiplicities (each counted once for the curve and once for its twist) give every orbit of square-free polynomials of the admissible degrees, under affine substitutions and scaling by units, a total weight equal to the size of that orbit. Hence no isomorphism class is missed, none is counted with a wrong weight, and the weights add up to the number of all square-free polynomials of these degrees.",
 ["inputs", "configurations"], "all odd q, all genera, marked or not, all package sizes",
 "The only test that sums multiplicities (q=13, g=2) does not compile at this commit and never reaches fields whose characteristic divides or is below the degree, prime powers, or the marked case.",
 ["src/curve_iterator.cc", "src/curve_iterator.hh", "src/block_iterator.cc", "src/fq_element_table.cc"],
 [("normal forms by characteristic versus degree", "CurveIterator::CurveIterator"), ("orbit sizes from the support", "CurveIterator::multiplicity"), ("coset representatives", "FqElementTable::power_coset_representatives")],
 observe=["CurveIterator / BlockIterator public API", "CurveIterator::multiplicity"])

prop("C03", "Point counts are exact over every extension",
 "For every square-free polynomial of degree at least three over a finite field of odd order and every extension degree requested, the reported pair is exactly the number of unramified and ramified points of the hyperelliptic curve over that extension, points at infinity included. Counting over the same extension again, in any order of extensions, does not change the result.",
 ["inputs", "histories"], "all odd q (prime or prime power), all square-free polynomials, all extension degrees, all orders of count calls",
 "Tests check two polynomials over F_5 and F_7 for extension degrees 1 and 2.",
 ["src/curve.cc", "src/reduction_table.cc", "src/fq_element_table.cc"],
 [("logarithmic Horner evaluation", "Curve::count_cpu"), ("points over 0 and infinity", "Curve::count"), ("Zech table", "ReductionTable::compute_incrementation_table"), ("base change of coefficients", "Curve::convert_poly_coeff_exponents")],
 [("nmb_points", "counts per extension degree", "Curve")], ["Curve public API"])

prop("C04", "All counting methods and the single-curve tool agree",
 "For every odd prime and every list of integer coefficients whose reduction modulo the prime is a square-free polynomial of degree at least three, the single-curve program prints, with each of its counting methods, the reduced polynomial, its exact point counts over the first genus many extensions, the matching Hasse-Weil offsets and the exact ramification type. In particular all methods print the same values, and coefficients are understood modulo the prime.",
 ["inputs", "configurations"], "all odd primes, all coefficient lists (also coefficients at least the prime), all counting methods",
 "Only two coefficient lists, all reduced, are tested; the executable itself is never run by a test.",
 ["src/single_curve_fp.cc", "src/executables/single.cc", "src/curve.cc"],
 [("integer to exponent conversion", "single_curve_fp"), ("naive counting", "Curve::count_naive_nmod, Curve::count_naive_zech")],
 observe=["stdout of hycu-single"])

prop("C05", "Ramification type is the exact factorisation pattern",
 "For every square-free polynomial over a finite field of odd order the reported ramification type is the ascending list of degrees of its irreducible factors, with one further 1 for the point at infinity if the degree is odd. The answer does not depend on which extensions have been counted before it is asked for.",
 ["inputs", "histories"], "all square-free polynomials over all odd q and every set of extension degrees counted beforehand",
 "No test calls the ramification computation; the shortcut from counts and the factorisation fallback have to agree on all inputs.",
 ["src/curve.cc"],
 [("deduction from ramified point counts, fallback to factorisation", "Curve::ramification_type")],
 observe=["Curve public API"])

prop("C06", "Exactly the square-free right hand sides are counted",
 "A polynomial over a finite field of odd order is accepted as right hand side of a curve if and only if it has no repeated factor over the algebraic closure. In a run, polynomials with a repeated factor contribute nothing to any result and every enumerated square-free one contributes.",
 ["inputs"], "all polynomials over all odd q",
 "No test asks for square-freeness; it matters for every enumerated polynomial.",
 ["src/curve.cc", "src/threaded/thread.cc"],
 [("square-freeness test, prime and non-prime fields", "Curve::has_squarefree_rhs"), ("skipping singular models", "Thread::main_thread")],
 observe=["Curve public API", "curves registered in the store"])

prop("C07", "Every curve is tallied together with its quadratic twist",
 "For any sequence of curves registered, the resulting table adds, for each curve, its multiplicity once to the line of its own ramification type and Hasse-Weil offsets (q^k + 1 minus number of points, for consecutive k) and once to the line of its quadratic twist, whose ramification type is the same and whose offsets are negated for odd k. A curve whose two lines coincide adds twice its multiplicity to that line, and the table does not depend on the order of registration.",
 ["inputs", "histories"], "all sequences of registered curves, all count exponents",
 "Store code is compiled but not exercised by any stable test.",
 ["src/store/store.cc", "src/store/curve_data.cc", "src/store/store_data.hh", "src/curve.cc"],
 [("tallying key and twisted key", "Store::register_curve"), ("twist of the key", "ExplicitRamificationHasseWeil::twist"), ("offsets", "Curve::hasse_weil_offsets")],
 [("store", "table key to count", "Store")], ["Store public API"])

prop("C08", "The merged result is the exact census of all curves",
 "For every finite field of odd order, genus, marked-point choice, count exponent, package size and number of threads, running the program to completion and merging its output yields precisely the table that lists, for each ramification type and Hasse-Weil offsets, the number of square-free polynomials of degree 2g+1 (and 2g+2 unless a marked point is requested) with these invariants. The merged record lists exactly the packages of the enumeration.",
 ["configurations", "schedules", "inputs"], "all configurations and thread counts",
 "The tests that compare with reference tables (q=5, q=7) do not compile at this commit, and they would fix one package size and bypass files, merger and executables.",
 ["src/executables/threaded.cc", "src/worker_pool/standalone.cc", "src/threaded/thread.cc", "src/curve_iterator.cc", "src/store/store.cc", "src/executables/merger.cc"],
 [("main loop", "executables/threaded.cc"), ("per-package work", "Thread::main_thread")],
 observe=["files written by hycu-threaded and hycu-merger"])

prop("C09", "Each package is processed exactly once and saved consistently",
 "Under every interleaving of the assigning thread, the worker threads and the periodic saves, every assigned package is computed by exactly one worker, and appears in exactly one saved record. Each saved pair of record and table is consistent: the table is exactly the sum of the contributions of the packages in its record, so a save never captures half of a package and never loses or duplicates one.",
 ["schedules"], "all interleavings of master, workers and saves; any number of workers and packages",
 "The stable tests start no thread; even the threaded tests would see one schedule and no save before the end.",
 ["src/threaded/thread.cc", "src/threaded/thread_pool.cc", "src/worker_pool/standalone.cc", "src/store/store.cc"],
 [("publishing a finished package atomically", "Store::flush_to_static_store"), ("taking a snapshot atomically", "Store::flush_static_store"), ("waiting before saving and switching", "StandaloneWorkerPool::wait_for_assigned_blocks")],
 [("static_store/static_record", "published but unsaved results", "Store"), ("assigned_blocks", "packages handed out", "StandaloneWorkerPool")],
 ["StoreInterface calls", "saved files"])

prop("C10", "Runs terminate under every schedule",
 "With at least one worker thread and no fault, every assigned package is eventually computed, waiting for the assigned packages returns, and shutting down stops and joins every worker, under every fair schedule, whatever the relative timing of handing out work, finishing work, going to sleep and shutting down. No worker sleeps forever while a package is queued for it or a shutdown has been requested.",
 ["schedules"], "all fair interleavings, including preemption between testing for work and going to sleep",
 "A lost wake-up needs a preemption of a few instructions; no stable test starts a worker.",
 ["src/threaded/thread.cc", "src/threaded/thread.hh", "src/threaded/thread_pool.cc", "src/worker_pool/standalone.cc"],
 [("sleep until work or shutdown", "Thread::main_thread"), ("wake-ups", "Thread::assign, Thread::shutdown")],
 [("blocks, shutting_down", "work queue of a worker", "Thread")], ["termination of the run under a controlled scheduler"])

prop("C11", "Work is only handed to idle workers",
 "At every moment each worker has at most one package queued or in progress, so the number of packages handed out and not yet finished never exceeds the number of workers. A worker is offered again exactly once after each finished package, no worker is ever dropped, and a reported finished package was handed out before and is reported exactly once.",
 ["schedules", "histories"], "all sequences of hand-outs, completions and queries",
 "No stable test starts the pool.",
 ["src/threaded/thread_pool.cc", "src/worker_pool/standalone.cc", "src/worker_pool/mpi.cc"],
 [("ready/idle/busy bookkeeping", "ThreadPool::assign, finished_block, flush_ready_threads, flush_finished_blocks")],
 [("idle_threads, ready_threads, busy_threads", "worker states", "ThreadPool")], ["ThreadPool public API"])

prop("C12", "A crash or failed write never corrupts the results",
 "If the program dies at any point, or any write to the result directory fails, then every package listed in a record file that is left behind has its complete contribution in the table file belonging to that record, and no other contribution is in that table. Restarting with the same configuration and merging gives the same final table and record as an undisturbed run.",
 ["crash_points", "fault_sequences"], "every point of the run at which the process can die, every failing file operation",
 "No test saves files, let alone kills a run.",
 ["src/store/file_store.cc", "src/worker_pool/standalone.cc", "src/executables/merger.cc"],
 [("record is written after the table as witness of success", "FileStore::save")],
 [("*.hycu_record, *.hycu_store", "durable results", "result directory")], ["result directory after each crash or fault"])

prop("C13", "Interrupted computations resume without loss or repetition",
 "A run over a result directory computes exactly those packages of its enumeration that are in none of the record files present at its start, and leaves existing files untouched. After any sequence of partial runs with the same configuration, possibly with different numbers of workers, followed by one complete run, merging gives the census, and a further run computes nothing.",
 ["histories", "crash_points", "configurations"], "all histories of interrupted and complete runs over one result directory",
 "No test restarts a computation.",
 ["src/store/file_store.cc", "src/store/file_store.hh", "src/worker_pool/standalone.cc", "src/worker_pool/mpi.cc"],
 [("reading all records at start", "FileStore::FileStore"), ("skipping recorded packages", "StandaloneWorkerPool::assign, MPIWorkerPool::assign"), ("fresh file names", "FileStore::new_filenames")],
 [("initial_record", "packages done earlier", "FileStore")], ["result directory before and after each run"])

prop("C14", "Merging adds up all completed results, in any order and size",
 "Merging a directory yields, for every line key, the exact sum of the counts over all table files that have a record file, for counts of any magnitude, and the union of all records; table files without record and unrelated files are ignored. Merging merged results again (in any grouping) gives the same outcome, a record without table is refused, and success is reported only if both output files were written completely.",
 ["inputs", "histories", "fault_sequences"], "all directories of result files, all count magnitudes, all groupings of merges, failing outputs",
 "The merger and the store parser are not run by any test.",
 ["src/executables/merger.cc", "src/store/store.cc", "src/store/store_data.hh", "src/store/store_data.cc", "src/store/file_store.cc"],
 [("accumulating parse", "Store::extract"), ("pairing of files", "merge in executables/merger.cc"), ("arbitrary precision counts", "Count::ValueType")],
 observe=["output files and exit status of hycu-merger"])

prop("C15", "Result file formats round-trip",
 "Writing any record (set of packages) or any table and reading the text back gives the same record or table, nothing added and nothing lost. Table lines have the documented form: ramification degrees, a semicolon, Hasse-Weil offsets, a colon, the count; each key appears on one line only and lines come in ascending key order.",
 ["inputs"], "all records and tables, including empty ones, negative offsets and counts of any magnitude",
 "Serialisation of stores and records is not exercised by any test.",
 ["src/store/file_store.cc", "src/store/store.cc", "src/store/curve_data.cc", "src/store/store_data.cc", "src/store/store_data.hh"],
 [("text writers and readers", "FileStore::insert/extract, Store::insert/extract")],
 observe=["FileStore and Store public API"])

prop("C16", "Successive moduli in one configuration do not mix",
 "When a configuration lists several moduli with different result paths, the files under each path contain exactly the results of that modulus, computed with its own field, genus, marked-point choice, count exponent and package size, as if it had been run alone. No package of one modulus is computed with another modulus' tables or saved under another modulus' path, under every schedule.",
 ["configurations", "schedules"], "all sequences of moduli and all interleavings around the switch",
 "No test runs more than one modulus in a pool.",
 ["src/worker_pool/standalone.cc", "src/worker_pool/mpi.cc", "src/threaded/thread.cc", "src/executables/threaded.cc"],
 [("wait, save, then switch", "StandaloneWorkerPool::update_config, MPIWorkerPool::update_config"), ("tables captured with the package", "Thread::assign")],
 [("fq_table, reduction_tables", "per-modulus tables", "Thread"), ("file_store", "destination", "worker pools")], ["saved files per result path"])

prop("C17", "Distributed runs give the same census as a single process",
 "For any number of processes and threads per process and every message timing, a distributed run hands each unrecorded package to exactly one process with an idle worker, collects the results of all processes exactly once, and ends with every process shut down. The merged outcome equals that of a single-process run.",
 ["schedules", "configurations"], "all process counts, thread counts and message delays",
 "The distributed program is compiled only; no test starts it.",
 ["src/worker_pool/mpi.cc", "src/worker_pool/mpi.hh", "src/worker_pool/mpi_worker.cc", "src/utils/serialization_tuple.hh", "src/executables/mpi.cc"],
 [("request/reply protocol", "MPIWorkerPool, main_mpi_worker")],
 [("assigned_blocks per process, idle queues", "master's view", "MPIWorkerPool")], ["messages between processes", "saved files"])

prop("C18", "Configurations are read faithfully with documented defaults",
 "Every configuration with the documented fields is accepted, whether its fields are given at the top level or in a list of moduli: each field takes the value written, the count exponent defaults to the genus, the marked point to none and the store type to EC. A missing mandatory field, a zero field or an unknown store type is refused with a non-zero exit status and without a result for that modulus, and converting a configuration to YAML or to a message and back preserves every field.",
 ["inputs", "configurations"], "all configuration documents",
 "No test reads a configuration.",
 ["src/config/config_node.cc", "src/config/config_node.hh", "src/executables/threaded.cc"],
 [("decoding with defaults", "convert<ConfigNode>::decode"), ("validation", "ConfigNode::verify"), ("message format", "boost::serialization::serialize for ConfigNode")],
 observe=["YAML conversion of ConfigNode", "exit status and results of hycu-threaded"])

prop("C19", "Field element tables are discrete logarithm tables",
 "For every odd prime power the element table lists each non-zero field element exactly once, as consecutive powers of one generator starting with one, followed by zero at the designated zero index. The index ranges for all and for all non-zero elements are exact, and the coset representatives for exponent n meet every class of units modulo n-th powers exactly once.",
 ["inputs"], "all odd prime powers, also those without tabulated standard polynomial; all exponents n",
 "Tests construct tables for 5 and 7 only and do not look at them.",
 ["src/fq_element_table.cc", "src/fq_element_table.hh", "src/reduction_table.cc"],
 [("search for a generator", "FqElementTable::FqElementTable"), ("representatives", "FqElementTable::power_coset_representatives")],
 [("fq_elements", "element by exponent", "FqElementTable")], ["FqElementTable public API"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
