"""The checks: what is built and run for each property."""
D8 = [0, 1, 2, 3, 4, 5, 6, 7]
def std(pid, srcs, cfgs=("asan",), disks=D8, shards=8, **kw):
    name = pid.lower()
    runs = []
    for c in cfgs:
        r = dict(bin=name, cfg=c, disks=disks, shards=shards)
        r.update(kw.get("run", {}))
        runs.append(r)
    d = dict(build=[(name, c, srcs) for c in cfgs], runs=runs, rule=kw.get("rule", ""), need=kw.get("need", []), assumptions=kw.get("assumptions", []))
    return d
CHECKS = {}
CHECKS["C05"] = std("C05", ["c05_alloc.cpp"], disks=[0, 1, 9, 3, 4, 10, 8, 2],
    rule="random allocate/release sequences against an interval model; a case counts when its sequence of (blocks held, bytes free) is new",
    need=["allocations", "releases", "refused_allocations", "refused_double_frees", "grown_disks", "fragmented_allocations", "block_manager_ops", "concurrent_runs", "ext_allocs", "manager_refusals"])
CHECKS["C10"] = std("C10", ["c10_vector_a.cpp", "c10_vector_b.cpp", "c10_vector_c.cpp"],
    rule="random operation sequences on 1-3 vectors against std::vector, element by element; distinct operation traces counted",
    need=["vector_ops", "vector_elements_compared", "bufwriter_runs", "bufreader_runs", "vector_comparisons", "ext_block_writes", "ext_block_reads"])
NOT_APPLICABLE = {}
CHECKS["C01"] = std("C01", ["c01_files.cpp"], disks=[0, 0, 1, 1, 5, 5, 0, 1], run=dict(env={"VP_SPURIOUS": "30"}),
    rule="random reads, writes, size changes and discards over 1-3 files of 9 access methods against a byte array; distinct operation traces counted",
    need=["reads", "writes", "bytes_compared", "reads_across_eof", "set_sizes", "discards", "sync_ops", "os_level_checks", "threaded_reads"])
CHECKS["C02"] = std("C02", ["c02_requests.cpp"], disks=[0, 1, 5, 0, 1, 5, 0, 1], run=dict(env={"VP_SPURIOUS": "30", "VP_LOCK_DELAY": "12"}),
    rule="requests on gate-controlled and real files, with waiters, pollers and cancellers in several threads; distinct (shape, release order) traces counted",
    need=["requests", "cancelled", "cancel_refused", "wait_any_returns", "wait_all_returns", "wait_returns", "poll_rounds", "stress_cancelled", "stress_cancel_refused", "queue_shutdowns", "queue_cancelled", "wait_any_failures"])
CHECKS["C03"] = std("C03", ["c03_faults.cpp"], disks=[0, 1, 9, 0, 1, 5, 0, 1],
    rule="requests with scripted failures and partial transfers of their own system calls (found by buffer address); distinct fault patterns counted",
    need=["injected_errors", "injected_partial_transfers", "injected_eagain", "failures_reported", "requests_unharmed", "open_size_failures", "setup_negotiations", "disks_filled", "rounds_growing_the_file"])
CHECKS["C04"] = std("C04", ["c04_stats.cpp"], disks=[0, 1, 2, 3, 4, 5, 0, 1],
    rule="requests on every access method against the driver's own log, and planned system-call times as lower and the callers' clocks as upper bounds; distinct (files, request mix) traces counted",
    need=["requests_logged", "requests_cancelled", "timed_requests", "serial_timings", "parallel_timings", "wait_time_checks", "wait_any_timings", "snapshot_operations", "cached_transfers", "cached_in_previous_buffer", "resets", "container_transfers"],
    assumptions=["the wall clock is not set back during a check"])
CHECKS["C06"] = std("C06", ["c06_config.cpp"], disks=[0], run=dict(jitter=0),
    rule="generated configuration lines with known meaning, mutated malformed lines, child processes with generated configuration files and disks; distinct lines and setups counted",
    need=["lines_parsed", "malformed_lines", "searches", "disk_setups", "flash_setups", "deleted_disks", "unlinked_disks", "kept_disks", "fixed_disks", "grown_disks"])
CHECKS["C07"] = std("C07", ["c07_streams.cpp"], disks=[0, 1, 2, 5, 1, 2, 5, 4],
    rule="random histories of pool operations against a version per block and exact pool sizes; buffered block streams, prefetchers and schedules against the written content; distinct histories counted",
    need=["pool_writes", "pool_reads", "pool_burst_reads", "pool_prefetched_reads", "pool_hints", "pool_hints_refused", "pool_invalidations", "pool_blocks_verified", "stream_elements", "stream_fills", "stream_flushes", "stream_blocks_skipped", "prefetch_runs", "writer_flushes", "schedules"])
CHECKS["C08"] = std("C08", ["c08_sched.cpp"], disks=[0, 1, 2, 5, 1, 2, 5, 4],
    rule="random acquire/release/initialise/deinitialise/extract histories against a version per block, online, and recorded then replayed offline with LFD and prefetching; distinct histories counted",
    need=["sched_ops", "contents_checked", "initialised_from_external", "extracted", "lfd_replays", "prefetching_replays", "beyond_prediction", "flushes", "runs_with_swapping"])
CHECKS["C12"] = std("C12", ["c12_stacks.cpp"], disks=[0, 1, 2, 5, 3, 4, 6, 8],
    rule="random push/pop/top/swap/copy histories on 1-2 stacks of every kind against a vector; distinct operation traces counted",
    need=["stack_ops", "stack_pops", "stack_copies", "stack_boundary_oscillations", "stack_top_modified", "stack_swaps", "stack_migrated", "ext_block_writes", "ext_block_reads"])
CHECKS["C13"] = std("C13", ["c13_queues.cpp"], disks=[0, 1, 2, 5, 3, 4, 6, 8],
    rule="random histories on 1-2 queues, sequences (with forward and reverse streams) and deques (with iterators) against std::deque; distinct operation traces counted",
    need=["queue_ops", "queue_pops", "queue_rotations", "queue_swaps", "sequence_ops", "sequence_streams", "sequence_reverse_streams", "deque_ops", "deque_resizes", "deque_iterator_walks", "deque_comparisons", "ext_block_writes", "ext_block_reads"])
CHECKS["C11"] = std("C11", ["c11_filevec.cpp"], disks=[6, 0, 6, 1, 6, 5, 6, 2], run=dict(jitter=0),
    rule="sessions of vectors on one file through changing access methods, sizes and histories, the file compared at operating-system level after every session and flush; exports read back file by file; distinct (access method, operation) traces counted",
    need=["sessions", "file_vector_ops", "os_level_checks", "read_only_sessions", "foreign_files", "file_vector_swaps", "copies", "shrunk", "grown", "flushes", "exports", "padding_rejected"])
CHECKS["C14"] = std("C14", ["c14_map.cpp"], disks=[0, 1, 2, 5, 3, 4, 6, 8],
    rule="random histories on 1-2 maps with keys so large that trees of 3 to 6 levels arise, against std::map, with up to 8 iterators kept and compared after every operation; distinct operation traces counted",
    need=["map_ops", "inserts", "erases", "iterator_erases", "range_erases", "bulk_constructed", "iterations", "reverse_iterations", "held_iterator_steps", "held_iterator_checks", "swaps", "clears", "comparisons", "ext_block_writes", "ext_block_reads"])
CHECKS["C15"] = std("C15", ["c15_hashmap.cpp"], disks=[0, 1, 2, 8, 3, 4, 7, 0],
    rule="random histories on 1-2 hash maps with good, bad, constant and extreme hash functions, tiny buffers and caches, against std::map, with kept iterators and traversals mixed with operations; distinct operation traces counted",
    need=["map_ops", "inserts", "oblivious_inserts", "subscripts", "erases", "oblivious_erases", "iterator_erases", "bulk_insertions", "rehashes", "traversals", "traversals_with_operations", "held_iterator_steps", "held_iterator_checks", "swaps", "clears", "iterators_of_erased", "ext_block_writes", "ext_block_reads"])
CHECKS["C19"] = std("C19", ["c19_sort_a.cpp", "c19_sort_b.cpp", "c19_sort_c.cpp"], disks=[0, 1, 2, 5, 3, 4, 6, 8],
    rule="ranges of vectors of every alignment, key distribution, record size and memory limit, sorted by comparison, key and stably by key, against a sorted copy; files read back; distinct inputs counted",
    need=["external_sorts", "internal_sorts", "unaligned_first", "unaligned_last", "key_sorts", "stable_sorts", "comparison_sorts", "sorts_on_files", "refused_memory", "ext_block_writes", "ext_block_reads"])
CHECKS["C20"] = std("C20", ["c20_sorter_a.cpp", "c20_sorter_b.cpp"], disks=[0, 1, 2, 5, 3, 4, 6, 8],
    rule="random phase histories of sorters, run creators of every kind and mergers of every memory budget against a sorted copy; distinct histories counted",
    need=["pushed", "emitted", "rewinds", "clears", "finished", "inputs_dropped", "recursive_merges", "refused_memory", "external_runs", "small_inputs", "stream_creators", "push_creators", "sequence_creators", "creators_reused", "second_readers", "stream_sorts", "range_sorts", "runs_checked", "ext_block_writes", "ext_block_reads"])
CHECKS["C16"] = std("C16", ["c16_pq_a.cpp", "c16_pq_b.cpp"], cfgs=("asan", "seq"), disks=[0, 1, 2, 5, 3, 4, 6, 8],
    rule="random push, pop, mixed and hold phases on 1-2 priority queues of 6 configurations, with the parallel and the loser tree mergers, against a heap in memory; distinct histories counted",
    need=["pushes", "pops", "mixed", "holds", "drained", "destroyed_full", "destroyed_empty", "shared_pools", "ext_block_writes", "ext_block_reads"])
CHECKS["C23"] = std("C23", ["c23_merge_a.cpp", "c23_merge_b.cpp"], cfgs=("asan", "seq"), disks=[0],
    rule="random sets of sorted sequences through every merge front end, algorithm, splitting and thread count, splitting points of all ranks, parallel mergesort, loser trees and winner trees against reference results; distinct inputs counted",
    need=["merges", "partial_merges", "merged_elements", "partitions", "selections", "tree_elements", "sorts", "sorted_elements", "nested_merges", "nested_sorts", "splits", "winner_checks", "winner_slots_doubled", "winner_batches"])
CHECKS["C21"] = std("C21", ["c21_scan_a.cpp", "c21_scan_b.cpp"], disks=[0, 1, 2, 5, 3, 4, 6, 8],
    rule="random sequences of for_each, for_each_m, generate, find and random_shuffle over ranges of every alignment, numbers of buffers and memory limits, on filled, partly filled and fresh vectors, against a std::vector; distinct histories counted",
    need=["for_each_calls", "for_each_m_calls", "for_each_m_on_fresh_pages", "generated", "found", "not_found", "shuffled", "large_shuffles", "permutation_runs", "empty_ranges", "unaligned_begin", "unaligned_end", "file_runs", "ext_block_writes", "ext_block_reads"])
CHECKS["C25"] = std("C25", ["c25_util.cpp"], disks=[0], run=dict(jitter=0),
    rule="generated values at the boundaries of every type through every utility type against 64 and 128 bit arithmetic, independent encoders and parsers and standard containers; distinct inputs counted",
    need=["uint_operations", "buffer_items", "reader_items", "reader_underflows", "cmdlines_accepted", "cmdlines_rejected", "texts_wrapped", "sizes_parsed", "sizes_rejected", "sizes_formatted", "integer_checks", "split_checks", "aligned_allocations", "swap_vector_ops", "swap_vector_erases", "simple_vectors", "addressable_ops", "tuples", "random_numbers", "timers"],
    assumptions=["the wall clock is not set back during a check"])
CHECKS["C26"] = std("C26", ["c26_refs.cpp"], cfgs=("asan", "tsan"), disks=[0, 1, 2, 5, 0, 1, 2, 5],
    rule="random histories on pointers, constant pointers, containers of pointers and linked objects against an ownership model checked after every operation; threads handing over and copying on write; requests dropped in any thread; shared pointers kept in external containers; distinct histories counted",
    need=["pointer_ops", "objects", "unified", "list_steps", "thread_runs", "handed_over", "concurrent_copies_on_write", "request_references", "shared_ops", "unwrapped"])
CHECKS["C22"] = std("C22", ["c22_ops.cpp"], cfgs=("asan",), disks=[0, 1, 2, 3, 4, 5, 7, 9],
    rule="random operator trees of depth up to 3 over all sources and sinks; every stage is compared with its defining sequence at every step; vectors of records streamed into themselves; distinct pipelines counted",
    need=["pipelines", "empty_pipelines", "multi_block_pipelines", "stream_steps", "materialize_open", "materialize_range", "elements_materialized", "self_copies", "stream_copies"])
CHECKS["C18"] = std("C18", ["c18_matrix_a.cpp", "c18_matrix_b.cpp", "c18_matrix_c.cpp"], cfgs=("asan",), disks=[0, 1, 2, 3, 4, 5, 0, 1], run=dict(env={"OMP_NUM_THREADS": "2", "OMP_WAIT_POLICY": "passive"}),
    rule="random histories on several matrices and vectors of one block scheduler against dense matrices, iterators of several matrices against positions, products of all algorithms and schedulings with padding, zero blocks, transposed and identical operands; distinct histories counted",
    need=["matrix_ops", "matrix_sums", "matrix_differences", "matrix_products", "matrix_scaled", "matrix_transposed", "matrix_copies", "matrix_writes", "matrix_vector_products", "vector_matrix_products", "outer_products", "iterator_steps", "large_products", "products_with_swapping", "sparse_products", "shared_matrix_changes", "vector_ops", "matrix_elements_compared"],
    assumptions=["matrices have at least one row and one column", "block sides such that a block is a multiple of 4096 bytes"])
CHECKS["C17"] = std("C17", ["c17_ppq.cpp"], cfgs=("asan", "nd"), disks=[0, 1, 2, 3, 4, 5, 7, 0],
    rule="random histories of single pushes, bulk pushes of several threads, single, bulk and limit-bounded pops and limit sessions over heap counts, heap, buffer and memory sizes; every delivered element against a multiset with identities; distinct histories counted",
    need=["ops", "ops_with_external_data", "pushes", "pops", "bulks", "parallel_bulks", "bulk_pops", "limit_pops", "limit_sessions", "limit_session_pops", "limit_session_pushes", "limit_sentinels", "destroyed_nonempty", "drained", "level_runs", "data_of_three_memories_outside"])
CHECKS["C24"] = std("C24", ["c24_held_a.cpp", "c24_held_b.cpp", "c24_held_c.cpp"], cfgs=("asan", "seq"), disks=[0, 1, 2, 3, 4, 5, 7, 0],
    rule="random histories of every container, algorithm and sorting stream, abandoned anywhere; after every operation the bytes of the live blocks, counted by the allocation monitor and by the block manager, against what the content needs; distinct histories counted",
    need=["held_checks", "exact_checks", "bound_checks", "returned_checks", "empty_checks", "vector_ops", "linear_ops", "map_ops", "hashmap_ops", "pq_ops", "ppq_ops", "ppq_destroyed_with_blocks", "matrix_ops", "scheduler_runs", "algorithms", "stable_sorts", "sorter_rounds", "stream_runs", "abandoned", "pipelines", "cleared", "shrunk", "swapped", "copied", "recreated", "rehashed", "rewound", "drained"])

CHECKS["C09"] = std("C09", ["c09_threads.cpp"], cfgs=("tsan", "asan"), disks=[0, 1, 2, 3, 4, 5, 7, 0],
    rule="random crews of threads on shared files, on files of their own, on blocks, on containers of their own and on everything at once, each judged by its own model; conservation of the statistics and of the allocations; race detector without ordering added by the harness; distinct crews counted",
    need=["crews", "threads", "blocks_verified", "cancelled", "wait_alls", "wait_anys", "snapshots", "conservation_checks", "own_files", "blocks_allocated", "blocks_released", "allocation_queries", "containers_used", "stat_rounds", "everything_at_once", "first_uses"],
    assumptions=["random_number and friends use a global state and are documented as not thread-safe", "one container is used by one thread at a time (doc/faq.dox)"])
CHECKS["C27"] = std("C27", ["c27_memory_a.cpp", "c27_memory_b.cpp", "c27_memory_c.cpp", "c27_meter.cpp"], disks=[7, 1, 5, 2, 7, 1, 5, 2], run=dict(jitter=0, env={"OMP_NUM_THREADS": "3", "OMP_WAIT_POLICY": "passive"}),
    rule="random budgets and amounts of data far beyond them through every algorithm and container, the heap metered at every allocation; peak and remainder of each phase against the budget, and against the same history with less data; distinct (budget, amount) cases counted",
    need=["measurements", "measurements_above_half_of_the_budget", "allocations_metered", "vector_sorts", "sorters", "sort_streams", "scans", "shuffles", "vectors", "linear_containers", "maps", "hash_maps", "priority_queues", "parallel_queues", "matrices", "ext_block_writes", "ext_block_reads"],
    assumptions=["what aligning a block costs in memory (at most 4160 bytes) is not part of the budget", "stable_ksort, documented as not fully implemented, does not count its two arrays of keys"])
