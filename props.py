# per property configuration of the checks (see DESIGN.md)
FAULTS = ["spurious_futex_wakeup", "thread_stall", "clock_jump_forward", "short_read", "short_write", "eintr", "read_eio", "write_eio", "disk_full",
          "open_error", "close_error", "net_short_recv", "net_short_send", "net_accept_abort", "net_delay", "mkdir_error", "crash", "stat_error",
          "starvation", "spawn_eagain", "wall_clock_jump", "file_shrunk", "fsync_error", "engine_freeze", "delayed_atomic_store"]

SIM_STUB = ["thread scheduler and futex wait queues (simulated)", "clocks, sleeps, cpu affinity, getrandom (simulated)"]
LIB_REAL = ["rust_road_router (engine) library code", "rayon, crossbeam, std synchronisation (compiled, not modelled)"]

SERVER_REAL = ["server binary: Rocket, hyper, serde, request handlers, engine thread", "rust_road_router (engine) and conversion library code",
               "rayon, crossbeam, std synchronisation (compiled, not modelled)"]
SERVER_STUB = SIM_STUB + ["TCP sockets and clients (simulated network, scripted clients)", "input data files (generated, real file system)"]
SERVER_PROBES = ["geo_queries", "here_queries", "customizations", "malformed_or_invalid", "aborted_by_client", "answered_200", "answered_no_route", "updates_while_engine_stalled"]
SERVER_RULE = "Each scenario draws a road network with HERE link ids, 2-5 clients with request histories, packetisation, worker counts and scheduling policy from its seed."

PROPS = {
    "C01": {"quick": {"runs": 24000, "max_secs": 80}, "thorough": {"runs": 2000000, "max_secs": 3000}, "bins": ["server/server"],
            "real": SERVER_REAL, "stub": SERVER_STUB, "probes": SERVER_PROBES, "rule": SERVER_RULE},
    "C02": {"quick": {"runs": 20000, "max_secs": 80}, "thorough": {"runs": 2000000, "max_secs": 3000}, "bins": ["server/server"],
            "real": SERVER_REAL, "stub": SERVER_STUB, "probes": SERVER_PROBES, "rule": SERVER_RULE},
    "C03": {"quick": {"runs": 16000, "max_secs": 80}, "thorough": {"runs": 2000000, "max_secs": 3000}, "bins": ["server/server"],
            "real": SERVER_REAL, "stub": SERVER_STUB, "probes": SERVER_PROBES, "rule": SERVER_RULE},
    "C04": {
        "quick": {"runs": 20000, "max_secs": 80}, "thorough": {"runs": 400000, "max_secs": 3000},
        "real": LIB_REAL, "stub": SIM_STUB,
        "probes": ["worker_threads", "concurrent_customizations", "undirected_customizations", "directed_customizations"],
        "rule": "Each scenario draws a road-like graph, node order, 1-3 metrics, worker count, cpu count and scheduling policy from its seed.",
    },
    "C05": {
        "quick": {"runs": 20000, "max_secs": 80}, "thorough": {"runs": 400000, "max_secs": 3000},
        "real": LIB_REAL, "stub": SIM_STUB,
        "probes": ["worker_threads", "concurrent_customizations", "-", "directed_customizations"],
        "rule": "Each scenario draws a road-like graph, node order, 1-2 metrics, worker count, cpu count and scheduling policy from its seed.",
    },
    "C06": {
        "quick": {"runs": 24000, "max_secs": 70}, "thorough": {"runs": 600000, "max_secs": 3000},
        "real": LIB_REAL, "stub": SIM_STUB,
        "probes": ["worker_threads", "concurrent_customizations", "queries"],
        "rule": "Each scenario draws a road-like graph, FIFO travel time functions, node order, worker count, cpu count, clock jumps and scheduling policy from its seed.",
    },
    "C07": {
        "quick": {"runs": 24000, "max_secs": 70}, "thorough": {"runs": 600000, "max_secs": 3000},
        "real": LIB_REAL, "stub": SIM_STUB,
        "probes": ["worker_threads", "-", "queries", "-", "-", "-", "-", "multi_metric", "interval_minimum", "cch_lower_bound", "multi_metric_simple_live", "multi_metric_live",
                   "interval_minimum_simple_live", "interval_minimum_live", "strongly_connected_networks", "topo_core_server"],
        "rule": "Each scenario draws a road network, FIFO travel time functions, live traffic, node order, one kind of potential, server variant, worker count, clock jumps and scheduling policy from its seed.",
    },
    "C08": {
        "quick": {"runs": 40000, "max_secs": 60}, "thorough": {"runs": 1500000, "max_secs": 3000},
        "real": LIB_REAL, "stub": SIM_STUB,
        "probes": ["-", "-", "queries", "-", "-", "-", "-", "zero_potentials", "symmetric", "average", "average_improved_pruning", "one_thread"],
        "rule": "Each scenario draws a road network, node order, core or whole graph, potentials, a history of queries with and without caps, the order of the two search threads and faults from its seed.",
    },
    "C09": {
        "quick": {"runs": 40000, "max_secs": 60}, "thorough": {"runs": 1500000, "max_secs": 3000},
        "real": LIB_REAL, "stub": SIM_STUB,
        "probes": ["-", "first_alternative_queries", "alternatives_found", "alternative_list_queries", "alternative_graph_queries"],
        "rule": "Each scenario draws a road network, node order, a history of alternative route queries, the order of the search threads and faults from its seed.",
    },
    "C10": {
        "quick": {"runs": 60000, "max_secs": 60}, "thorough": {"runs": 3000000, "max_secs": 3000},
        "real": LIB_REAL + ["file system below the fault layer (tmpfs)"], "stub": SIM_STUB + ["errors, short transfers, full disk and crash points of file operations (injected at the system call)"],
        "probes": ["-", "object_versions", "parallel_batches", "stores_ok", "stores_failed", "loads_ok", "loads_failed", "unknown_at_end", "files_removed"],
        "rule": "Each scenario draws 1-3 kinds of objects with several versions, places, a history of stores and loads in batches with a fault mode (none, harmless, failing, crash) and a scheduling policy from its seed.",
    },
    "C11": {
        "quick": {"runs": 60000, "max_secs": 50}, "thorough": {"runs": 3000000, "max_secs": 3000},
        "real": LIB_REAL, "stub": SIM_STUB,
        "probes": ["worker_threads", "concurrent_merges", "groups_joined"],
        "rule": "Each scenario draws metrics (clustered, with noise and unusable edges), target size, worker count and scheduling policy from its seed.",
    },
    "C12": {
        "quick": {"runs": 30000, "max_secs": 70}, "thorough": {"runs": 2000000, "max_secs": 3000},
        "real": LIB_REAL, "stub": SIM_STUB,
        "probes": ["worker_threads", "client_threads", "queries", "dijkstra", "astar_cch_potential", "astar_recycled_potential", "astar_exact", "astar_landmarks", "astar_ch_potential",
                   "bidir_dijkstra", "bidir_dijkstra_alternating", "bidir_astar_symmetric", "bidir_astar_average", "bidir_landmarks_symmetric", "bidir_landmarks_average_alternating",
                   "cch", "ch", "astar_lower_bounds", "bidir_lower_bounds_symmetric", "bidir_lower_bounds_average",
                   "topocore_astar", "topocore_astar_lower_bounds", "topocore_no_bounds", "skip_deg2", "skip_deg3", "bidir_skip_symmetric", "bidir_skip_average"],
        "rule": "Each scenario draws a road network, 1-3 metrics, node order, landmarks, 1-4 client threads with a server kind and query history each, metric updates prepared during queries, worker count and scheduling policy from its seed.",
    },
    "C13": {
        "quick": {"runs": 100000, "max_secs": 60}, "thorough": {"runs": 4000000, "max_secs": 3000},
        "real": LIB_REAL, "stub": SIM_STUB,
        "probes": ["worker_threads", "client_threads", "-", "hub_labels", "hub_labels_again", "rphast", "sse_rphast", "bucket_ch", "separator_nn", "lazy_rphast_nn", "bucket_nn", "dijkstra_nn"],
        "rule": "Each scenario draws a road network, metric, node order, 1-4 client threads with an algorithm and a history of target selections and queries each, worker count and scheduling policy from its seed.",
    },
    "C14": {
        "quick": {"runs": 60000, "max_secs": 70}, "thorough": {"runs": 4000000, "max_secs": 3000},
        "real": LIB_REAL, "stub": SIM_STUB + ["clock (virtual: slow steps and jumps beyond the time limit of queries)"],
        "probes": ["queries", "queries_with_several_iterations", "exact_answers_compared", "timeouts", "paths_given_to_finders", "exact", "heuristic", "fixing",
                   "td_exact", "td_heuristic", "td_fixing", "live_exact", "live_heuristic", "live_fixing", "finders"],
        "rule": "Each scenario draws a road network, usual and current (static, time-dependent or live) travel times, stretch bounds, 1-3 client threads with a query history each, speed and jumps of the clock and scheduling policy from its seed.",
    },
    "C15": {
        "quick": {"runs": 50000, "max_secs": 70}, "thorough": {"runs": 3000000, "max_secs": 3000},
        "real": LIB_REAL, "stub": SIM_STUB,
        "probes": ["profiles", "travel_times_compared", "routes_checked", "full", "naive"],
        "rule": "Each scenario draws a time-dependent road network, node order, 1-3 client threads with a history of profile queries each, number of workers and scheduling policy from its seed.",
    },
    "C16": {
        "quick": {"runs": 25000, "max_secs": 70}, "thorough": {"runs": 2000000, "max_secs": 3000},
        "real": LIB_REAL, "stub": SIM_STUB,
        "probes": ["static_scenarios", "time_dependent_scenarios", "static_queries", "time_dependent_queries", "astar_turns", "bidir_turns_symmetric", "bidir_turns_average", "topocore_turns",
                   "bidir_skip_turns_symmetric", "bidir_skip_turns_average", "other_static_servers", "td_graph", "td_live_per_edge", "td_live",
                   "td_dijkstra", "td_astar", "td_topocore", "td_skip_deg2", "td_bounds_topocore", "td_bounds_no_topocore"],
        "rule": "Each scenario draws a road network, turn costs and forbidden turns, static or time-dependent or live travel times, node order, server kinds, updates of weights and turn costs, 1-3 client threads with a query history each, worker count and scheduling policy from its seed.",
    },
    "C17": {
        "quick": {"runs": 60000, "max_secs": 60}, "thorough": {"runs": 4000000, "max_secs": 3000},
        "real": LIB_REAL, "stub": SIM_STUB,
        "probes": ["sampling", "time_dependent_dijkstra"],
        "rule": "Each scenario draws a time-dependent road network, node order, 1-4 client threads with a server (built concurrently) and a query history each, worker count and scheduling policy from its seed.",
    },
}
