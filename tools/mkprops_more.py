FTD = "engine/src/algo/customizable_contraction_hierarchy/customization/ftd.rs"
CUP = "engine/src/algo/catchup.rs"
prop("C06", "CATCHUp: parallel time-dependent customization and exact queries",
     "For every network with FIFO travel time functions, node order, number of worker threads and schedule of them, CATCHUp customization terminates without error - also while the clock "
     "jumps and other customizations run at the same time - and stores exactly the shortcuts a single worker computes. Every earliest arrival query on it, at any departure time and in any "
     "sequence of queries, returns the earliest arrival time (up to rounding) and a connected route whose annotated times follow the travel time functions, or no route exactly when there is none.",
     ["schedules", "inputs", "configurations", "histories"],
     "every graph, set of travel time functions, node order, worker and cpu count, interleaving of the workers and the progress reporting thread, clock jump and query history",
     "The only test customizes one graph of three nodes; mistakes depend on the worker interleaving, on ties and rounding, and on the state left behind by earlier queries.",
     [FTD, CUP, PARF, "engine/src/datastr/graph/floating_time_dependent/shortcut.rs", "engine/src/datastr/graph/floating_time_dependent/shortcut_graph.rs"],
     [("separator based parallel customization, parallel inner loop for the topmost separator", FTD), ("progress reporting thread", FTD),
      ("elimination tree corridor and lazy A* query", CUP)],
     ["stored CustomizedGraph", "query results"])

TDA = "engine/src/algo/td_astar.rs"
TDQ = "engine/src/algo/ch_potentials/td_query.rs"
prop("C07", "Parallel preprocessing of time-dependent potentials and exact A* queries with live traffic",
     "For every network with FIFO travel time functions and optional live traffic (a slower travel time that fades into the prediction), every number of worker threads and schedule of them, "
     "building a potential - lower bounds of a CCH, MultiMetric with or without merging of metrics, IntervalMinPotential, each also customized for live traffic - terminates without error and "
     "stores exactly what a single worker computes. A* with it, with and without topological core (components, skipping of nodes of low degree), in any sequence of queries returns the earliest "
     "arrival time under the predicted and live travel times and a route that takes exactly that time, or no route exactly when there is none; potentials saved and loaded again behave the same.",
     ["schedules", "inputs", "configurations", "histories"],
     "every graph, set of travel time functions, live traffic, node order, potential kind, worker count, interleaving and query history",
     "There are no tests of the potentials; mistakes depend on which time windows earlier queries touched, on components and degrees of the network, and on worker interleavings.",
     [TDA, TDQ, "engine/src/algo/customizable_contraction_hierarchy/customization/ftd_for_pot.rs", "engine/src/algo/topocore.rs", "engine/src/algo/dijkstra/gen_topo_dijkstra.rs",
      "engine/src/datastr/graph/time_dependent/graph.rs"],
     [("parallel metric customization, pruning and merging", TDA), ("separator based parallel customization of time windows", "engine/src/algo/customizable_contraction_hierarchy/customization/ftd_for_pot.rs"),
      ("A* with cached time-dependent estimates", TDQ)],
     ["query results", "stored potentials"])

CQ = "engine/src/algo/ch_potentials/query.rs"
GTD = "engine/src/algo/dijkstra/gen_topo_dijkstra.rs"
prop("C08", "Bidirectional core searches on two threads return shortest paths",
     "For every road network, node order and lower bounds (none, symmetric, average), for every interleaving of the forward and backward search thread and every history of earlier queries, "
     "the bidirectional search on the topological core or the whole graph (with skipping of nodes of low degree) terminates with the exact shortest distance and a connected node and edge path "
     "of that length, or no route exactly when there is none. With a distance cap or potential cap the answer is exact if it fits the caps and otherwise never shorter than the shortest distance.",
     ["schedules", "inputs", "configurations", "histories"],
     "every graph, order, potential, cap, query sequence and interleaving of the two search threads at the level of single shared loads and stores, including stores that become visible late (store buffers)",
     "No test runs these searches; the two threads read labels and progress the other one is writing, so a lost meeting node or an early stop needs one particular interleaving.",
     [CQ, GTD, "engine/src/algo/a_star.rs", "engine/src/datastr/timestamped_vector.rs", "engine/src/algo/topocore.rs"],
     [("two search threads sharing labels, progress and tentative distance", CQ), ("label setting with chains of low degree nodes", GTD), ("shared labels with version reset", "engine/src/datastr/timestamped_vector.rs")],
     ["query results"])

PEN = "engine/src/algo/ch_potentials/penalty.rs"
prop("C09", "Alternative routes: every query starts from the true metric",
     "For every road network with positive weights, every history of alternative route queries on one server and every interleaving of its search threads, each query terminates without error, "
     "reports the exact shortest distance between the core attachments of source and target (or finds none exactly when there is none), and returns only real routes between them: "
     "the first alternative of PenaltyIterative is at most 25 % longer than the shortest path and shares at most 80 % of its length with it; of a list of alternatives "
     "each has more than 20 % of its length apart from the earlier ones. Penalties of earlier queries never influence later ones.",
     ["schedules", "inputs", "histories"],
     "every graph, order, sequence of queries and interleaving of the two search threads",
     "Nothing tests the penalty method; a penalty that is not taken back, or a route lost by the parallel search, only shows in later queries through the same part of the network.",
     [PEN, CQ, "engine/src/report.rs"],
     [("penalize, search again, reset", PEN), ("two search threads", CQ)],
     ["returned alternatives", "reported base distance"])

IOF = "engine/src/io.rs"
prop("C10", "Stored data is loaded back unchanged or not at all, whatever the disk does",
     "Every data structure that can be stored (plain vectors, bit vectors, node orders, graphs, CCHs, customizations, CH potentials, time-dependent graphs, potential data and potentials): when storing "
     "reports success, every later load succeeds on a working disk and gives exactly the stored object, whatever was stored at the place before and whatever failed there or elsewhere in between. "
     "Short reads and writes and interrupted calls are never noticed. When the disk fails (read and write errors, full disk, errors opening, files missing or shrunk, crash of the process between or "
     "within writes) storing or loading reports an error: it never succeeds with other data and never panics; afterwards the object can be stored again at the same place.",
     ["inputs", "crash points", "histories", "schedules"],
     "every object of every storable type, every sequence of stores and loads at several places, sequential or from several threads, and every disk fault at every call",
     "Unit tests never store anything; error paths are only taken when the disk fails, and most of the types are stored as dozens of files each with its own error path.",
     [IOF, "engine/src/datastr/graph/first_out_graph.rs", "engine/src/algo/customizable_contraction_hierarchy/mod.rs", "engine/src/algo/customizable_contraction_hierarchy/customization/ftd_for_pot.rs",
      "engine/src/algo/td_astar.rs", "engine/src/algo/traffic_aware/td_traffic_pots.rs", "engine/src/datastr/graph/floating_time_dependent/shortcut_graph.rs", "engine/src/datastr/rank_select_map.rs"],
     [("write_to / load_from / deconstruct_to", IOF), ("save_each and reconstruct_with of each type", "engine/src/algo/td_astar.rs"), ("fallback for older data", "engine/src/algo/customizable_contraction_hierarchy/customization/ftd_for_pot.rs")],
     ["result of store and load", "content of the loaded object"])

MM = "engine/src/algo/metric_merging.rs"
prop("C11", "Parallel merging of similar metrics",
     "For every set of metrics, including unusable edges, every target size, number of worker threads and schedule of them, metric_merging::merge terminates without error and returns a partition "
     "of the metrics into the target number of groups (at least one), and it is always the one of the sequential greedy rule: repeatedly join the two groups whose minimum metrics have the smallest sum of squared "
     "differences, ties by the lowest metric numbers.",
     ["schedules", "inputs", "configurations"],
     "every set of metrics, target size, worker count and interleaving of the comparisons, which abandon each other through a shared bound",
     "Nothing tests merging; comparisons are abandoned early depending on which other one has finished, so a result can depend on the interleaving.",
     [MM],
     [("comparisons with a shared bound and a shared queue", MM)],
     ["returned groups"])

DQ = "engine/src/algo/dijkstra/query/dijkstra.rs"
BIQ = "engine/src/algo/dijkstra/query/bidirectional_dijkstra.rs"
CCHQ = "engine/src/algo/customizable_contraction_hierarchy/query.rs"
CHQ = "engine/src/algo/contraction_hierarchy/query.rs"
prop("C12", "Every query server answers exactly, over any history of queries, clients and metric updates",
     "For every road network (parallel edges, edges of length zero and unusable edges included), node order and metric, every point-to-point server - Dijkstra, A* and bidirectional A* with any consistent "
     "lower bounds (CCH and CH potentials of the same or a smaller metric, landmarks, exact distances, none), either choice of search direction, A* and bidirectional A* on the topological core or skipping low-degree nodes, CH, CCH with basic, perfect or directed customization - "
     "answers every query with the exact shortest distance of the metric in force and a connected path of that length, or nothing exactly when there is no route: whatever was asked before, "
     "whether results are dropped or their paths read repeatedly, after every update of the metric (none and half-applied ones never show), and while other client threads query the same "
     "preprocessed data and the next metric is being customized. One-to-all queries and Dijkstra ranks are exact as well.",
     ["inputs", "histories", "schedules", "configurations"],
     "every graph, order, sequence of metrics, server kind, query history, number of clients and workers and interleaving",
     "The tests ask a handful of queries on fixed graphs; mistakes need a particular earlier query, tie, bound or metric change.",
     [DQ, BIQ, CCHQ, CHQ, "engine/src/algo/a_star.rs", "engine/src/algo/alt.rs", "engine/src/algo/contraction_hierarchy/mod.rs", "engine/src/algo/ch_potentials.rs", "engine/src/algo/ch_potentials/query.rs", "engine/src/algo/dijkstra/gen_topo_dijkstra.rs"],
     [("search state reset between queries", DQ), ("stopping and pruning with potentials", "engine/src/algo/a_star.rs"), ("elimination tree query and unpacking", CCHQ), ("update of the metric", CCHQ)],
     ["query results"])

prop("C13", "One-to-many and nearest neighbour queries are exact over any history of selections",
     "For every road network, metric and node order, hub labels, RPHAST (one and several sources at once), bucket CH and k-nearest-neighbour queries (separator based, lazy RPHAST, buckets, Dijkstra) "
     "give the exact distances, infinite exactly for unreachable targets: nearest neighbour queries return the k nearest reachable targets (all if there are fewer), each once, with their distances. "
     "This holds for every set of targets and sources in any order, for every later query and selection on the same object and while other client threads use the same preprocessed data.",
     ["inputs", "histories", "schedules"],
     "every graph, metric, order, history of target selections and queries, number of clients and interleaving",
     "Nothing tests most of these; what an earlier selection or query leaves behind (buckets, labels, restricted graphs) only shows in later ones.",
     ["engine/src/algo/rphast.rs", "engine/src/algo/hl.rs", "engine/src/algo/ch_potentials.rs", "engine/src/algo/customizable_contraction_hierarchy/query/nearest_neighbor.rs",
      "engine/src/algo/dijkstra/query/nearest_neighbor.rs"],
     [("selection of the restricted graph and its reuse", "engine/src/algo/rphast.rs"), ("buckets and their reset", "engine/src/algo/ch_potentials.rs"),
      ("separator tree search", "engine/src/algo/customizable_contraction_hierarchy/query/nearest_neighbor.rs")],
     ["query results"])

prop("C14", "Traffic-aware routes respect the stretch bound, and queries end within their time limit",
     "For every road network, usual and current (static, time-dependent, live) positive travel times and stretch bound epsilon, the traffic-aware servers accept only routes without a subpath that is longer than (1 + epsilon) times "
     "the usual distance between its ends (and without cycles); the exact servers return the fastest such route at the given departure, the heuristic ones start with the fastest route and never try a blocked route again, "
     "path fixing ends with a route of the network that respects the bound, and the finders of violating subpaths report one exactly if there is one. A query fails only if the target cannot be reached, if its time limit has passed "
     "or (heuristics) if everything is blocked; it starts no iteration after the limit. All of this holds for every earlier query on the same server, also one that ran into the limit, for every behaviour of the clock and with concurrent clients.",
     ["inputs", "histories", "schedules"],
     "every graph, metrics, epsilon, query history, number of clients, interleaving and speed of the clock (with jumps beyond the limit)",
     "Tests only link two labels by hand; blocked paths of earlier or interrupted queries, parents that change after an arc was relaxed and the clock only matter in sequences.",
     ["engine/src/algo/traffic_aware.rs", "engine/src/algo/traffic_aware/time_dependent.rs", "engine/src/algo/traffic_aware/td_live.rs", "engine/src/algo/minimal_nonshortest_subpaths.rs"],
     [("blocked paths and their reset", "engine/src/algo/traffic_aware.rs"), ("subpaths that are too long", "engine/src/algo/minimal_nonshortest_subpaths.rs"),
      ("time limit", "engine/src/algo/traffic_aware.rs")],
     ["query results", "reported values"])

prop("C15", "CATCHUp profiles give the exact travel time and a fastest route for every departure",
     "For every time-dependent road network and node order, every source and target and every departure time of the day, the profile answered by CATCHUp (`profiles`, `profiles_naive`) evaluates to the travel time of the fastest route, "
     "its points are in order and cover the whole day, and it is empty exactly if the target cannot be reached; the routes that come with it (`profiles`) cover the day in order, each is a path of the network from source to target and is a fastest "
     "one for every departure of its validity interval, also for those that arrive after midnight. This holds for every history of queries on the same server, every number of worker threads, every schedule and with concurrent clients on the same customization.",
     ["inputs", "histories", "schedules"],
     "every time-dependent graph, order, query history, number of workers and clients and interleaving",
     "No test runs a profile query; reconstruction caches and masks that leak between queries, validity intervals past midnight and the two concurrent sweeps only matter for particular functions, histories and schedules.",
     ["engine/src/algo/catchup/profiles.rs", "engine/src/algo/catchup/profiles_naive.rs", "engine/src/datastr/graph/floating_time_dependent/shortcut_source.rs",
      "engine/src/datastr/graph/floating_time_dependent/shortcut_graph.rs", "engine/src/datastr/graph/floating_time_dependent/piecewise_linear_function.rs"],
     [("profile sweep, reconstruction and clean up", "engine/src/algo/catchup/profiles.rs"), ("link and merge", "engine/src/datastr/graph/floating_time_dependent/piecewise_linear_function.rs"),
      ("validity of routes", "engine/src/datastr/graph/floating_time_dependent/shortcut_source.rs")],
     ["query results"])

prop("C16", "Routes on turn-expanded networks respect turn costs and forbidden turns",
     "For every road network with turn costs and forbidden turns, the line graph of static, time-dependent and live travel times (`line_graph`) has exactly the allowed turns as its arcs, each with the travel time of its first road at the time it is "
     "entered plus the costs of the turn; every server on it - Dijkstra, A* with potentials taken from the network without turn costs (`TurnExpandedPotential`), bidirectional, topological core with and without skipping of low-degree nodes, (C)CH "
     "including directed hierarchies, and the time-dependent Dijkstra and A* servers - answers each query from road to road with the fastest route that obeys the turns, as a valid path with that travel time, or nothing exactly if there is none. This holds for every history of "
     "queries and updates of weights and turn costs, every number of worker threads and schedule and with concurrent clients on the same data.",
     ["inputs", "histories", "schedules"],
     "every network, turn costs, forbidden turns, travel times, order, update and query history, number of workers and clients and interleaving",
     "No test expands turns; mistakes need a forbidden or expensive turn on a shortest path, live values together with turn costs, or potentials that leak between queries.",
     ["engine/src/datastr/graph.rs", "engine/src/datastr/graph/time_dependent/graph.rs", "engine/src/algo/a_star.rs", "engine/src/algo/ch_potentials/query.rs", "engine/src/algo/ch_potentials/td_query.rs",
      "engine/src/algo/dijkstra/query/dijkstra.rs", "engine/src/algo/dijkstra/query/td_dijkstra.rs"],
     [("line graphs", "engine/src/datastr/graph.rs"), ("line graphs with time-dependent and live travel times", "engine/src/datastr/graph/time_dependent/graph.rs"), ("potentials of the network without turns", "engine/src/algo/a_star.rs")],
     ["query results"])

prop("C17", "Time-dependent sampling finds good valid routes, the time-dependent Dijkstra the best ones",
     "For every time-dependent road network and node order, the sampling server (TD-S) answers a query with a route exactly if the target can be reached: a path of the network whose travel time at the departure time is the answered one, not faster than "
     "the fastest route, not slower than the shortest path with regard to the average travel times of any of its time windows (also the one past midnight), and the fastest route where travel times are constant. The time-dependent Dijkstra server on floating point functions "
     "returns the earliest arrival with a path and the times along it, and the Dijkstra ranks in order of arrival. This holds for every query history, every number of worker threads and schedule, also while several servers are built and queried concurrently on the same hierarchy.",
     ["inputs", "histories", "schedules"],
     "every time-dependent graph, order, query history, number of workers and clients and interleaving",
     "No test builds the sampling server or queries the floating point Dijkstra; windows past midnight, parallel roads, constant functions and marks of earlier queries only matter for particular inputs and histories.",
     ["engine/src/algo/time_dependent_sampling.rs", "engine/src/algo/dijkstra/query/floating_td_dijkstra.rs", "engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs",
      "engine/src/datastr/graph/floating_time_dependent/piecewise_linear_function.rs", "engine/src/algo/dijkstra/generic_dijkstra.rs"],
     [("subgraph of window paths and its search", "engine/src/algo/time_dependent_sampling.rs"), ("averages over windows", "engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs"),
      ("search, path and ranks", "engine/src/algo/dijkstra/query/floating_td_dijkstra.rs")],
     ["query results"])

