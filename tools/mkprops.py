#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json. Run after editing; both files are committed."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "deterministic simulation with fault injection: seeded search over schedules and faults"
P, NA = [], []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None, level=None, tech=None):
    P.append({
        "row": {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
                "anchors": {"files": files, "state": state or [], "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe or [], "hook_needed": hook}},
        "note": level, "tech": tech or TECH})


SRV = "server/src/main.rs"
prop("C01", "Server answers are exact and reflect customizations in order",
     "Every answer of the HTTP server to a route query is a shortest route (distance and a connected path realising it, or an empty answer exactly when no route "
     "exists) under the original travel times plus some prefix of the accepted customizations, taken in an order consistent with real time, and never an older prefix "
     "than one an earlier finished query has already reflected. Once customizations have had time to finish, all of them are in effect, each carried over into the later ones.",
     ["schedules", "histories", "inputs", "configurations"],
     "every graph, node order, link id assignment, history of concurrent /query, /here_query and /customize requests, thread schedule, worker count and packetisation",
     "There are no tests of the server; correctness depends on how background customization threads, the engine thread and the request handlers interleave.",
     [SRV, "conversion/src/here/link_id_mapper.rs", "engine/src/datastr/rank_select_map.rs", "engine/src/algo/customizable_contraction_hierarchy/query.rs"],
     [("engine thread applies updates in arrival order", SRV), ("background customization installed under the server lock only if newer", SRV),
      ("link id mapping", "conversion/src/here/link_id_mapper.rs")],
     ["HTTP responses of /query and /here_query"])
prop("C02", "No client can stop the server from serving others",
     "Whatever clients send (unknown link ids, malformed or truncated requests, rejected updates) and however they behave (slow, disconnecting, resetting), every other "
     "well-formed request is answered with HTTP 200 within a bounded time. A HERE query with an unknown link id is itself answered with HTTP 500, "
     "and rejected or incomplete requests have no effect on later answers.",
     ["schedules", "fault_sequences", "histories", "inputs"],
     "every mix of well-formed and hostile clients, disconnect points, packetisations, aborted accepts and thread schedules",
     "There are no tests of the server; a failure needs a bad request or a disconnect followed by other clients' requests.",
     [SRV], [("invalid queries hang up their response channel only", SRV), ("SerializedWeight validation", SRV), ("channel sender shared by handlers", SRV)],
     ["HTTP status of every response"])
prop("C03", "Queries wait for preprocessing, updates return at once",
     "The server accepts requests as soon as it listens: route queries issued while preprocessing or other background work is still running wait and are then answered "
     "correctly, none is lost or refused. POST /customize returns immediately, also while preprocessing is running, other queries are waiting or the routing engine is busy.",
     ["schedules", "fault_sequences", "histories"],
     "every arrival time of requests relative to start up, every stall of the routing engine and every schedule",
     "There are no tests of the server; needs requests to arrive while the engine is stalled or still preprocessing.",
     [SRV], [("asynchronous preprocessing thread", SRV), ("request channel", SRV)], ["simulated response times and contents"])
CCHF = "engine/src/algo/customizable_contraction_hierarchy/customization.rs"
PARF = "engine/src/algo/customizable_contraction_hierarchy/customization/parallelization.rs"
prop("C04", "Parallel CCH customization is schedule independent and exact",
     "For every graph, node order, weights (including unreachable and near-infinite ones), number of worker threads and thread schedule, customizing a customizable contraction "
     "hierarchy - undirected or directed, also several customizations at once - terminates without error and yields exactly the shortest path distances "
     "and connected unpacked paths of the given weights; the resulting metric is identical to that of a single threaded customization.",
     ["schedules", "inputs", "configurations"],
     "every interleaving of the worker threads' memory accesses at synchronisation and atomic operations and at sampled plain accesses, every worker and cpu count",
     "The CCH tests run one customization on one tiny graph with the ambient schedule; data races and wrong cell separation depend on graph, worker count and interleaving.",
     [CCHF, PARF, "engine/src/algo/customizable_contraction_hierarchy/customization/directed.rs", "engine/src/algo/customizable_contraction_hierarchy/separator_decomposition.rs"],
     [("separator based task splitting", PARF), ("thread local workspaces", CCHF)], ["customized weights", "query results"])
prop("C05", "Perfect customization prunes only what is unnecessary",
     "Perfect customization, for every graph, metric, worker count and thread schedule, terminates without error and gives every remaining arc exactly the shortest path distance between "
     "its end points; queries on the reduced hierarchy return the same exact distances and valid paths as before, and the result is identical to that of a single threaded run.",
     ["schedules", "inputs", "configurations"],
     "every interleaving of the worker threads, worker and cpu count, graph and metric",
     "Not covered by any test; the parallel pruning writes shared arrays through per-thread ranges and relies on separator cells being independent.",
     [CCHF, PARF, "engine/src/algo/customizable_contraction_hierarchy/customization/directed.rs"],
     [("per-thread ranges of the output arrays", CCHF), ("reverse order cell traversal", PARF)], ["perfect metric arcs", "query results"])

exec(open(os.path.join(V, "tools", "mkprops_more.py")).read()) if os.path.exists(os.path.join(V, "tools", "mkprops_more.py")) else None

NA_IDS = {x["property"] for x in NA}
with open(f"{V}/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps(p["row"]) + "\n")
import sys
sys.path.insert(0, V)
from props import PROPS  # noqa
checks = []
for p in P:
    i = p["row"]["id"]
    if i in NA_IDS:
        continue
    assert i in PROPS, i
    checks.append({"property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough", "technique": p["tech"], "level": "exploration",
                   "level_note": p["note"] or "Seeded random search over schedules, faults and generated scenarios; real code runs, nothing is exhaustive. See DESIGN.md."})
man = {"version": 1, "setup_cmd": "sim/build.sh server/server", "hooks": {"guard": "none: all seams are existing libc and compiler interfaces (link-time interposition and -Zsanitizer instrumentation callbacks)",
       "enable": "sim/build.sh builds /repo's crates with sim/cc-vsim.sh as linker and the flags in sim/env.sh; /repo contains no hooks", "source_commits": []},
       "checks": checks, "not_applicable": NA}
json.dump(man, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(P), "properties,", len(checks), "checks")
