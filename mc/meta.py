"""Single source of properties.jsonl, MANIFEST.json and mc/spaces.json.
Run `python -m mc.meta` after editing; the three files are committed."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"

M, P, F = "pyNTM/master_model.py", "pyNTM/performance_model.py", "pyNTM/flex_model.py"
I, N, D, R, S, C, W = ("pyNTM/interface.py", "pyNTM/node.py", "pyNTM/demand.py", "pyNTM/rsvp.py",
                       "pyNTM/srlg.py", "pyNTM/circuit.py", "pyNTM/weathermap.py")

PATH = ("Demand.path", "the paths a demand takes after a simulation", D)
TRAF = ("Interface.traffic / utilization", "load of an interface after a simulation", I)
RES = ("Interface.reserved_bandwidth / reservable_bandwidth", "bandwidth LSPs hold on an interface", I)
LSPP = ("RSVP_LSP.path / reserved_bandwidth / setup_bandwidth", "where an LSP was signalled and what it holds", R)
FAIL = ("failed flags of Node, Interface, SRLG", "which elements are down", N)

PROPS = []


def prop(pid, title, statement, over, text, why, mech, state, observe, space, hook=None):
    files = sorted({m[1].split(":")[0] for m in mech} | {s[2] for s in state})
    PROPS.append({
        "rec": {
            "id": pid, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {"files": files,
                        "mechanism": [{"name": a, "where": b} for a, b in mech],
                        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                        "observe_at": observe, "hook_needed": hook},
        },
        "space": space,
    })


prop("C01", "IGP demands follow exactly all least-cost live paths",
     "After update_simulation, the path of every demand that rides no LSP is exactly the set of all least-total-cost paths from "
     "its source to its destination over interfaces that are not failed (each parallel circuit of a FlexModel counting as its own "
     "path), and the demand reports Unrouted exactly when no such path exists. Interface costs are directional, and a path's "
     "interfaces are consecutive hops from source to destination. RSVP settings (rsvp_enabled, reserved bandwidth) and capacity "
     "never influence it.",
     ["inputs", "configurations", "fault_sequences"],
     "all topologies with positive integer costs, any demands (source != destination), any set of failed interfaces/nodes, both model classes",
     "Tests check a few fixed graphs; wrong ties, directional costs, parallel-link expansion or a failed end node only show on "
     "particular graph shapes and failure sets.",
     [("_route_demands", P + ":_route_demands"), ("_route_demands", F + ":_route_demands"),
      ("parallel path expansion", F + ":_get_all_paths_mdg/_normalize_multidigraph_paths")],
     [PATH, FAIL], ["Demand.path", "Demand._path_detail"],
     "all labelled graphs of 3 nodes with asymmetric costs {1,2,3}, of 4 nodes with costs {1,2}, of 5 nodes with one cost (thorough: {1,2}), all 3-node "
     "multigraphs, bundles, odd names/costs/capacities, rsvp off patterns, rings/fans/ladders/grids/chains up to 140 nodes and 512 equal paths, equal cost routes over 1 to 64 hops; each under no "
     "failure, every failed link (pair of links), every failed node; histories fail-simulate-restore")

prop("C02", "Interface load is the hop-by-hop even split of routed demands",
     "After update_simulation, each live interface's traffic equals the sum over all routed demands of the share obtained by "
     "splitting each demand evenly hop by hop over its paths (LSP traffic counted on every interface the LSP crosses), and its "
     "utilization is that traffic as a percentage of capacity. At every node, traffic leaving minus traffic entering equals the "
     "routed traffic sourced there minus the routed traffic destined there. Nothing is lost, duplicated or rounded away.",
     ["inputs", "configurations", "fault_sequences"],
     "all topologies, traffic amounts (zero, fractional, large), failures, LSP placements, both model classes",
     "Tests assert loads of a few interfaces in a few graphs; double counting, a skipped interface or a wrong divisor shows only "
     "for path sets of a particular shape.",
     [("_update_interface_utilization", P + ":_update_interface_utilization"),
      ("_update_interface_utilization", F + ":_update_interface_utilization"),
      ("_demand_traffic_per_int", P + ":_demand_traffic_per_int"), ("_demand_traffic_per_item", F + ":_demand_traffic_per_item")],
     [TRAF, PATH], ["Interface.traffic", "Interface.utilization"],
     "the C01 space with the traffic alphabet {12,1,0,7.5,0.1,1e6,3,0.001} plus LSP cases with failures, parallel circuits and LSP groups")

prop("C03", "path_detail accounts for every path and all traffic of a demand",
     "After update_simulation, a routed demand's path_detail has exactly one entry for each path in its path attribute, each entry "
     "states the traffic that path carries under the hop-by-hop even split (a path over an LSP may state it to four decimals) and, "
     "where it lists splits, the number of ways the demand has been divided at each item, and the entries add up to the demand's traffic. An unrouted demand has no path_detail "
     "entries left over from earlier simulations.",
     ["inputs", "configurations", "histories"],
     "all topologies, traffic amounts, failures, LSP placements, sequences of simulations, both model classes",
     "The sample tests pin two path sets; entries are keyed and divided by code whose errors depend on how paths share prefixes and on earlier simulations.",
     [("_demand_traffic_per_int", P + ":_demand_traffic_per_int"), ("_lsp_routed_demand_path_detail", P + ":_lsp_routed_demand_path_detail"),
      ("_demand_traffic_per_item", F + ":_demand_traffic_per_item"), ("_update_int_traffic_for_end_to_end_lsps", F + ":_update_int_traffic_for_end_to_end_lsps")],
     [("Demand.path_detail", "per-path traffic and splits", D), PATH], ["Demand.path_detail"],
     "the C02 space")

prop("C04", "RSVP reservations add up and stay within what is reservable",
     "After update_simulation, the bandwidth reserved on each interface equals the sum of the reservations of the LSPs whose path "
     "crosses it, never exceeds capacity times percent_reservable_bandwidth, and reservable_bandwidth is the remainder (both shown "
     "rounded to 0.1). A routed LSP's path is a loop-free chain of live, rsvp_enabled interfaces from its source to its destination, "
     "its path_cost is their total cost and it reserves exactly the bandwidth it signalled (its configured bandwidth if it has "
     "one); an unrouted LSP reserves nothing.",
     ["inputs", "configurations", "schedules", "fault_sequences"],
     "all topologies with scarce bandwidth, LSP sets, set iteration orders, tie breaks, failures, both model classes",
     "Over-subscription or a leaked reservation depends on the order LSPs signal in, on parallel group sizes and on which tie break is drawn; tests see one order.",
     [("_determine_lsp_state_info", P + ":_determine_lsp_state_info"), ("_determine_lsp_state_info", F + ":_determine_lsp_state_info"),
      ("_optimize_parallel_lsp_group_res_bw", M + ":_optimize_parallel_lsp_group_res_bw"), ("_add_lsp_path_data", M + ":_add_lsp_path_data")],
     [RES, LSPP], ["Interface.reserved_bandwidth", "Interface.reservable_bandwidth", "RSVP_LSP.path", "RSVP_LSP.reserved_bandwidth"],
     "every capacity assignment {4,12}^3 on triangles x every multiset of up to 3 LSPs from 7 templates x demand sets; squares; parallel "
     "circuits; groups of 3 (4); failures; rsvp_enabled/percent patterns; all LSP set orders; all answers of random.choice")

prop("C05", "LSPs signal on a cheapest path with room, in some signalling order",
     "After update_simulation, the LSP placement is one reachable by signalling parallel LSP groups one after another and the LSPs "
     "of a group one after another: each LSP asks for its configured bandwidth or an even share of its group's demand and takes, "
     "among live rsvp_enabled interfaces with that much reservable bandwidth left, a least-cost path with fewest hops; it is "
     "unrouted only if none exists. If only part of a group is routed, its unconfigured LSPs are then re-signalled for the larger "
     "even share where that fits, and keep their old reservation where it does not. A routed LSP's baseline_path_reservable_bw is "
     "what was reservable along its path when it signalled, its own earlier reservation counted as free (to 0.1).",
     ["inputs", "schedules", "configurations", "fault_sequences"],
     "all topologies, LSP sets, orders of signalling, random tie breaks, failures, both model classes",
     "The outcome is nondeterministic (set order, random.choice); tests pass with whichever outcome happens and cannot show that all outcomes are legitimate.",
     [("_route_parallel_lsp_groups", M + ":_route_parallel_lsp_groups"), ("_optimize_parallel_lsp_group_res_bw", M + ":_optimize_parallel_lsp_group_res_bw"),
      ("_determine_lsp_state_info", P + ":_determine_lsp_state_info"), ("_determine_lsp_state_info", F + ":_determine_lsp_state_info")],
     [LSPP, RES], ["RSVP_LSP.path", "RSVP_LSP.setup_bandwidth", "RSVP_LSP.reserved_bandwidth"],
     "the C04 space; the admissible set is computed by enumerating every group order, member order and tie break in the reference model")

prop("C06", "Demands ride the routed end-to-end LSPs of lowest effective metric evenly",
     "After update_simulation, a demand with at least one routed LSP between exactly its source and destination rides precisely the "
     "routed such LSPs of lowest effective metric (manual metric, else the current least IGP cost between the LSP's ends), in equal "
     "shares. traffic_on_lsp, demands_on_lsp, effective_metric and topology_metric report exactly what this implies for every LSP.",
     ["inputs", "configurations", "schedules"],
     "all topologies, LSP sets with and without manual metrics, demands, failures, both model classes",
     "Which LSPs are used depends on metrics relative to topology, on which LSPs of a group got routed, and on several demands sharing LSPs.",
     [("_route_demands", P + ":_route_demands"), ("_route_demands", F + ":_route_demands"), ("traffic_on_lsp", R + ":traffic_on_lsp"),
      ("demands_on_lsp", R + ":demands_on_lsp"), ("effective_metric", R + ":effective_metric")],
     [PATH, LSPP], ["Demand.path", "RSVP_LSP.traffic_on_lsp()", "RSVP_LSP.demands_on_lsp()", "RSVP_LSP.effective_metric()"],
     "the C04 space with manual metrics {none,1,5,7}")

prop("C07", "IGP shortcuts replace path stretches by the best LSPs, per path",
     "In a FlexModel, when a demand without its own end-to-end LSP crosses a node with igp_shortcuts_enabled, each of its least-cost "
     "IGP paths uses, from that node, the routed LSPs of lowest effective metric to the furthest node further along that path, "
     "continuing from where the LSP ends; among the resulting alternatives only those of least total metric are used and traffic "
     "splits evenly hop by hop over them. Without shortcut-enabled nodes, or without LSPs starting there, routing is plain IGP.",
     ["inputs", "configurations"],
     "all FlexModel topologies, sets of shortcut-enabled nodes, LSP sets and metrics, failures",
     "Repo tests pin a handful of fixed shortcut topologies; per-path insertion, overlapping LSPs and shared prefixes only interact on particular combinations.",
     [("find_igp_shortcuts", F + ":find_igp_shortcuts"), ("_insert_lsp_shortcuts", F + ":_insert_lsp_shortcuts"),
      ("_inspect_for_lsp_metrics", F + ":_inspect_for_lsp_metrics"), ("_insert_lsps_into_path", F + ":_insert_lsps_into_path"),
      ("_demand_traffic_per_item", F + ":_demand_traffic_per_item")],
     [PATH, ("Node.igp_shortcuts_enabled", "does traffic at this node take LSPs", N)], ["Demand.path", "Demand.path_detail", "Interface.traffic"],
     "chains of 4, squares, fans, ladders and parallel circuits: every set of shortcut nodes x every LSP set of up to 2 (3) from all node pairs x metrics x failures")

prop("C08", "Failing and restoring elements keeps every up/down flag coherent",
     "Under any sequence of fail/unfail operations on interfaces, nodes and SRLGs, both ends of a circuit are always down together "
     "(when one end alone is marked failed, from the next validation on), "
     "an interface is down whenever either of its nodes or an SRLG it belongs to is down, and restoring an element brings back "
     "exactly what nothing else that is still failed holds down. Restoring a member of a still-failed SRLG is rejected, and failing "
     "everything and restoring it returns the model to its initial state.",
     ["histories", "fault_sequences"],
     "all operation sequences (bounded depth) over interfaces, nodes, SRLGs with overlapping membership, with and without simulations between",
     "A wrong flag appears only after particular interleavings of overlapping failures; unit tests run straight-line scripts of two or three operations.",
     [("fail/unfail_interface", M + ":fail_interface/unfail_interface"), ("fail/unfail_node", M + ":fail_node/unfail_node"),
      ("fail/unfail_srlg", M + ":fail_srlg/unfail_srlg"), ("Interface.failed setter", I + ":failed"), ("Node.failed setter", N + ":failed")],
     [FAIL, ("SRLG membership", "shared risk groups of nodes and interfaces", S)], ["Node.failed", "Interface.failed", "SRLG.failed", "Circuit.failed()", "get_failed_*"],
     "breadth-first exploration of all sequences of fail/unfail/SRLG/simulate operations from several initial configurations, states merged on (reference state, observed state)")

prop("C09", "SRLG membership is symmetric, complete and by-name unique",
     "Under any sequence of adding elements to and removing them from SRLGs (creating, failing and restoring SRLGs in between), "
     "an SRLG lists exactly the nodes and interfaces that list it, an interface is a member exactly when the other end of its "
     "circuit is, SRLG names are unique, and unknown or repeated names and removal of non-members are rejected.",
     ["histories"],
     "all operation sequences (bounded depth) over add_srlg, add_to_srlg, remove_from_srlg, fail_srlg, unfail_srlg, simulate",
     "Asymmetry arises from the order of joins, leaves and failures; tests cover single joins.",
     [("add_to_srlg/remove_from_srlg", N + ":add_to_srlg/remove_from_srlg"), ("add_to_srlg/remove_from_srlg", I + ":add_to_srlg/remove_from_srlg"),
      ("add_srlg/get_srlg_object", M + ":add_srlg/get_srlg_object")],
     [("SRLG.node_objects / interface_objects", "members", S), ("Node.srlgs / Interface.srlgs", "groups an element is in", N)],
     ["SRLG.node_objects", "SRLG.interface_objects", "Node.srlgs", "Interface.srlgs", "get_srlg_object()"],
     "breadth-first exploration of all membership operation sequences on small networks")

prop("C10", "A simulation depends only on the model as it is now",
     "After any history of failures, restorations, attribute changes, additions, removals and earlier simulations, "
     "update_simulation produces a result that a freshly built model in the same state could produce. Running it again without "
     "changes gives an equally valid result, and nothing (reservations, paths, traffic, cached groups) is carried over.",
     ["histories"],
     "all edit sequences (bounded depth) x simulate-after-every-edit or only at the end, both model classes",
     "Stale state shows only after a specific edit following a specific simulation; tests mostly simulate once per model.",
     [("update_simulation", P + ":update_simulation"), ("update_simulation", F + ":update_simulation"), ("cached groups", M + ":parallel_lsp_groups")],
     [TRAF, RES, PATH, LSPP], ["Interface.traffic", "Interface.reserved_bandwidth", "Demand.path", "RSVP_LSP.path"],
     "every sequence of 1, 2 (and 3) edits from an alphabet of about 30 over four base networks, eager and lazy; rotation histories on rings and grids")

prop("C11", "Malformed networks are rejected, well-formed ones accepted",
     "validate_model raises ModelException for a network in which an interface lacks its return interface, the ends of a circuit "
     "differ in capacity, interface names repeat on a node, node names repeat, a PerformanceModel has parallel links or IGP "
     "shortcuts, a FlexModel circuit_id does not name exactly the two ends of a circuit, or an interface's reservation exceeds its capacity or is not "
     "what its LSPs reserve; update_simulation never succeeds on a network with one of the structural defects. A well-formed network is accepted before and after simulation, in any order of validation, simulation, edits and failures, also by a model whose network was malformed and rejected before.",
     ["inputs", "configurations", "histories"],
     "every single malformation at every position (and pairs) of several base networks; well-formed networks of the other spaces",
     "Validation runs over sets after simulations changed reservations; only specific combinations make it reject good models or accept bad ones.",
     [("validate_model", P + ":validate_model"), ("validate_model", F + ":validate_model"), ("_make_circuits", P + ":_make_circuits"),
      ("_make_circuits_multidigraph", F + ":_make_circuits_multidigraph"), ("_reserved_bw_error_checks", M + ":_reserved_bw_error_checks")],
     [RES, ("model sets", "nodes, interfaces, demands, LSPs of a model", M)], ["validate_model()", "update_simulation()"],
     "each defect kind at each interface of 11 base networks, alone or paired, raised at construction, after simulation, after growth or after failures; well-formed: name, id, capacity and bandwidth families and edit histories")

prop("C12", "A model file loads to exactly the network it describes",
     "load_model_file returns a model with exactly the nodes, interfaces, demands and LSPs the file describes, every listed "
     "attribute having its value from the file and every absent or blank optional column its documented default. The order of rows, "
     "line endings, a byte order mark, trailing blank lines and an absent RSVP_LSP_TABLE make no difference. Files with rows lacking "
     "required interface columns, demands or LSPs naming unknown nodes, or (FlexModel) circuit_ids not appearing twice are "
     "rejected, as are cells no attribute takes: cost, capacity, percent reservable or traffic not a number, cost below 1, capacity not above 0, "
     "negative traffic, igp_shortcuts_enabled neither blank nor True or False.",
     ["inputs", "configurations"],
     "all well-formed model files over a value alphabet for every column and every combination of optional columns; single defects",
     "The sample files exercise a few column combinations; blank or missing optional columns and unusual layouts are not enumerated.",
     [("load_model_file", P + ":load_model_file"), ("load_model_file", F + ":load_model_file"),
      ("row parsers", M + ":_add_lsp_from_data/_add_demand_from_data/_add_node_from_data"), ("find_end_index", "pyNTM/utilities.py:find_end_index")],
     [("model sets", "nodes, interfaces, demands, LSPs of a model", M)], ["load_model_file()", "attributes of the loaded objects"],
     "every combination of per-row column forms for interfaces, nodes, demands and LSPs; layouts (line ends, BOM, blank lines, table absent); row permutations; duplicate rows; "
     "names with surrounding blanks, files of 40 (60) nodes; malformed rows and cells at each position")

prop("C13", "Cross-reference queries agree with each other and with the network",
     "After update_simulation, all query methods describe one consistent network: interface.demands lists exactly the demands whose "
     "path (directly or within an LSP) crosses it, interface.lsps exactly the LSPs crossing it, node and circuit and orphan queries "
     "match the topology, source/destination, failed, unrouted and parallel-group queries partition demands and LSPs correctly, and "
     "simulation_diagnostics repeats the same counts. Lookup by name returns exactly the named object, and a ModelException for unknown names.",
     ["inputs", "configurations", "fault_sequences"],
     "all topologies, demands, LSPs and failures, both model classes",
     "Each query re-derives its answer from object sets; disagreements arise for names that look alike, unrouted or failed elements, and parallel circuits.",
     [("Interface.demands/lsps", I + ":demands/lsps"), ("queries", M + ":get_*"), ("simulation_diagnostics", M + ":simulation_diagnostics"),
      ("Node.interfaces/adjacent_nodes", N + ":interfaces/adjacent_nodes"), ("Circuit", C + ":get_circuit_interfaces")],
     [PATH, LSPP], ["Interface.demands()", "Interface.lsps()", "get_*", "simulation_diagnostics()", "parallel_lsp_groups()", "parallel_demand_groups()"],
     "the LSP and IGP spaces with failures, shortcut cases, odd look-alike names and orphan nodes; every query with every argument")

prop("C14", "Path queries return exactly the qualifying paths",
     "get_shortest_path returns exactly the least-cost paths over live interfaces that have the needed reservable bandwidth (all "
     "interfaces when none is needed) with their cost; get_all_paths_reservable_bw returns exactly the loop-free paths within the hop cutoff all of whose "
     "interfaces are live with that much reservable bandwidth; get_shortest_path_for_routed_lsp does the same for a routed LSP counting its own reservation as free. "
     "No other path is returned and the queries change nothing; RSVP_LSP.find_rsvp_path_w_bw puts a routed LSP on one of the latter paths with the requested bandwidth, "
     "or leaves it as it is when there is none.",
     ["inputs", "configurations", "fault_sequences"],
     "all topologies, node pairs, needed bandwidths around reservation levels, cutoffs, failures, LSP placements, both model classes",
     "Results depend on reservations, parallel circuits of different cost, boundary bandwidth and failed elements together.",
     [("get_shortest_path", P + ":get_shortest_path"), ("get_shortest_path", F + ":get_shortest_path"),
      ("get_all_paths_reservable_bw", P + ":get_all_paths_reservable_bw"), ("get_all_paths_reservable_bw", F + ":get_all_paths_reservable_bw"),
      ("get_shortest_path_for_routed_lsp", P + ":get_shortest_path_for_routed_lsp"), ("get_shortest_path_for_routed_lsp", F + ":get_shortest_path_for_routed_lsp"),
      ("RSVP_LSP.find_rsvp_path_w_bw", R)],
     [RES, LSPP], ["get_shortest_path()", "get_all_paths_reservable_bw()", "get_shortest_path_for_routed_lsp()", "find_rsvp_path_w_bw()"],
     "3- and 4-node graphs and multigraphs, LSP placements, all node pairs, needed bandwidth in {0, 1 and every boundary value}, cutoffs 1..5, failures")

prop("C15", "Edits add exactly what was asked, or reject and change nothing",
     "add_node, add_demand, add_rsvp_lsp, add_circuit and add_network_interfaces_from_list add exactly the described elements with "
     "the given attributes, attached to the model's existing nodes (creating missing ones only for list input), honouring failed "
     "state, and leave everything else unchanged. A duplicate, or an element referring to an unknown node, is rejected with "
     "ModelException; a rejected add_node, add_demand or add_rsvp_lsp, an add_circuit rejected because an interface name (or, in a "
     "FlexModel, circuit_id) is taken, and a change_interface_name of an unknown interface leave the model as it was.",
     ["histories", "inputs", "configurations"],
     "all sequences (bounded depth) of edits with fresh, duplicate and unknown arguments, interleaved with failures and simulations, both classes",
     "Duplicate detection and attachment depend on what earlier edits left in the model; tests run single edits on fresh models.",
     [("add_*", M + ":add_node/add_demand/add_rsvp_lsp/change_interface_name"), ("add_circuit", P + ":add_circuit"), ("add_circuit", F + ":add_circuit"),
      ("add_network_interfaces_from_list", P + ":add_network_interfaces_from_list"), ("_make_network_interfaces", M + ":_make_network_interfaces")],
     [("model sets", "nodes, interfaces, demands, LSPs, circuits of a model", M)], ["node_objects", "interface_objects", "demand_objects", "rsvp_lsp_objects", "circuit_objects"],
     "breadth-first exploration of all edit sequences up to depth 3 (4) over an alphabet of valid and invalid edits, comparing a full snapshot of the model with the reference after each")

prop("C16", "Models in one process are independent",
     "Any sequence of operations on one model leaves every other model (of either class, built before or after, from objects, "
     "from defaults or from the same file) exactly as it was, and each behaves as if it were alone.",
     ["histories", "schedules"],
     "all interleavings (bounded length) of operation sequences on two models",
     "Shared default arguments, class-level caches or module globals leak only in particular interleavings of two models; tests use one at a time.",
     [("_MasterModel.__init__", M + ":__init__"), ("load_model_file", P + ":load_model_file"), ("load_model_file", F + ":load_model_file")],
     [("model sets", "nodes, interfaces, demands, LSPs of a model", M)], ["complete observable state of each model"],
     "every interleaving (quick: up to 3 context switches) of two scripts of 5 operations on two models, over pairs of construction ways, "
     "scripts and classes; each model is compared after every step of either with its own solo run")

prop("C17", "PerformanceModel and FlexModel agree where both apply",
     "On any network without parallel circuits and without IGP shortcuts, the two model classes (and their aliases Model and "
     "Parallel_Link_Model) give the same simulation results, query answers and failure behaviour, up to the admissible LSP tie "
     "breaks.",
     ["inputs", "configurations", "histories", "fault_sequences"],
     "all networks both classes accept, with demands, LSPs, failures and edits",
     "The two classes duplicate most algorithms; a divergence needs a differential check over many networks, tests never compare them.",
     [("PerformanceModel", P), ("FlexModel", F)],
     [PATH, TRAF, RES, LSPP], ["all observables of both classes"],
     "the LSP and IGP spaces run through all four class names under the same schedule: with equal sets of admissible outcomes and equal deterministic observables and query answers")

prop("C18", "Attribute guards hold and manual metrics have their documented life cycle",
     "A value outside an attribute's domain is refused with an exception, whether constructed or assigned, and the attribute keeps "
     "its value: interface cost below 1 or not an integer, capacity not above 0, non-boolean failed of an interface, node or SRLG, "
     "non-numeric lat/lon, igp_shortcuts_enabled not boolean or 'True'/'False', a demand constructed with negative or non-numeric "
     "traffic, an LSP metric that is not a positive integer (-1 clears it), a negative setup bandwidth. A value inside the domain is "
     "stored and read back. A manual metric is the LSP's effective metric until cleared, in any order with simulations, failures and edits.",
     ["inputs", "histories"],
     "all sequences (bounded depth) of valid and invalid assignments to each settable attribute, interleaved with simulations and failures",
     "Guards are conjunctions over types and ranges; a dropped conjunct passes the one example a test gives.",
     [("Interface setters", I), ("Node setters", N), ("Demand.traffic", D + ":traffic"), ("RSVP_LSP.manual_metric", R + ":manual_metric"), ("SRLG.failed", S)],
     [("attributes", "settable attributes of the model's objects", I)], ["attribute values", "exceptions", "RSVP_LSP.effective_metric()"],
     "every attribute x value alphabet of types and ranges x 5 model states, each bad value after each good one; all sequences up to length 4 (5) "
     "over 19 metric, simulate, failure, bandwidth and cost operations, states merged")

prop("C19", "The weathermap shows the network as it was simulated",
     "The elements WeatherMap builds for a simulated model are exactly its nodes that have interfaces and its circuits: every interface appears once as an edge to its "
     "circuit's midpoint, which circuits between the same two nodes and no others share, with its utilization, capacity, cost and circuit_id and the colour of its utilization range; failed elements show as "
     "failed; the source, destination, demand and LSP selectors list exactly what the model holds for the selection made; selecting a demand, an LSP or an interface "
     "highlights exactly the interfaces the demand or LSP uses and names exactly the demands and LSPs on the interface; ticking utilization ranges emphasises exactly the edges of "
     "those ranges.",
     ["inputs", "configurations", "fault_sequences"],
     "all simulated models of the other spaces, including parallel circuits, failures, unrouted demands, look-alike names, and every selection a user can make",
     "Display code is exercised by no test; mistakes show only for specific utilizations, failures, names or selections.",
     [("create_elements", W + ":create_elements"), ("make_json_edge", W + ":make_json_edge"), ("find_demand_interfaces_and_lsps", W)],
     [("elements", "nodes and edges handed to the display, and the outputs of every dash callback", W)], ["WeatherMap methods' and callbacks' return values"],
     "networks of the other spaces (3-4 nodes exhaustive, parallel circuits, every utilization band and boundary, failures, odd names); every demand, LSP, interface, source and "
     "destination selected through the registered dash callbacks")

prop("C20", "In every failure scenario of a realistic network all guarantees hold at once",
     "For the sample networks shipped with the library and larger regular networks, in every scenario of one or two failed circuits, a failed node, or a failed SRLG, "
     "failed elements carry and reserve nothing, no demand or LSP crosses one, traffic still adds up, and all routing, "
     "reservation and accounting guarantees hold; after restoring everything the original deterministic results return.",
     ["fault_sequences", "configurations"],
     "every failure scenario up to two elements of every shipped sample network and of generated larger networks",
     "The product's purpose is failure what-if analysis; tests simulate a handful of scenarios out of the thousands possible.",
     [("update_simulation", P + ":update_simulation"), ("update_simulation", F + ":update_simulation"), ("fail_*", M + ":fail_interface/fail_node/fail_srlg")],
     [TRAF, RES, PATH, LSPP, FAIL], ["all observables after update_simulation"],
     "no failure, every single failure and every pair of failures (circuits, nodes, SRLGs) in every simulatable model file shipped under test/ and examples/ (28 files, copied to "
     "mc/samples) and in generated rings, grids, ladders and bundles with scarce bandwidth; then restored in both orders; thorough: every pair in both orders and triples")


prop("C21", "Printed reports and representations state the network as it is",
     "After any simulation, failure or edit, display_interface_status, display_node_status, display_interfaces_traffic, display_interface_objects and "
     "display_demand_paths print exactly one entry per element of the model, with its current failed state, traffic, attributes or complete list of paths "
     "(none for an unrouted demand); the repr of a model counts its elements, the repr of an element names it with its current attributes; printing changes nothing.",
     ["inputs", "histories"],
     "all small networks, failures and edit histories in the bound, every report compared entry by entry with the reference",
     "Operators read these reports instead of the objects; tests only check that one of them prints something on one model.",
     [("display_*", M + ":display_interface_status/display_node_status/display_interfaces_traffic/display_interface_objects/display_demand_paths"),
      ("__repr__", F + ":__repr__"), ("__repr__", P + ":__repr__")],
     [TRAF, FAIL], ["text printed by display_*", "repr() of models and elements"],
     "as C13 (every query family except the many-path networks) plus every edit history of one and two operations (after each of which the model is simulated); "
     "thorough: all pairs of operations and the thorough C13 families")


prop("C22", "Between simulations an edit shows at once where it must, and nowhere else",
     "After an edit and before the next update_simulation every attribute has its edited value and what is derived from it follows at once: utilization is the "
     "traffic of the last simulation over the present capacity, reservable_bandwidth the present capacity times the present percentage less what is reserved (-1 with "
     "RSVP off), effective_metric the manual metric or the present least IGP cost, topology_metric the present cost of the LSP's interfaces, an interface that fails or "
     "is restored holds no reservation; everything else, in particular traffic, demand paths, LSP paths and other reservations, stays as the last simulation left it.",
     ["histories", "configurations"],
     "all bounded histories of edits, failures and simulations on live models of both classes, compared attribute by attribute after each step",
     "Tests simulate right after each edit, so figures that are cached, or results that an edit disturbs, are never looked at in between.",
     [("utilization / reservable_bandwidth / capacity / cost", I), ("effective_metric / topology_metric / manual_metric", R),
      ("fail_*/unfail_*", M + ":fail_interface/unfail_interface/fail_node/unfail_node"), ("add_*/change_interface_name", M)],
     [TRAF, RES, PATH, LSPP, FAIL], ["all attributes of interfaces, nodes, demands, LSPs and circuits between simulations"],
     "the four bases and some 30 operations of C10 plus update_simulation: every history of one and two operations, of three on the chain and on the parallel circuits; "
     "the same up to three with an SRLG of a node and a circuit that fails and is restored; thorough: of three on all bases")


prop("C23", "Whatever is chosen on the weathermap, in any order, the display fits it",
     "Every choice the weathermap offers can be made without an error; it selects exactly what was chosen, or nothing for an empty entry, and leaves the other selections "
     "alone. After every sequence of choices (entries of every list, sources and destinations, edges on the map, clear buttons) each list offers exactly the demands, LSPs or "
     "interfaces that belong to what is selected now, never to what was selected before, with an entry that clears the choice, and the map highlights exactly what is selected now.",
     ["histories", "configurations"],
     "all sequences of user choices in the bound over the registered dash callbacks, dispatched as a browser does",
     "The callbacks feed each other; mistakes need a particular sequence of choices, and no test runs a callback.",
     [("callbacks of create_weathermap", W + ":create_weathermap"), ("display_selected_edge", W), ("lsp_interfaces / demand_interfaces", W)],
     [("component properties", "what the lists offer, what is selected and how the map is styled", W)],
     ["options of every list", "selected demand, LSP and interface", "style sheet of the map"],
     "three networks per class (a chain, a triangle with parallel LSPs on different paths, and one of look-alike names with parallel circuits for FlexModel), with and without a failed circuit, routed and unrouted demands and "
     "LSPs: every sequence of four choices, merged on equal pages; thorough: five")


TECH = {
    "default": "explicit-state model checking of the real code: exhaustive bounded enumeration of cases and of every random answer "
               "(controlled scheduler), each execution compared with a reference model",
}
TECH.update({
    "C08": "explicit-state model checking: breadth-first search over all operation sequences, real code in lock step with a reference state machine, states merged",
    "C09": "explicit-state model checking: breadth-first search over all operation sequences, real code in lock step with a reference state machine, states merged",
    "C10": "stateless model checking of the real code over all bounded edit histories and random answers, each compared with the reference model",
    "C15": "explicit-state model checking: breadth-first search over all edit sequences, real code in lock step with a reference state machine",
    "C23": "explicit-state model checking: breadth-first search over all sequences of user choices, the real callbacks under a browser-like dispatcher, pages merged",
    "C16": "stateless model checking: all interleavings of two models' operation scripts on the real code, compared with solo runs",
})
LEVEL_NOTE = ("Every case of the stated finite space is executed on the real code (nothing sampled) and all nondeterminism "
              "(random answers, set orders, hash seeds) is enumerated or fixed by the harness; the reference is an independent exact-arithmetic "
              "model whose predictions are compared on every execution. Nothing is claimed beyond the bounds in DESIGN.md.")


def main():
    have = [p for p in PROPS if os.path.exists(os.path.join(VERIF, "mc", "props", p["rec"]["id"].lower() + ".py"))]
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in have:
            f.write(json.dumps(p["rec"]) + "\n")
    man = {
        "version": 1,
        "setup_cmd": PY + " -m mc.setup",
        "checks": [{
            "property": p["rec"]["id"],
            "quick_cmd": "%s -m mc.run %s --tier quick" % (PY, p["rec"]["id"]),
            "thorough_cmd": "%s -m mc.run %s --tier thorough" % (PY, p["rec"]["id"]),
            "technique": TECH.get(p["rec"]["id"], TECH["default"]),
            "level": "model_checking",
            "level_note": LEVEL_NOTE,
        } for p in have],
        "not_applicable": [],
        "notes": "cwd of every command is /verif. No hooks in /repo are needed. PYNTM_REPO selects another tree for experiments; "
                 "unset, the checks import /repo's working tree. See DESIGN.md.",
    }
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    with open(os.path.join(VERIF, "mc", "spaces.json"), "w") as f:
        json.dump({p["rec"]["id"]: {"space": p["space"]} for p in have}, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
