import json
P=[]
def p(id,title,st,over,text,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,
      state=[dict(name=a,meaning=b,where=c) for a,b,c in state],hook_needed=None)))
F="pyNTM/flex_model.py";PM="pyNTM/performance_model.py";M="pyNTM/master_model.py";I="pyNTM/interface.py";R="pyNTM/rsvp.py";N="pyNTM/node.py";D="pyNTM/demand.py";S="pyNTM/srlg.py";C="pyNTM/circuit.py";U="pyNTM/utilities.py";W="pyNTM/weathermap.py"
topo="every topology (multi-edge in FlexModel, asymmetric costs, disconnected parts, any node and interface names), demand set, LSP set and failure state"
p("C01","IGP demands take exactly the set of shortest paths",
 "After a simulation update in either model type, a demand that has no usable end-to-end LSP (and meets no IGP-shortcut LSP on its way) is routed over exactly the set of least-cost paths from its source to its destination made of interfaces that are up: every such interface-level path (each parallel equal-cost link separately) appears once, and no other path appears. Whether an interface is RSVP enabled, or how much of it is reserved, plays no role. The demand is reported as Unrouted exactly when no path of up interfaces exists.",
 ["inputs","configurations","histories"],"over "+topo+", and after any history of edits ending in an update",
 "Tests check a handful of fixed topologies with hand-computed paths; the space of graphs with cost ties, parallel links, asymmetric costs, and non-RSVP or failed links is unbounded.",
 [F,PM,M],[("_route_demands",F),("_route_demands",PM),("_make_weighted_network_graph_mdg, _get_all_paths_mdg, _normalize_multidigraph_paths",F),("_make_weighted_network_graph, _convert_graph_path_to_model_path",PM)],
 ["Demand.path","get_unrouted_demand_objects()"])
p("C02","Interface traffic is the sum of the ECMP shares of all demands",
 "After a simulation update, each routed demand splits its traffic equally at every node over that node's egress interfaces on the demand's least-cost paths (or equally over the end-to-end LSPs carrying it, each LSP loading every interface it transits). The traffic of an up interface is the sum over all demands of their shares on it, to within the documented rounding (0.1 per demand). The utilization of an up interface is 100*traffic/capacity to two decimals.",
 ["inputs","configurations","histories"],"over "+topo+", with several demands per interface and per node pair",
 "Tests assert the traffic of a few interfaces in fixed models; equal-split arithmetic over nested ECMP, parallel links and mixed LSP/IGP demands is a law over all graphs and traffic matrices.",
 [F,PM,M,I],[("_update_interface_utilization, _demand_traffic_per_item, _find_unique_next_hops",F),("_update_interface_utilization, _demand_traffic_per_int",PM),("utilization",I)],
 ["Interface.traffic","Interface.utilization"])
p("C03","Demands ride the best end-to-end LSPs in preference to the IGP",
 "After a simulation update, a demand for which at least one routed LSP with the same source and destination exists is carried, whole, by exactly those of these LSPs whose effective metric is the lowest, each taking an equal share, whatever the IGP paths look like. Unrouted LSPs, LSPs of other node pairs and LSPs with a higher effective metric carry none of it. A demand none of whose same-endpoint LSPs is routed falls back to the IGP.",
 ["inputs","configurations","histories"],"over all sets of parallel LSPs (auto-bandwidth, fixed bandwidth, manual metrics, unroutable ones) and demands, in both model types",
 "Tests pin a few LSP groups; which LSPs of a group are routed and cheapest depends on bandwidth, failures and metrics in combination.",
 [F,PM,M,R],[("_route_demands",F),("_route_demands",PM),("_update_int_traffic_for_end_to_end_lsps",F),("parallel_lsp_groups",M),("effective_metric",R)],
 ["Demand.path","Demand.path_detail","RSVP_LSP.traffic_on_lsp()"])
p("C04","Failed elements carry nothing and are reported as down",
 "After a simulation update, no demand path, LSP path, traffic share or bandwidth reservation uses a failed interface or an interface attached to a failed node. Every failed interface reports traffic 'Down', utilization 'Int is down' and no reserved bandwidth, and every interface that is not failed reports numbers. Both interfaces of a circuit always agree on being failed.",
 ["inputs","histories","fault_sequences"],"over all sequences of interface, node and SRLG failures and repairs, and failed circuits added to the model",
 "Tests fail one or two elements of fixed models; the guarantee quantifies over all failure combinations and orders.",
 [F,PM,M,I],[("update_simulation, _update_interface_utilization",F),("update_simulation, _update_interface_utilization",PM),("fail_interface, fail_node, fail_srlg",M),("failed",I)],
 ["Interface.traffic","Interface.utilization","Interface.reserved_bandwidth","Demand.path","RSVP_LSP.path","Circuit.failed()"])
p("C05","Reserved bandwidth is accounted exactly and never oversubscribes",
 "After a simulation update, an interface's reserved bandwidth equals the sum of the reserved bandwidths (in 0.1 units) of the routed LSPs whose path includes it, an LSP reserves the same amount on every interface of its path, and an unrouted LSP reserves nothing. The reservable bandwidth of an RSVP-enabled interface is capacity * percent_reservable / 100 minus its reserved bandwidth, and is -1 for one that is not RSVP enabled. Reserved bandwidth never exceeds capacity * percent_reservable / 100 (beyond the 0.1 rounding of each reservation).",
 ["inputs","configurations","histories"],"over all LSP sets contending for bandwidth, including groups that re-signal, fixed-bandwidth LSPs, percent-reservable limits and partially RSVP-enabled circuits",
 "Tests check a few reservations; accounting must survive every order in which LSPs signal, partially fail and re-signal.",
 [F,PM,M,I,R],[("_determine_lsp_state_info, _make_weighted_network_graph_routed_lsp",F),("_determine_lsp_state_info, _make_weighted_network_graph_routed_lsp",PM),("_optimize_parallel_lsp_group_res_bw, _reserved_bw_error_checks",M),("reservable_bandwidth, reserved_bandwidth",I)],
 ["Interface.reserved_bandwidth","Interface.reservable_bandwidth","RSVP_LSP.reserved_bandwidth"])
p("C06","A routed LSP has a well-formed, truthful path",
 "After a simulation update, the path of a routed LSP is a loop-free chain of interfaces of the model from the LSP's source to its destination, each of them up and RSVP enabled. Its path cost and topology metric equal the sum of the costs of those interfaces. Its baseline reservable bandwidth is the least bandwidth that was available on those interfaces when it signaled (not counting its own reservation), so it is at least what the LSP reserved.",
 ["inputs","configurations","histories"],"over all topologies and LSP sets, including LSPs that re-signal over parallel links",
 "Tests compare a few concrete paths; well-formedness has to hold for every path the constrained search can return.",
 [F,PM,M,R],[("_determine_lsp_state_info, get_shortest_path_for_routed_lsp",F),("_determine_lsp_state_info, get_shortest_path_for_routed_lsp",PM),("_add_lsp_path_data",M),("find_rsvp_path_w_bw, _find_path_cost_and_headroom_routed_lsp, topology_metric",R)],
 ["RSVP_LSP.path","RSVP_LSP.topology_metric()"])
p("C07","LSPs take least-cost paths with enough bandwidth, and fail only without one",
 "The outcome of routing the LSPs is one that some signaling order of the LSP groups and of the LSPs inside each group explains: each LSP in turn takes a least-cost path among those whose every interface is up, RSVP enabled and has at least the setup bandwidth left, with fewest hops among cost ties. An LSP is Unrouted only if no such path existed at its turn. In particular, without contention for bandwidth every LSP is on its least-cost RSVP-capable path, and every LSP with any such path is routed.",
 ["inputs","configurations","schedules"],"over all topologies, LSP sets and the order in which groups and LSPs signal",
 "The result depends on set iteration order and random choice among ties; a test observes one order on one topology.",
 [F,PM,M],[("_determine_lsp_state_info",F),("_determine_lsp_state_info",PM),("_route_parallel_lsp_groups",M)],
 ["RSVP_LSP.path","RSVP_LSP.reserved_bandwidth"])
p("C08","Setup and reserved bandwidth follow the auto/fixed-bandwidth rules",
 "After a simulation update, an LSP with a configured setup bandwidth signals for and (if routed) reserves exactly that; an auto-bandwidth LSP first signals for the total traffic of the demands with its endpoints divided by the number of LSPs in its group (0 without demands). If only some LSPs of a group route, each routed auto-bandwidth LSP ends with either that initial bandwidth or the group traffic divided by the number of routed LSPs, and it has the latter whenever a path with that much bandwidth (counting its own current reservation as available) existed when it re-signaled. An unrouted LSP reports 'Unrouted' as its path and reserved bandwidth.",
 ["inputs","configurations","schedules"],"over all groups mixing auto and fixed bandwidth LSPs under bandwidth shortage",
 "Tests cover three or four shortage scenarios; re-signaling depends on which LSPs route, in which order and what they already hold.",
 [F,PM,M,R],[("_determine_lsp_state_info",F),("_determine_lsp_state_info",PM),("_route_parallel_lsp_groups, _optimize_parallel_lsp_group_res_bw",M),("setup_bandwidth, find_rsvp_path_w_bw",R)],
 ["RSVP_LSP.setup_bandwidth","RSVP_LSP.reserved_bandwidth"])
p("C09","An update depends only on the current configuration, not on history",
 "After any sequence of edits, failures, repairs and updates ending in an update, the simulation results equal those of a freshly built model with the same final configuration and failure state (wherever the result does not depend on a random or order-dependent choice). Running the update again without a change leaves all results unchanged. No results of an earlier simulation (paths, path details, reservations, traffic) survive for elements that are no longer routed.",
 ["histories","inputs"],"over all edit/fail/repair/update histories",
 "Tests run one or two updates per model; state left over from an earlier update shows only after particular multi-step histories.",
 [F,PM,M],[("update_simulation",F),("update_simulation",PM),("parallel_lsp_groups",M)],
 ["all public results of nodes, interfaces, circuits, demands and LSPs"])
p("C10","Failing and unfailing interfaces and nodes follows a state machine",
 "Failing an interface fails both ends of its circuit and nothing else; failing a node fails the node and every circuit attached to it and nothing else. Unfailing an interface brings its circuit up exactly if both nodes are up (and no failed SRLG holds it), leaving it failed otherwise (model exceptions are raised if a failed SRLG holds it, or if asked for when a node is down); unfailing a node brings up the node and exactly those attached circuits whose other node is up and which are in no failed SRLG. Repeating an operation changes nothing further, the lists of failed and non-failed elements always partition the model accordingly, and unfailing something that is up disturbs nothing.",
 ["histories","fault_sequences"],"over all sequences of failures and repairs of interfaces and nodes, in any order, with and without updates in between",
 "Tests try short fixed sequences; interleavings of node, neighbour and interface failures are unbounded.",
 [M,I,N,C],[("fail_interface, unfail_interface, fail_node, unfail_node, get_failed_*",M),("failed, fail_interface, unfail_interface",I),("failed",N),("failed",C)],
 ["Interface.failed","Node.failed","Circuit.failed()","get_failed_interface_objects()","get_unfailed_interface_objects()","get_failed_node_objects()","get_non_failed_node_objects()"])
p("C11","SRLGs fail and restore exactly their members",
 "Failing an SRLG fails every member node and circuit (and, through nodes, their attached circuits) and nothing else; a member cannot be brought up while any SRLG holding it is failed. Unfailing the SRLG restores exactly the members that no other failed SRLG and no failed node holds down, and removing a member from an SRLG releases it in the same way. Membership is symmetric: the SRLG lists exactly the nodes and interfaces that list the SRLG, adding or removing an interface adds or removes both ends of its circuit, and creating an SRLG with a name already in use or using an unknown one is refused.",
 ["histories","fault_sequences"],"over all SRLG memberships (overlapping SRLGs, node and circuit members) and failure/repair/removal sequences",
 "Tests use one or two SRLGs in fixed sequences; overlap and order matter.",
 [M,I,N,S],[("fail_srlg, unfail_srlg, add_srlg, get_srlg_object",M),("add_to_srlg, remove_from_srlg, failed",I),("add_to_srlg, remove_from_srlg, failed",N),("SRLG",S)],
 ["Interface.failed","Node.failed","SRLG.failed","SRLG.node_objects","SRLG.interface_objects","srlgs"])
p("C12","Path queries return exactly the paths that qualify",
 "The shortest-path query returns, for any node pair and needed bandwidth, exactly the set of least-cost interface-level paths whose interfaces are all up and have at least the needed reservable bandwidth, together with their cost, and no path and no cost if there is none. The all-paths query returns exactly the set of loop-free interface-level paths of at most the cutoff number of hops that satisfy the needed bandwidth, with or without failed circuits as requested. All queries treat a needed bandwidth of 0 as satisfied by every interface and return every path once, and the query for a routed LSP considers up, RSVP-enabled interfaces and counts the LSP's own reservation as available.",
 ["inputs","configurations"],"over all topologies, reservation states, failure states, node pairs, needed bandwidths and cutoffs",
 "Tests check a few queries on fixed models; the exact set has to match for every graph and threshold.",
 [F,PM,M],[("get_shortest_path, get_all_paths_reservable_bw",F),("get_shortest_path, get_all_paths_reservable_bw",PM),("_meets_needed_bw",M)],
 ["get_shortest_path()","get_all_paths_reservable_bw()"])
p("C13","Derived views agree with the routed paths",
 "After a simulation update, the demands of an interface are exactly those with a path that contains it directly or through an LSP, the LSPs of an interface are exactly those routed over it, and the demands on an LSP are exactly those with a path that contains the LSP. The traffic on an LSP is the sum over these demands of the traffic of their paths through it, and 0 for an unrouted LSP. The simulation diagnostics, the lists of demands per source and destination, unrouted demands, parallel LSP and demand groups, node interfaces, adjacent nodes and orphan nodes all agree with the same state.",
 ["inputs","configurations","histories"],"over all simulated models, with demands over IGP paths, LSPs, IGP shortcuts, and unrouted",
 "Each view is a separate traversal of the model; tests look at single entries of single models.",
 [M,I,R,N],[("simulation_diagnostics, parallel_lsp_groups, parallel_demand_groups, get_demand_objects_*, get_unrouted_demand_objects, get_orphan_node_objects",M),("demands, lsps",I),("demands_on_lsp, traffic_on_lsp",R),("interfaces, adjacent_nodes",N)],
 ["Interface.demands()","Interface.lsps()","RSVP_LSP.demands_on_lsp()","RSVP_LSP.traffic_on_lsp()","simulation_diagnostics()","Node.interfaces()","Node.adjacent_nodes()"])
p("C14","path_detail accounts for all of a demand's traffic",
 "After a simulation update, the path detail of a routed demand lists exactly its paths, one entry per path, and the path traffics add up to the demand's traffic. For demands routed by the IGP, the splits of each interface on a path are the product of the equal-cost fan-outs from the source up to and including it, the path's traffic is the demand's traffic divided by the largest splits on the path, and the traffic the entries put on each interface equals the demand's share of that interface. An unrouted demand has the 'Unrouted_detail' marker and no stale detail.",
 ["inputs","configurations","histories"],"over all simulated models and demands",
 "Tests compare path details of a few demands with literals.",
 [F,PM,D],[("_demand_traffic_per_item, _update_int_traffic_for_end_to_end_lsps",F),("_demand_traffic_per_int, _lsp_routed_demand_path_detail",PM),("path_detail",D)],
 ["Demand.path_detail"])
p("C15","Traffic is conserved at every node",
 "After a simulation update, at every node the traffic on its up egress interfaces minus the traffic on the up interfaces that enter it equals the traffic of routed demands that start there minus the traffic of routed demands that end there, to within rounding. This holds for any mix of IGP, LSP and IGP-shortcut routing. In particular a routed demand of positive traffic loads at least one egress interface of its source and one ingress interface of its destination, and the traffic of unrouted demands appears nowhere.",
 ["inputs","configurations","histories"],"over all simulated models",
 "Conservation is a global law relating all interfaces and demands; tests only look at selected interfaces.",
 [F,PM],[("_update_interface_utilization, _demand_traffic_per_item",F),("_update_interface_utilization, _demand_traffic_per_int",PM)],
 ["Interface.traffic","Demand.path"])
p("C16","A model file loads into exactly the model it describes",
 "Loading a well-formed model file yields a model with exactly the nodes (declared or implied), interfaces, demands and LSPs of its tables, with every stated attribute, documented defaults for blank or missing optional columns, and the RSVP LSP table optional. Duplicate rows of an interface, demand or LSP are ignored after the first, explicit node rows set the attributes of nodes implied by interfaces (the last row of a node counts), and the order of tables and rows, trailing blank lines, line endings and a byte-order mark do not matter. The loaded model simulates like the same model built through the objects.",
 ["inputs"],"over all well-formed model files for both model types",
 "Tests load a fixed set of example files.",
 [F,PM,M,U],[("load_model_file, _extract_interface_data_and_implied_nodes",F),("load_model_file, _extract_interface_data_and_implied_nodes",PM),("_add_node_from_data, _add_demand_from_data, _add_lsp_from_data",M),("find_end_index",U)],
 ["load_model_file()","attributes of all objects of the loaded model"])
p("C17","Malformed model files are refused, never half understood",
 "A model file with a missing required table, a missing or non-numeric required value (cost, capacity, circuit id, traffic), a cost or capacity that is not positive, a negative traffic, a demand or LSP naming an unknown node, or (FlexModel) a circuit id that does not appear exactly twice is refused with an exception. An interface without its counterpart is refused at the latest by the first simulation update. A refused file never yields a model object.",
 ["inputs"],"over all single and combined corruptions of well-formed files",
 "Tests try a handful of malformed files.",
 [F,PM,M,I,D],[("load_model_file, _extract_interface_data_and_implied_nodes",F),("load_model_file, _extract_interface_data_and_implied_nodes",PM),("_add_demand_from_data, _add_lsp_from_data",M)],
 ["load_model_file()"])
p("C18","Validation accepts exactly the consistent models",
 "Validating or updating a model succeeds if every interface pairs with one counterpart of the same capacity, interface names are unique per node, node names are unique and, in the PerformanceModel, there are no parallel circuits and no IGP-shortcut nodes. If any of these is violated, validation and update raise a model exception that reports the problem. A one-sided failed circuit is brought to the failed state rather than left inconsistent.",
 ["inputs","configurations"],"over all consistent models and all ways to introduce one or more of these inconsistencies",
 "Tests introduce each inconsistency once in a fixed model.",
 [F,PM,M],[("validate_model, _make_circuits_multidigraph",F),("validate_model, _make_circuits, _multiple_links_between_nodes",PM),("_validate_circuit_interface_capacity, _unique_interface_per_node, _reserved_bw_error_checks",M)],
 ["validate_model()","update_simulation()"])
p("C19","Editing calls do what they say and refuse duplicates untouched",
 "Adding a node, circuit, interface list, demand, LSP or SRLG makes exactly that element, with the given attributes, available through the corresponding getter and changes no other element; an element that already exists (or refers to an unknown node) is refused with a model exception and leaves the model as it was. Getters return the one element with the given key and raise for unknown keys. Renaming an interface changes its name only, and it stays a usable member of the model under the new name.",
 ["histories","inputs"],"over all sequences of adds, duplicate adds, renames and lookups",
 "Tests do single adds on fixed models.",
 [F,PM,M],[("add_circuit, add_network_interfaces_from_list, get_interface_object_from_nodes",F),("add_circuit, add_network_interfaces_from_list, get_interface_object_from_nodes",PM),("add_node, add_demand, add_rsvp_lsp, add_srlg, get_*_object, get_rsvp_lsp, change_interface_name",M)],
 ["node_objects","interface_objects","demand_objects","rsvp_lsp_objects","srlg_objects","circuit_objects","getters"])
p("C20","PerformanceModel and FlexModel agree where both apply",
 "For a topology without parallel links and IGP shortcuts, the PerformanceModel and the FlexModel produce the same demand paths with the same traffic on each, unrouted demands, interface traffic (to within rounding), failure states, path queries and (where routing is unambiguous) LSP paths, reservations, metrics and traffic. The legacy class names behave the same as the classes they alias. Circuits found are the same up to circuit ids.",
 ["inputs","configurations","histories"],"over all simple-graph models and histories",
 "No test compares the two implementations.",
 [F,PM,M],[("update_simulation, get_shortest_path",F),("update_simulation, get_shortest_path",PM)],
 ["all simulation results"])
p("C21","Results are invariant under relabeling, reordering and scaling",
 "Renaming nodes, interfaces, circuits, demands and LSPs consistently, or creating the objects in a different order, does not change any IGP result except for the names. Multiplying all interface costs by a positive integer changes no path; multiplying all demands' traffic by a factor multiplies IGP interface traffic by it. The IGP traffic of a set of demands is the sum of the traffic of each demand simulated alone, and failing an interface gives the same results as leaving its circuit out.",
 ["inputs","configurations"],"over all models and transformations",
 "Metamorphic relations compare runs with each other; tests only check single runs.",
 [F,PM,M],[("update_simulation",F),("update_simulation",PM)],
 ["Demand.path","Interface.traffic"])
p("C22","IGP shortcuts take the LSPs the metrics call for",
 "In a FlexModel with IGP shortcuts, a demand without end-to-end LSPs follows its least-cost IGP paths, except that at each shortcut-enabled node it reaches it takes the routed LSPs of lowest effective metric to the node furthest downstream on that path to which such an LSP exists, and continues from there. Of the resulting paths exactly those with the lowest total metric (interface costs plus LSP effective metrics) are used. Nodes without shortcuts never put transit demands on LSPs.",
 ["inputs","configurations"],"over all topologies, shortcut-enabled node sets, LSP sets and manual metrics",
 "Tests cover one line-shaped topology with four LSPs.",
 [F,N,R],[("find_igp_shortcuts, _insert_lsp_shortcuts, _inspect_for_lsp_metrics, _insert_lsps_into_path",F),("igp_shortcuts_enabled",N),("effective_metric",R)],
 ["Demand.path"])
p("C23","LSP metrics: manual if set, else the IGP shortest path",
 "The effective metric of an LSP is its manual metric if one is set (at construction, in the model file or later), and otherwise, for a routed LSP, the cost of the least-cost IGP path of up interfaces between its endpoints, whatever path the LSP takes itself; an unrouted LSP without a manual metric reports Unrouted. Setting the manual metric to -1 restores the default. Only positive integers (or -1) are accepted, and a refused value changes nothing.",
 ["inputs","histories"],"over all models and sequences of metric settings",
 "Tests set one or two metrics.",
 [R],[("manual_metric, effective_metric, topology_metric",R)],
 ["RSVP_LSP.effective_metric()","RSVP_LSP.manual_metric","RSVP_LSP.topology_metric()"])
p("C24","Invalid attribute values are refused and change nothing",
 "Interface cost accepts exactly integers of at least 1 and capacity exactly values above 0; demand traffic must be a non-negative number, node coordinates numbers, failed flags booleans, IGP-shortcut flags booleans or their names, setup bandwidth non-negative (a configured one at the latest when the LSP signals), and reserved bandwidth numeric. Any other value is refused with an exception, at construction as well as on assignment. After a refused assignment the attribute keeps its previous value; an accepted value is what is read back.",
 ["inputs"],"over all values of various types assigned to every guarded attribute",
 "Tests try one bad value per attribute.",
 [I,D,N,R,S],[("cost, capacity, failed, reserved_bandwidth",I),("__init__",D),("failed, lat, lon, igp_shortcuts_enabled",N),("setup_bandwidth, manual_metric",R),("failed",S)],
 ["attribute setters and constructors"])
p("C25","The visualization shows the simulation state",
 "The visualization elements contain one node per model node at its coordinates, and for each circuit edges whose utilization colors and labels correspond to the utilization range of the interface in each direction (or to the failed color). The demand and LSP selectors and the path highlighting show exactly the demands, LSPs, sources and destinations of the model and the interfaces on their paths. Node and interface names may contain separators such as '-'.",
 ["inputs","configurations"],"over all simulated models",
 "Only a few elements of one model are tested.",
 [W],[("WeatherMap",W)],["WeatherMap element and selection methods"])
p("C26","Interfaces pair into circuits one to one",
 "After validation or update, the circuits partition the interfaces: every interface is in exactly one circuit, made of two interfaces on the two nodes that face each other (and, in the FlexModel, share the circuit id; in the PerformanceModel receive a circuit id unique to the circuit). Asking for the remote interface twice returns the interface itself, and the circuit looked up from either interface is the same. The lookup of interfaces by node pair (and circuit id) returns exactly the matching interfaces.",
 ["inputs","histories"],"over all topologies (including parallel circuits and circuits added or renamed later)",
 "Tests check pairing in fixed models.",
 [F,PM,M,I,C],[("_make_circuits_multidigraph, get_interface_object_from_nodes",F),("_make_circuits, get_interface_object_from_nodes",PM),("get_circuit_object_from_interface",M),("get_remote_interface, get_circuit_object",I)],
 ["circuit_objects","Interface.get_remote_interface()","get_circuit_object_from_interface()"])
p("C27","Models in one process are isolated from each other",
 "Building, loading, editing, failing and simulating one model never changes the objects or results of another model with its own objects in the same process, including models built without some object sets. Objects created with default arguments share nothing.",
 ["histories","inputs"],"over all interleavings of operations on two or three models",
 "Tests build models one at a time and compare within one model.",
 [F,PM,M,S,N],[("__init__",M),("__init__",F),("__init__",PM)],
 ["all public state of the untouched model"])
p("C28","Queries and views do not change the model",
 "Calling any query, getter, view, representation or diagnostic on a simulated model, any number of times and in any order, changes no configuration and no simulation result, and repeated calls return the same answer. An update that follows gives the same results as without the queries.",
 ["histories","inputs"],"over all simulated models and sequences of queries",
 "Tests do not look for side effects of queries.",
 [M,F,PM,I,R,N],[("get_*, simulation_diagnostics, parallel_*_groups",M),("get_shortest_path*, get_all_paths_reservable_bw",F),("effective_metric, manual_metric, traffic_on_lsp",R)],
 ["all public state before and after queries"])
p("C29","Console displays show the state of the model",
 "At any time, the display calls print the current state. display_interface_status and display_interfaces_traffic print one row per interface with its node, its name, its remote node and whether it is failed, or its traffic ('Down' if it is failed). display_node_status prints one row per node with its failed flag. display_interface_objects prints each interface once. display_demand_paths prints for each demand its key, the number of its paths and each of the paths, and no path for an unrouted demand. The representations of models, nodes, interfaces, circuits, demands, LSPs and SRLGs name what they stand for, with the current values.",
 ["inputs","histories"],"over all models, failure histories and names",
 "The display calls are excluded from the tests' coverage; none of their output is tested.",
 [M,F,PM,I,N,D,R,S,C],[("display_interface_status, display_node_status, display_interfaces_traffic, display_demand_paths, display_interface_objects",M),("__repr__",F),("__repr__",PM),("__repr__",I),("__repr__",R)],
 ["standard output of display_*()","repr()"])
p("C30","Lookups, lists and path queries describe the network as it is now",
 "After every edit, failure or repair, with no simulation update in between, the lookups of nodes, interfaces, demands, LSPs and SRLGs by name return exactly the present elements. The lists of demands per source or destination, node interfaces, adjacent nodes, orphan nodes, failed and non-failed nodes and interfaces, unrouted demands, and parallel LSP and demand groups contain exactly the present elements in their present state. Shortest-path and all-paths queries use the present costs, failure states and reservable bandwidths. An LSP that was never signaled carries no traffic or demands.",
 ["histories","inputs"],"over all histories of edits and failures and all points between updates",
 "Tests query models right after an update, or after one edit.",
 [M,F,PM,N,R],[("get_* lookups and lists, parallel_lsp_groups, parallel_demand_groups",M),("get_shortest_path, get_all_paths_reservable_bw",F),("get_shortest_path, get_all_paths_reservable_bw",PM),("interfaces, adjacent_nodes",N),("traffic_on_lsp, demands_on_lsp",R)],
 ["return values of lookups, lists and path queries"])
P.sort(key=lambda x:x["id"])
import re
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
