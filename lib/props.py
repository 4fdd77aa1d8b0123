"""The properties, where they are anchored, and how each is decided.  bin/gen
writes properties.jsonl and MANIFEST.json from this table."""

SIM_BOUNDS = (
    "wide-*: every combination of {corridor, merge, diamond, cross, ring, "
    "no-connector} x {CTM, LQ, PQ, mixed} x {free, tight, jam, short, two-lane} "
    "x flow scalar {1,3 | 1,2,3,7} x {adaptive, fixed, hybrid} x demand level "
    "{2 | 5}, under each of 3 | 16 base schedules of random answers; vary-*: "
    "{3x3 hub, fan, Braess, cross, no-connector, ring} x link models x profiles "
    "{2 | 5} x flow scalar {2 | 3} x routing x 15 settings (junction model, step "
    "length, step limit, demand split, third interval, later start, adaptive "
    "shares per pair, labels, frequencies, truck equivalents, record length and "
    "files); deep-*: "
    "every single deviating random answer (6 | 14 values) at each of the first "
    "60 | 400 draws; tree-*: all 4^5 | 4^7 answer sequences for the first draws "
    "(quick | thorough)")
SIM_ASSUME = [
    "nondeterminism enters only through libc rand(), which the explorer owns",
    "two-class origins are attached through PQ connectors",
    "single-threaded loading, networks of at most 11 nodes and 13 "
    "links, at most three assignment intervals"]


def sim(**k):
    d = dict(kind="cpp", harness="sim")
    d.update(k)
    return d


def api(**k):
    d = dict(kind="cpp", harness="api")
    d.update(k)
    return d


def eq(**k):
    d = dict(kind="cpp", harness="eq")
    d.update(k)
    return d


def pub(**k):
    d = dict(kind="cpp", harness="pub")
    d.update(k)
    return d


def mm(**k):
    d = dict(kind="cpp", harness="mm")
    d.update(k)
    return d


def mmapi(**k):
    d = dict(kind="cpp", harness="mmapi")
    d.update(k)
    return d


def ev(**k):
    d = dict(kind="cpp", harness="ev")
    d.update(k)
    return d


def inp(**k):
    d = dict(kind="cpp", harness="inp")
    d.update(k)
    return d


EQ_BOUNDS = (
    "due, dso: every combination of {diamond, Braess, cross, ring, merge} x "
    "{CTM, LQ, PQ, mixed; marginal costs: CTM, PQ} x {free, tight, jam, "
    "two-lane} x flow scalar {1,3 | 1,2,3} x demand level {1,2,4 | 0-4} x "
    "{departure-time choice, successive averages, gradient projection} x 8 "
    "settings of horizon, step size, early/late penalties, target time and "
    "tolls, three iterations each; *-deep: every single deviating random answer "
    "in the loadings of the first iterations (quick | thorough)")
EQ_ASSUME = [
    "nondeterminism enters only through libc rand(), which the explorer owns",
    "step sizes of at most 1", "numpy arguments are contiguous"]


API_BOUNDS = (
    "api-*: every combination of {corridor, merge, diamond, cross, ring, "
    "Braess, 3x3 hub} x {CTM, LQ, PQ, mixed} x {free, tight, jam, short, two-lane} x "
    "flow scalar {1,3 | 1,2,3,7} x demand level {2,4 | 1,2,3,4} x 6 ways of "
    "registering links and paths (all, reversed, subset; with and without "
    "tolls) x {run to the end, cut at step 18}, hybrid routing, under 2 | 8 "
    "base schedules; api-*-deep: every single deviating random answer at each "
    "of the first 20 | 200 draws (quick | thorough); every step of the loading "
    "is queried")
API_ASSUME = [
    "nondeterminism enters only through libc rand(), which the explorer owns; "
    "the loading through the API draws the same answers as the monitored one",
    "two-class origins are attached through PQ connectors",
    "numpy arguments are contiguous"]

PROPS = {}


def prop(pid, title, statement, over, qtext, why, files, mechanism, state=(),
         observe=(), parts=(), bounds=SIM_BOUNDS, assumptions=SIM_ASSUME,
         technique="", note=""):
    PROPS[pid] = dict(
        title=title, statement=statement, over=list(over), qtext=qtext, why=why,
        files=list(files),
        mechanism=[dict(name=a, where=b) for a, b in mechanism],
        state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
        observe=list(observe), parts=list(parts), bounds=bounds,
        assumptions=list(assumptions), technique=technique, note=note)


STATELESS = ("stateless model checking of the real simulator: exhaustive "
             "enumeration of a bounded scenario space and of its random-choice "
             "schedules")

prop("P01", "Single-class loading conserves vehicles",
     "At every step of a single-class dynamic loading each released vehicle is "
     "in exactly one place - waiting at its origin, on one link, or received at "
     "its own destination - and none is lost, duplicated or created. The "
     "reported numbers of released, en-route and finished vehicles equal the "
     "actual ones; a loading without a step limit ends exactly when the "
     "network is empty, one with a limit runs exactly that many steps (or until "
     "all departures are released, if that is later).",
     ["inputs", "configurations", "schedules", "histories"],
     "every network, demand, link-model mix, flow scalar and sequence of random "
     "choices, at every step of the loading",
     "The tests load two fixed networks and look at end-of-run totals; they "
     "see one random stream and never the intermediate placement.",
     ["src/dta.cpp", "src/dnode.cpp", "src/dlink.cpp", "src/od.cpp",
      "src/factory.cpp"],
     [("loading loop", "src/dta.cpp MNM_Dta::load_once, loading"),
      ("junction moves", "src/dnode.cpp MNM_Dnode_Inout::move_vehicle, "
       "MNM_DMOND::evolve, MNM_DMDND::evolve"),
      ("link moves", "src/dlink.cpp evolve/clear_incoming_array of each model"),
      ("counters", "src/factory.cpp MNM_Veh_Factory")],
     [("vehicle placement", "origin queue, link queues, destination queue",
       "src/dnode.h, src/dlink.h")],
     ["after the junction phase and at the end of every step",
      "vehicle counters of the loading"],
     [sim()], technique=STATELESS,
     note="Exhaustive within the stated bounds on the real code; trusts the "
          "harness's reading of the queues.")

prop("P02", "Two-class loading conserves cars and trucks separately",
     "In a two-class loading every car and every truck is, at every step, in "
     "exactly one place, and none is lost, duplicated, created or changes "
     "class. The reported released, en-route and finished counts are right for "
     "each class and in total; a loading without a step limit ends exactly when "
     "the network is empty, one with a limit runs exactly that many steps (or "
     "until all departures are released, if that is later).",
     ["inputs", "configurations", "schedules", "histories"],
     "every network, class mix, link-model mix, flow scalar and sequence of "
     "random choices, at every step",
     "The tests load two fixed networks once each and check a handful of "
     "totals.",
     ["src/multiclass.cpp", "src/multiclass.h", "src/dta.cpp"],
     [("junction moves per class",
       "src/multiclass.cpp MNM_Dnode_Inout_Multiclass::move_vehicle"),
      ("link moves per class", "src/multiclass.cpp *_Multiclass::evolve, "
       "move_last_cell, clear_incoming_array"),
      ("counters", "src/multiclass.cpp MNM_Veh_Factory_Multiclass")],
     observe=["after the junction phase and at the end of every step",
              "per-class counters"],
     parts=[sim()], technique=STATELESS,
     note="Exhaustive within the stated bounds on the real code.")

prop("P03", "Released vehicles match the demand table",
     "For every origin, destination, class and assignment interval the number "
     "of vehicles released is the demand times the flow scalar, rounded at random "
     "to a neighbouring integer so that its mean is exact (with demand splitting, "
     "its equal share minute by minute), at its own release time only. Each vehicle carries the right origin, destination, class, "
     "release time and departure interval, and follows a fixed or an adaptive "
     "route as the configured (or per-OD, per-interval) share prescribes.",
     ["inputs", "configurations", "schedules"],
     "every demand table, flow scalar, split setting, adaptive share and "
     "sequence of random choices",
     "Tests only compare total counts on two fixed inputs.",
     ["src/od.cpp", "src/multiclass.cpp", "src/io.cpp", "src/dta.cpp"],
     [("release", "src/od.cpp MNM_Origin::release_one_interval; "
       "src/multiclass.cpp MNM_Origin_Multiclass::release_one_interval(_biclass)"),
      ("demand parsing", "src/io.cpp MNM_IO::build_demand; src/multiclass.cpp "
       "MNM_IO_Multiclass::build_demand_multiclass"),
      ("randomised rounding", "src/ults.cpp MNM_Ults::round")],
     observe=["vehicles that appear at an origin, per step"],
     parts=[sim()], technique=STATELESS,
     note="Exhaustive within the stated bounds on the real code.")

prop("P04", "Every trip is a connected walk from origin to destination",
     "Each vehicle enters the network on a link leaving its origin, moves only "
     "from a link to one that starts where the previous one ends, and leaves "
     "only at its own destination. Vehicles with a prescribed route follow "
     "exactly that route, and no link is left before its free-flow traversal "
     "time has passed.",
     ["inputs", "configurations", "schedules", "histories"],
     "every network, routing mode and sequence of random choices, for every "
     "vehicle",
     "Tests never look at individual vehicles.",
     ["src/routing.cpp", "src/dnode.cpp", "src/dlink.cpp", "src/multiclass.cpp",
      "src/vehicle.cpp"],
     [("next-link choice", "src/routing.cpp update_routing of each routing"),
      ("junction moves", "src/dnode.cpp, src/multiclass.cpp move_vehicle"),
      ("route draw", "src/routing.cpp MNM_Routing_Fixed::register_veh")],
     observe=["the sequence of links of every vehicle"],
     parts=[sim()], technique=STATELESS,
     note="Exhaustive within the stated bounds on the real code.")

prop("P05", "Cumulative curves record the true entries and exits",
     "For every link on which curves are installed, the recorded cumulative "
     "arrivals and departures at any time equal the number of vehicles (divided "
     "by the flow scalar) that had entered and left the link by then, per "
     "class. The path-resolved curves count, for every path and departure "
     "interval, exactly the vehicles on that path that passed the junction at "
     "the link's end.",
     ["inputs", "configurations", "schedules", "histories"],
     "every network, schedule of random choices, link, class, path, departure "
     "interval and query time",
     "Tests compare derived travel times on two fixed networks; nobody counts "
     "vehicles.",
     ["src/dnode.cpp", "src/dlink.cpp", "src/multiclass.cpp", "src/cc_tree.cpp",
      "macposts/_ext/dta.cpp", "macposts/_ext/mcdta.cpp"],
     [("curve recording", "src/dnode.cpp record_cumulative_curve, "
       "MNM_DMOND::evolve, MNM_DMDND::evolve; src/multiclass.cpp same"),
      ("path trees", "src/cc_tree.cpp MNM_Tree_Cumulative_Curve::add_flow"),
      ("curve container", "src/dlink.cpp MNM_Cumulative_Curve")],
     observe=["recorded curves at every integer time vs. the vehicles seen"],
     parts=[sim(), api()], technique=STATELESS,
     bounds=SIM_BOUNDS + "; " + API_BOUNDS,
     note="Exhaustive within the stated bounds on the real code.")

prop("P08", "First in, first out on every link",
     "Within one class, vehicles that enter a link earlier never leave it later "
     "than vehicles that enter it afterwards and turn into the same next link, "
     "and vehicles keep their order while they are on the link.",
     ["inputs", "configurations", "schedules", "histories"],
     "every network, link model, class and sequence of random choices",
     "Tests never look at individual vehicles.",
     ["src/dlink.cpp", "src/dnode.cpp", "src/multiclass.cpp"],
     [("queues", "src/dlink.cpp move_veh_queue, evolve"),
      ("junction moves", "src/dnode.cpp move_vehicle; src/multiclass.cpp "
       "move_vehicle, move_last_cell")],
     observe=["order of the vehicles on a link after every phase"],
     parts=[sim()], technique=STATELESS,
     note="Exhaustive within the stated bounds on the real code.")

prop("P17", "Reported travel statistics equal the actual trips",
     "At every step, the total travel time reported for finished vehicles is "
     "the sum over the vehicles that have reached their destination of arrival "
     "minus release time, in total and per class. The travel statistics of the "
     "whole loading give the number of vehicles released and their "
     "vehicle-hours up to arrival or, for those still travelling, to the end of "
     "the loading, divided by the flow scalar; the reported numbers en route and "
     "queueing per step and per link are the actual ones.",
     ["inputs", "configurations", "schedules", "histories"],
     "every network, schedule and step of the loading",
     "Tests compare one number on two fixed inputs with a tolerance.",
     ["src/factory.cpp", "src/multiclass.cpp", "src/vehicle.cpp", "src/od.cpp",
      "src/dta.cpp", "macposts/_ext/dta.cpp", "macposts/_ext/mcdta.cpp"],
     [("statistics", "src/factory.cpp MNM_Veh_Factory::remove_finished_veh; "
       "src/multiclass.cpp MNM_Veh_Factory_Multiclass::remove_finished_veh")],
     observe=["travel statistics of the loading after every step"],
     parts=[sim(), api()], technique=STATELESS,
     bounds=SIM_BOUNDS + "; " + API_BOUNDS,
     note="Exhaustive within the stated bounds on the real code.")

prop("P23", "Recorded volumes, queues and travel times are the actual ones",
     "After every step the reported volume of a link (per class) is the number "
     "of vehicles on it divided by the flow scalar, its reported travel time is "
     "at least free flow, and the recorded queue and en-route numbers count the "
     "vehicles actually waiting at link ends and in the network. Interval "
     "records are the averages of the per-step values over that interval.",
     ["inputs", "configurations", "schedules", "histories"],
     "every network, link model, schedule and step of the loading",
     "No test reads link volumes or queue records.",
     ["src/statistics.cpp", "src/multiclass.cpp", "src/dlink.cpp", "src/dta.cpp"],
     [("records", "src/statistics.cpp MNM_Statistics_Lrn::update_record; "
       "src/multiclass.cpp MNM_Statistics_Lrn_Multiclass::update_record"),
      ("volumes", "get_link_flow of each link model"),
      ("queues", "src/dta.cpp record_queue_vehicles, record_enroute_vehicles")],
     observe=["records and volumes after every step"],
     parts=[sim()], technique=STATELESS,
     note="Exhaustive within the stated bounds on the real code.")

def alg(**k):
    d = dict(kind="cpp", harness="alg")
    d.update(k)
    return d


EXHAUST = ("bounded exhaustive model checking of the real code: every input and "
           "operation sequence in the stated bounds is executed and compared "
           "with an independent reference")
ALG_ASSUME = ["inputs as large as the stated bounds; the reference "
              "implementations in the harness are right"]

prop("P10", "Shortest-path trees are shortest for every graph and history",
     "The next-link table computed for a destination by any of the supported "
     "algorithms (Dijkstra, FIFO and LIFO label correcting) leads from every "
     "node that can reach the destination along existing links to it at the "
     "minimum total cost, and marks exactly the other nodes as unreachable. "
     "This also holds when a table of an earlier computation is updated after "
     "link costs changed.",
     ["inputs", "histories"],
     "every directed graph, link-cost assignment, destination and earlier "
     "table",
     "Tests compute one path on one small graph per algorithm.",
     ["src/shortest_path.cpp", "src/shortest_path.h", "src/path.cpp"],
     [("algorithms", "src/shortest_path.cpp MNM_Shortest_Path::"
       "all_to_one_Dijkstra, all_to_one_FIFO, all_to_one_LIFO, all_to_one"),
      ("extraction", "src/path.cpp MNM::extract_path")],
     observe=["next-link table after the computation"],
     parts=[alg()], technique=EXHAUST,
     bounds="all 5^6 cost/absence patterns on 3 nodes (two link orders), all "
            "patterns on 4 nodes with at most the tier's links, parallel links, "
            "and all pairs of cost patterns on 3 nodes for updates "
            "(4^9 | 4^10)",
     assumptions=ALG_ASSUME + ["link costs are nonnegative"],
     note="Exhaustive within the stated bounds on the real code.")

prop("P11", "Time-dependent shortest paths are optimal at every departure time",
     "For every departure interval the time-dependent shortest-path tree gives, "
     "for each node, the minimum cost over all walks to the destination whose "
     "link costs and travel times are read at the time the walk reaches each "
     "link, and the extracted path is a connected walk that attains it. "
     "Unreachable nodes are reported as such.",
     ["inputs"],
     "every small graph, every table of time-dependent link times and costs, "
     "every departure interval",
     "Tests query one network at a few departure times.",
     ["src/shortest_path.cpp", "macposts/_ext/tdsp.cpp",
      "macposts/_ext/mcdta.cpp"],
     [("tree update", "src/shortest_path.cpp MNM_TDSP_Tree::update_tree"),
      ("extraction", "src/shortest_path.cpp MNM_TDSP_Tree::get_tdsp")],
     observe=["cost label and extracted path of every node and interval"],
     parts=[alg(), pub(), api()], technique=EXHAUST,
     bounds="all time-dependent tables over small alphabets on diamond and "
            "triangle networks with 3 | 4 intervals, on the tree itself and "
            "through the Python object (tables from files and from arrays, "
            "with and without turn tables); the cheapest-path query of a "
            "two-class loading for every pair and departure step over the "
            "api-* scenario space",
     assumptions=ALG_ASSUME + [
         "travel times are at least one interval; the last interval stands for "
         "everything after it; turn costs zero"],
     note="Exhaustive within the stated bounds on the real code.")

prop("P12", "The graph container behaves like a mathematical graph",
     "After any sequence of additions of nodes and links, valid or not, the "
     "graph reports exactly the nodes, links, end points, incident links and "
     "neighbours that were added, in both directions, and rejects invalid "
     "operations without any effect. Links and nodes keep their identity and "
     "data, and reversing a graph flips every link and nothing else.",
     ["inputs", "histories"],
     "every sequence of operations on directed and undirected graphs",
     "Tests build a couple of fixed graphs.",
     ["src/graph.h", "macposts/graph.py", "macposts/_ext/macposts.cpp"],
     [("container", "src/graph.h Graph, DiGraph, UndirectedGraph iterators"),
      ("reverse", "src/graph.h reverse")],
     observe=["all queries after every operation"],
     parts=[alg(), pub()], technique=EXHAUST,
     bounds="all operation sequences of depth 5 | 6 over an alphabet of valid "
            "and invalid additions; all sequences of 6 | 8 links on three "
            "nodes; through the Python class all insertion sequences of depth "
            "3 from the empty and from a three-node graph | depth 5",
     assumptions=ALG_ASSUME,
     note="Exhaustive within the stated bounds on the real code.")

prop("P13", "Cumulative curves answer count and time queries exactly",
     "For any sequence of recorded arrivals, a cumulative curve returns at every "
     "time exactly the sum of the amounts recorded up to then (and its "
     "interpolating query the linear interpolation between records), whatever "
     "the magnitude of the time stamps, and its time query is the inverse: the "
     "first time at which a count was reached, or none. Path-resolved curves "
     "keep each path and departure interval apart.",
     ["inputs", "histories"],
     "every sequence of records and every query time and amount",
     "No test queries a curve directly.",
     ["src/dlink.cpp", "src/dlink.h", "src/cc_tree.cpp"],
     [("container", "src/dlink.cpp MNM_Cumulative_Curve::add_increment, "
       "get_result, get_time"),
      ("path trees", "src/cc_tree.cpp MNM_Tree_Cumulative_Curve")],
     observe=["curve queries on a grid of times and amounts"],
     parts=[alg()], technique=EXHAUST,
     bounds="all record sequences up to length 5 | 6 over small increments and "
            "amounts, including time stamps beyond 10^4 and 10^6",
     assumptions=ALG_ASSUME + ["records come in nondecreasing time order"],
     note="Exhaustive within the stated bounds on the real code.")

prop("P16", "Path sets survive files, normalisation and cycle removal",
     "A path table read from files contains exactly the written paths with "
     "their nodes, links, origin-destination pairs and time-dependent shares, "
     "and writing and reading it again changes nothing. Normalising shares "
     "keeps their proportions and makes them sum to one, and removing cycles "
     "from a walk yields a connected cycle-free sub-walk with the same ends.",
     ["inputs"],
     "every path set, share vector and walk",
     "Tests only read two example path tables.",
     ["src/io.cpp", "src/path.cpp", "src/path.h"],
     [("files", "src/io.cpp MNM_IO::load_path_table, save_path_table"),
      ("normalisation", "src/path.cpp MNM_Pathset::normalize_p, "
       "MNM_Path_Table"),
      ("cycle removal", "src/path.cpp MNM_Path::eliminate_cycles")],
     observe=["path tables after reading and rewriting"],
     parts=[alg()], technique=EXHAUST,
     bounds="all walks with up to 8 nodes over 4 labels, all share vectors of "
            "up to 4 entries over a small alphabet, all subsets of a pool of "
            "paths with every buffer layout",
     assumptions=ALG_ASSUME,
     note="Exhaustive within the stated bounds on the real code.")

def comp(**k):
    d = dict(kind="cpp", harness="comp")
    d.update(k)
    return d


prop("P06", "Link models send, store and delay what their traffic model allows",
     "At every step each link offers exactly the room that its occupancy and "
     "fundamental diagram allow, moves forward exactly that flow (rounded to a "
     "neighbouring whole number of vehicles, class by class), and never holds "
     "more than its storage. Vehicles of a class leave in the order they "
     "entered, a lone vehicle needs exactly the free-flow time, the reported "
     "occupancy is the number of vehicles inside, and with the exit open every "
     "link empties.",
     ["inputs", "configurations", "schedules", "histories"],
     "every parameter set, every sequence of arrivals and departures and every "
     "rounding decision, at every step",
     "Tests run whole networks and compare a few totals; no test looks inside a "
     "link or drives one through a jam.",
     ["src/dlink.cpp", "src/multiclass.cpp", "src/ults.cpp"],
     [("cell transmission", "src/dlink.cpp MNM_Dlink_Ctm::update_out_veh, "
       "evolve, Ctm_Cell; src/multiclass.cpp MNM_Dlink_Ctm_Multiclass, "
       "Ctm_Cell_Multiclass::update_perceived_density"),
      ("point queue", "src/dlink.cpp MNM_Dlink_Pq; src/multiclass.cpp "
       "MNM_Dlink_Pq_Multiclass"),
      ("link queue", "src/dlink.cpp MNM_Dlink_Lq; src/multiclass.cpp "
       "MNM_Dlink_Lq_Multiclass")],
     [("cell queues", "vehicles per cell and class", "src/dlink.h, "
       "src/multiclass.h")],
     ["room offered, cell contents and finished vehicles at every step"],
     parts=[comp()],
     technique="model checking: exhaustive enumeration of arrival/departure "
               "sequences and rounding decisions on the real link models, each "
               "step compared with a set-valued reference automaton",
     bounds="16 parameter sets x 6 link models x 4 initial loads (empty, "
            "filling, jammed, discharging) x all sequences of 4 | 5 steps over "
            "3 arrival and 3 departure levels (two classes: 3 | 4 steps over 6 "
            "x 3) x 3 | 5 base schedules, then emptied; every single deviating "
            "answer among the first 30 | 150 draws",
     assumptions=["arrivals never exceed the room offered (junctions guarantee "
                  "that: P07)",
                  "link-queue links are at least one step of free flow and of "
                  "the backward wave long",
                  "the link transmission model is not covered"],
     note="Exhaustive within the stated bounds on the real code.")

prop("P07", "Junctions share capacity, keep turns and order, and block nobody",
     "At every step a junction sends each vehicle only into the link it heads "
     "for, in the order of arrival per turn, and never more than the link can "
     "receive; when everything fits everything moves, and otherwise each "
     "approach gets the share its junction model prescribes, rounded to a "
     "neighbouring whole number. Origins release in order as much as their "
     "links take, destinations receive everything that reaches them, and no "
     "vehicle is lost or duplicated in between.",
     ["inputs", "configurations", "schedules", "histories"],
     "every number of approaches and exits, every queue of vehicles, supply, "
     "flow scalar and sequence of random choices",
     "No test exercises a junction on its own; shares, order and rounding are "
     "invisible in end-of-run totals.",
     ["src/dnode.cpp", "src/multiclass.cpp"],
     [("flow shares", "src/dnode.cpp MNM_Dnode_FWJ::compute_flow, "
       "MNM_Dnode_GRJ::get_theta; src/multiclass.cpp "
       "MNM_Dnode_FWJ_Multiclass::compute_flow"),
      ("rounding and moves", "src/dnode.cpp round_flow_to_vehicle, "
       "move_vehicle; src/multiclass.cpp "
       "MNM_Dnode_Inout_Multiclass::move_vehicle"),
      ("origins and destinations", "src/dnode.cpp MNM_DMOND::evolve, "
       "MNM_DMDND::evolve and their two-class versions")],
     observe=["queues of all links around the junction before and after a "
              "step"],
     parts=[comp()],
     technique="model checking: exhaustive enumeration of queue contents, "
               "supplies and random choices at the real junctions, compared "
               "with the definition of the junction models",
     bounds="all queues of 2-4 | 3-9 vehicles with every turn (and class) order, "
            "on 1x1, 1x2, 1x3, 2x1, 3x1 and 2x2 junctions, all combinations of "
            "5-6 supplies per exit, flow scalars 1, 2, 3; up to 4^5 answer "
            "sequences; two steps in a row",
     assumptions=["links are stand-ins with a prescribed supply",
                  "the two-class general road junction is not implemented by "
                  "the code"],
     note="Exhaustive within the stated bounds on the real code.")

prop("P09", "A loading is reproducible",
     "Loading the same input twice with the same random state gives the same "
     "result - every vehicle's route, every recorded curve, volume, travel time "
     "and statistic - whatever the process did before, wherever its memory "
     "lies, and whether or not curves, trees or statistics are also recorded. "
     "Restoring the random state restores the whole future of the loading.",
     ["inputs", "configurations", "schedules", "histories"],
     "every network, class mix, routing and sequence of random choices, every "
     "memory layout",
     "A test runs a loading once; an order that depends on heap addresses or on "
     "uninitialised data is the same on most runs.",
     ["src/od.h", "src/od.cpp", "src/multiclass.h", "src/multiclass.cpp",
      "src/dta.cpp", "src/routing.cpp", "src/ults.cpp", "src/multimodal.h",
      "src/multimodal.cpp", "src/delivery_traffic.cpp", "src/ev_traffic.cpp"],
     [("random source", "src/ults.cpp MNM_Ults::rand_flt, round, "
       "set_random_state"),
      ("order of release", "src/od.cpp MNM_Origin::release_one_interval; "
       "src/od.h MNM_Destination_Hash"),
      ("order of nodes, links", "src/dta.cpp load_once; src/factory.cpp")],
     observe=["trip of every vehicle, curves, records and statistics of two "
              "loadings of one scenario under one random stream",
              "place of every passenger, bus loads and waiting lines of two "
              "multimodal loadings",
              "place of every vehicle of two loadings with tours and charging"],
     parts=[sim(), mm(), ev()],
     technique="model checking: self-composition - every scenario and random "
               "schedule in the bounds is executed twice on the real code under "
               "different heap layouts and fill patterns, and the complete "
               "outcomes are compared",
     bounds="fan, cross, diamond and ring networks x link models x routing x "
            "flow scalars x base schedules, and a 24th | half of the multimodal "
            "scenarios of P27, an eighth | all of the tours and a 32nd | half of "
            "the charging scenarios of P29, each loaded three times or more with the heap "
            "shifted and filled differently (quick | thorough)",
     assumptions=SIM_ASSUME,
     note="Exhaustive within the stated bounds on the real code; memory layouts "
          "are a small enumerated set.")

prop("P22", "Time-dependent link attributes take effect exactly when stated",
     "In a two-class loading each row of the time-dependent link-attribute file "
     "changes exactly the named link, at the named interval, to the stated "
     "speed, capacity, storage and tolls, and nothing else changes. From then "
     "on the link sends, admits and delays traffic by the new values, every "
     "vehicle on it at that moment stays on it in order, and vehicles are "
     "neither lost nor duplicated.",
     ["inputs", "configurations", "schedules", "histories"],
     "every attribute file, interval, link state at the change and sequence of "
     "random choices",
     "No test loads a network with time-dependent attributes.",
     ["src/io.cpp", "src/multiclass.cpp", "src/dta.cpp"],
     [("file", "src/io.cpp MNM_IO::read_td_link_attribute; src/multiclass.cpp "
       "MNM_IO_Multiclass::build_link_td_attribute"),
      ("application", "src/multiclass.cpp "
       "MNM_Dta_Multiclass::update_link_attribute"),
      ("link change", "src/multiclass.cpp MNM_Dlink_Ctm_Multiclass::"
       "modify_property, MNM_Dlink_Lq_Multiclass::modify_property")],
     observe=["link attributes at every step", "room, cells and finished "
              "vehicles around the change"],
     parts=[comp(), sim()],
     technique="model checking: exhaustive enumeration of attribute changes, "
               "change steps, arrival/departure sequences and rounding "
               "decisions on the real links, each step compared with a "
               "set-valued reference automaton; and of attribute files in whole "
               "loadings",
     bounds="links: 2 models x parameter pairs x change at step 0..2 x initial "
            "loads x all arrival/departure sequences; files: all small "
            "attribute files over two links, two intervals and several values",
     assumptions=["two-class cell-transmission and link-queue links (point "
                  "queues have no attributes to change; single-class loadings "
                  "do not apply the file)"],
     note="Exhaustive within the stated bounds on the real code.")

prop("P25", "Adaptive vehicles take the best route, fixed ones their shares",
     "At each routing update an adaptive vehicle is directed along a route that "
     "is cheapest for the current link travel times, tolls and the configured "
     "value-of-time weights of its class, from the first step on. Vehicles with "
     "prescribed routes are distributed over the routes of their "
     "origin-destination pair with the shares stated for their departure "
     "interval and class.",
     ["inputs", "configurations", "schedules", "histories"],
     "every network, congestion state, toll setting, share table and sequence "
     "of random choices, at every routing update",
     "Tests never look at which route a vehicle is sent along.",
     ["src/routing.cpp", "src/multiclass.cpp", "src/shortest_path.cpp",
      "src/statistics.cpp"],
     [("adaptive choice", "src/routing.cpp MNM_Routing_Adaptive::"
       "update_link_cost, update_routing; src/multiclass.cpp "
       "MNM_Routing_Adaptive versions"),
      ("shares", "src/routing.cpp MNM_Routing_Fixed::change_choice_portion, "
       "register_veh; src/multiclass.cpp MNM_Routing_Biclass_Fixed")],
     observe=["next link of every adaptive vehicle after each update",
              "route drawn for each answer of the random source"],
     parts=[sim()],
     technique="model checking: exhaustive enumeration of scenarios and random "
               "schedules on the real simulator, every choice compared with an "
               "independent shortest-path computation; route draws enumerated "
               "over the whole range of the random source",
     bounds="three-route and diamond networks x link models x tolls x weights x "
            "flow scalars x base schedules; shares over a grid, the draw swept "
            "over its range",
     assumptions=SIM_ASSUME + ["ties in cost are allowed either way (relative "
                               "tolerance 1e-7)"],
     note="Exhaustive within the stated bounds on the real code.")

prop("P26", "Generated path sets are valid, distinct and cheapest",
     "Path-set generation gives every origin-destination pair with demand only "
     "connected, cycle-free and pairwise distinct routes between its own ends, "
     "starting with a cheapest route at free flow and adding, round by round, "
     "only routes that are cheapest once the links of the routes found so far "
     "are penalised. Paths generated to cover links lead over the link by "
     "shortest ways and join a pair with demand, every link that any pair can "
     "use ends up covered, and the reported coverage of links by paths is "
     "exact.",
     ["inputs", "configurations", "schedules", "histories"],
     "every network, link lengths, tolls, scale factors, number of rounds, set "
     "of registered links and paths, and order of random choices",
     "Tests generate one path table and only look at its size.",
     ["src/path.cpp", "src/multiclass.cpp", "macposts/_ext/dta.cpp",
      "macposts/_ext/mcdta.cpp"],
     [("generation", "src/path.cpp build_pathset, "
       "build_pathset_multiclass; src/multiclass.cpp"),
      ("link coverage", "macposts/_ext/dta.cpp, mcdta.cpp "
       "generate_paths_to_cover_registered_links, generate_paths_to_cover_links, "
       "are_registered_links_in_registered_paths, "
       "get_registered_links_coverage_in_registered_paths")],
     observe=["the whole path table after each number of rounds",
              "registered paths and coverage flags after each generation"],
     parts=[pub()],
     technique="model checking: exhaustive enumeration of small networks with "
               "all assignments of lengths and tolls from small alphabets, and of "
               "registrations and random orders, on the real code; every table "
               "compared with all simple routes of the network",
     bounds="sets-*: diamond, ring, Braess, 3x3 hub, grid and two-way networks x "
            "all link lengths and tolls over small alphabets (a strided part of "
            "the larger spaces | all) x 0-3 rounds x scale factors; cover-*: six "
            "networks x demand patterns x subsets of registered paths x every "
            "single link, all, and alternating links, under 1 | 4 base schedules "
            "and single deviations (quick | thorough)",
     assumptions=["nondeterminism enters only through libc rand(), which the "
                  "explorer owns", "every pair with demand has a route"],
     note="Exhaustive within the stated bounds on the real code.")

prop("P27", "Buses and passengers of multimodal loadings keep to their plans",
     "In a multimodal loading every bus serves the stops of its route in order, "
     "one at a time, stays while passengers can still alight or board and for its "
     "minimum dwell time, and leaves once nothing holds it; passengers alight "
     "where they should, board in order of arrival up to the capacity, walk for "
     "exactly the walking times of their itinerary, and park-and-ride drivers "
     "become passengers at the parking lot. "
     "Nobody is lost, duplicated or in two places, cars, trucks, buses and "
     "passengers are released as demanded and arrive at their own destination, "
     "and counters, waiting times, reported volumes and the cumulative curves of "
     "driving, walking and bus links and of stops record exactly what happened.",
     ["inputs", "configurations", "schedules", "histories"],
     "every placement of stops, itinerary, demand, bus capacity, dwell, boarding "
     "rate, link model and random schedule",
     "The only multimodal test loads one network and checks nothing about "
     "passengers or buses.",
     ["src/multimodal.cpp"],
     [("stops and exchange", "src/multimodal.cpp MNM_Busstop_Virtual::hold_bus, "
       "release_bus, receive_bus, MNM_Veh_Multimodal::board_and_alight"),
      ("walking and parking", "src/multimodal.cpp MNM_Walking_Link, "
       "MNM_Parking_Lot::evolve, MNM_Passenger_Factory"),
      ("driving links with stops", "src/multimodal.cpp MNM_Dlink_Ctm_Multimodal, "
       "MNM_Dlink_Pq_Multimodal"),
      ("releases and loading", "src/multimodal.cpp MNM_Origin_Multimodal, "
       "MNM_Dta_Multimodal::load_once")],
     observe=["place, path and itinerary position of every vehicle and "
              "passenger at every step", "bus pools, lines at stops, waiting "
              "passengers", "all counters and cumulative curves"],
     parts=[mm()],
     technique="stateless model checking: exhaustive enumeration of a bounded "
               "scenario space and of base schedules of the random choices on the "
               "real simulator; every step of every execution compared with a "
               "model of stops, buses and passengers",
     bounds="one network with two bus routes sharing stops, walking, transfers "
            "and a parking lot: {PQ, CTM}^2 links x 3 stop positions x 8 sets of "
            "itineraries x 4 passenger x 4 bus demands x 6 bus designs (capacity, "
            "dwell, door time, rates) x 6 settings (flow scalar, interval "
            "length, demand split, step limit) x 3 mixes of other traffic: a "
            "quarter of the 165,888 combinations | all, under 2 | 8 base schedules "
            "(quick | thorough)",
     assumptions=["nondeterminism enters only through libc rand(), which the "
                  "explorer owns", "fixed routing, explicit buses",
                  "with a flow scalar k every k-th bus at a stop stands for k "
                  "buses (the simulator's convention)"],
     note="Exhaustive within the stated bounds on the real code.")

NOT_APPLICABLE = []

STATELESS_API = (
    "stateless model checking through the public API: exhaustive enumeration of "
    "a bounded scenario space, of its random-choice schedules and of the "
    "queries, each answer compared with a replay of the recorded trips")

prop("P14", "Reported link and path travel times follow from the trips",
     "The travel time (and speed) reported for a link, class and entry time is "
     "the time from then until as many vehicles have left the link as had "
     "entered it, as the recorded curves show it, never below free flow and, "
     "where capped, never above twenty times free flow; averages are the mean of "
     "equally spaced probes. A path's travel time and cost for a departure time "
     "chain the link values, each taken at the arrival at that link, and "
     "queries beyond the loading are refused.",
     ["inputs", "configurations", "schedules", "histories"],
     "every network, schedule, registration order, link, path, class and "
     "departure time of the loading",
     "Tests check shapes and that the numbers are positive on two fixed "
     "networks.",
     ["src/dta_gradient_utls.cpp", "src/dlink.cpp", "src/ults.cpp",
      "macposts/_ext/dta.cpp", "macposts/_ext/mcdta.cpp"],
     [("link travel time", "src/dta_gradient_utls.cpp "
       "MNM_DTA_GRADIENT::get_travel_time, get_travel_time_robust, "
       "get_last_valid_time"),
      ("path travel time", "src/path.cpp, src/ults.cpp; macposts/_ext/dta.cpp "
       "get_path_tt, get_registered_path_tt"),
      ("link cost maps", "src/dta.cpp / src/multiclass.cpp "
       "build_link_cost_map")],
     observe=["every travel-time query of the Python API at every step"],
     parts=[api()], technique=STATELESS_API, bounds=API_BOUNDS,
     assumptions=API_ASSUME,
     note="Exhaustive within the stated bounds on the real code. When the "
          "number of entries falls strictly between two exit records, the "
          "earlier record's time is the convention.")

prop("P15", "Assignment-ratio matrices count the vehicles on path and link",
     "For every registered path, departure interval, registered link not leaving "
     "an origin directly, and time window, the reported assignment (in list, sparse-matrix and file form) is "
     "the number of vehicles of that path and interval that entered the link in "
     "that window, divided by the flow scalar and, for ratios, by the given path "
     "flow, with rows and columns in registration order. Nothing is reported "
     "twice or where no vehicle passed.",
     ["inputs", "configurations", "schedules", "histories"],
     "every network, schedule, registration subset and order, path, departure "
     "interval, link and window",
     "Tests check shapes and totals on two fixed networks.",
     ["src/dta_gradient_utls.cpp", "src/cc_tree.cpp", "src/dnode.cpp",
      "macposts/_ext/dta.cpp", "macposts/_ext/mcdta.cpp"],
     [("path-resolved curves", "src/cc_tree.cpp MNM_Tree_Cumulative_Curve"),
      ("records", "src/dta_gradient_utls.cpp add_dar_records, "
       "add_dar_records_eigen"),
      ("matrices", "macposts/_ext/dta.cpp get_dar_matrix, "
       "get_complete_dar_matrix, save_dar_matrix")],
     observe=["DAR lists, matrices and files vs. the recorded trips"],
     parts=[api()], technique=STATELESS_API, bounds=API_BOUNDS,
     assumptions=API_ASSUME + [
         "links that leave an origin directly are not resolved by path"],
     note="Exhaustive within the stated bounds on the real code.")

prop("P19", "Equilibrium path flows are nonnegative and keep the demand",
     "While the user-equilibrium and system-optimum solvers iterate, path flows "
     "stay nonnegative and add up to the demand of each OD pair (of each "
     "departure interval where departure times are fixed), and each update moves "
     "flow only onto a least-cost route - and best departure, where that is "
     "chosen - by the configured step. The path times, costs, gap, total travel "
     "time and marginal times they report follow from the link times and tolls "
     "of the loading they describe.",
     ["inputs", "configurations", "schedules", "histories"],
     "every network, demand, toll, algorithm, step size, target time, horizon "
     "and number of iterations",
     "No test runs a solver; a wrong flow update usually still converges to "
     "something.",
     ["src/due.cpp", "src/dso.cpp", "src/path.cpp", "macposts/_ext/dta.cpp"],
     [("flow updates", "src/due.cpp update_path_table_fixed_departure_time_"
       "choice, ..._gp_..., update_path_table"),
      ("best route and departure", "src/due.cpp get_best_route, "
       "get_best_route_for_single_interval"),
      ("gap", "src/due.cpp compute_merit_function*"),
      ("marginal costs", "src/dso.cpp get_link_marginal_cost; "
       "macposts/_ext/dta.cpp get_link_queue_dissipated_time"),
      ("drivers", "macposts/_ext/dta.cpp run_due, run_dso")],
     observe=["path table buffers and link cost maps before and after every "
              "iteration", "the record files of run_due and run_dso"],
     parts=[eq()], technique=STATELESS_API, bounds=EQ_BOUNDS,
     assumptions=EQ_ASSUME,
     note="Exhaustive within the stated bounds on the real code; least-cost "
          "routes are recomputed by brute force over all departure times.")

prop("P20", "Emission, mileage and waiting statistics match the trips",
     "The fuel, emissions, vehicle-miles, vehicle-hours and trips reported for "
     "the monitored links are, per class, the sums over all steps and vehicles "
     "on those links of distance travelled at the link's reported speed times "
     "the documented rate at that speed (kept within 5-65 mph); electric "
     "vehicles add to mileage, hours and trips only. The reported mean waiting "
     "time at a link's end is the time vehicles spent queued there divided by "
     "the number that entered.",
     ["inputs", "configurations", "schedules", "histories"],
     "every network, set of monitored links, label shares, electric label, "
     "class mix, schedule and length of the loading",
     "No test looks at these numbers.",
     ["src/emission.cpp", "src/multiclass.cpp", "src/dlink.cpp", "src/od.cpp",
      "src/io.cpp", "macposts/_ext/mcdta.cpp"],
     [("single-class totals", "src/emission.cpp MNM_Cumulative_Emission"),
      ("two-class totals", "src/multiclass.cpp "
       "MNM_Cumulative_Emission_Multiclass"),
      ("vehicles on a link by label", "get_link_flow_emission* of each link "
       "model"),
      ("labels", "generate_label; read_origin_*_label_ratio"),
      ("waiting time", "src/multiclass.cpp "
       "get_average_waiting_time_at_intersection*")],
     observe=["printed statistics and waiting times after the loading"],
     parts=[api()], technique=STATELESS_API,
     bounds=API_BOUNDS + "; 6 settings of monitored links, label shares and "
     "electric labels",
     assumptions=API_ASSUME,
     note="Exhaustive within the stated bounds on the real code; the emission "
          "rate polynomials are restated in the oracle.")

prop("P21", "The network built is the one the input files describe",
     "The nodes, links, origins, destinations, demand, paths, shares, tolls, "
     "labels and scheduled changes of a built network are exactly those in the "
     "input files, in the documented units, whatever the order of independent "
     "rows, comments, blank lines, spacing and line ends. Input with a missing "
     "file, row, field or setting, an unknown type, a non-number or a reference "
     "to something undefined is rejected with an error, never misread or read "
     "forever. The input check accepts a network exactly when its counts agree, "
     "origins and destinations are sources and sinks, and every destination can "
     "be reached.",
     ["inputs", "configurations"],
     "every network, every layout of its input files and every such fault",
     "The tests read two well-formed folders; a row that is skipped or misread "
     "goes unnoticed.",
     ["src/io.cpp", "src/multiclass.cpp", "src/ults.cpp", "src/dta.cpp",
      "src/factory.cpp", "src/path.cpp"],
     [("readers", "src/io.cpp MNM_IO::build_*, load_path_table, read_*"),
      ("two-class readers", "src/multiclass.cpp MNM_IO_Multiclass"),
      ("settings", "src/ults.cpp ConfigFile, MNM_ConfReader"),
      ("hook-up and check", "src/dta.cpp hook_up_node_and_link, is_ok, "
       "check_origin_destination_connectivity")],
     observe=["the built network after every edit of the input files",
              "the exception after every fault"],
     parts=[inp()],
     technique="exhaustive enumeration of a bounded space of input folders "
     "(networks x layout edits, pairs of edits, faults) executed on the real "
     "readers",
     bounds="values: {8 topologies} x {CTM, LQ, PQ, mixed} x 5 profiles x scalar "
     "{1,3 | 1,2,3,7,10} x 3 routings x 5 demand levels x both class models x "
     "{2 | 16} sets of optional files; layout: every single edit (insert a "
     "comment or blank line at each position, indent, trailing blanks, wide "
     "spacing, CR, CR LF, no final newline, all transpositions, rotations and "
     "the reversal of rows) of each of up to 13 files of 8 folders; thorough: "
     "all pairs of such edits of one file; path-order: all orders of the paths; "
     "faults: each row deleted, each field dropped or garbled, each reference "
     "undefined, each file and setting missing; consistency: each link dropped "
     "or reversed, each node given an extra exit, an isolated node",
     assumptions=["fields are separated by blanks (tabs are not supported)",
                  "files with a header line take no comments",
                  "single-class node, link and demand rows may have further "
                  "columns"],
     note="Exhaustive within the stated bounds on the real code.")

prop("P28", "Multimodal measurements follow from the trips",
     "After a multimodal loading every figure obtained through the Python API - "
     "cumulative counts, inflows, speeds, travel times and costs of driving, "
     "walking and bus links, of paths and of whole trips, with and without caps "
     "and averaging, trip statistics, waiting, en-route and queue records, and "
     "free-flow figures - is the one that follows from the movements of cars, trucks, buses and passengers. "
     "The dynamic assignment ratios of every class state exactly which share of "
     "each path's departures of an interval entered each link or stop in each "
     "interval. "
     "Node and link sequences of paths are converted into each other exactly, "
     "and sequences that form no path are refused.",
     ["inputs", "configurations", "schedules", "histories"],
     "every multimodal scenario, registration of links and paths, schedule, "
     "query and query time",
     "Tests never query a multimodal loading.",
     ["macposts/_ext/mmdta.cpp", "src/multimodal.cpp"],
     [("queries", "macposts/_ext/mmdta.cpp"),
      ("assignment ratios and travel times", "src/multimodal.cpp "
       "MNM_DTA_GRADIENT functions")],
     observe=["every answer of the Python object after the loading",
              "the recorded trips of all vehicles and passengers"],
     parts=[mmapi()],
     technique=STATELESS_API,
     bounds="the scenario space of P27, in turn as it is, crowded, and cut short "
            "by the number of intervals: an eighth of the 165,888 combinations, "
            "one schedule | all, three variants, 2 base schedules (quick | "
            "thorough); every link and path registered; query times over the "
            "whole loading",
     assumptions=["nondeterminism enters only through libc rand(), which the "
                  "explorer owns", "fixed routing, explicit buses",
                  "all paths registered, arrays contiguous"],
     note="Exhaustive within the stated bounds on the real code.")

prop("P29", "Delivery tours and electric vehicles keep to their plans",
     "A vehicle with a tour drives all legs of its tour in the given order, "
     "waits the pickup time of each intermediate stop before it leaves again, "
     "and none is lost, duplicated or finished early. "
     "An electric vehicle that needs charging on a leg charges exactly once on "
     "it, at a candidate station of that leg with the lowest total cost when it "
     "chooses, and keeps to that choice; stations take vehicles into the "
     "shortest line, serve each line in order of arrival, and hold every vehicle "
     "for exactly the charging time. "
     "Releases, counters, curves, saved station records and the length of the "
     "loading are exactly what the demand and the movements imply.",
     ["inputs", "configurations", "schedules", "histories"],
     "every set of tours, demand, waiting time, share of electric vehicles, "
     "driving range, placement and size of charging stations, candidate list and "
     "random schedule",
     "The tests never load a network with tours or charging stations.",
     ["src/delivery_traffic.cpp", "src/ev_traffic.cpp"],
     [("tours", "src/delivery_traffic.cpp MNM_Origin_Delivery, "
       "MNM_Destination_Delivery, MNM_Dta_Delivery"),
      ("charging stations", "src/ev_traffic.cpp MNM_Charging_Station, "
       "MNM_Veh_Electrified"),
      ("choice of station and route", "src/ev_traffic.cpp "
       "MNM_Routing_Adaptive_With_POIs, MNM_Routing_Hybrid_With_POIs"),
      ("loading", "src/ev_traffic.cpp MNM_Dta_EV")],
     observe=["place of every vehicle in the middle and at the end of each step",
              "lines of every station", "counters, curves and saved files"],
     parts=[ev()],
     technique="stateless model checking: exhaustive enumeration of a bounded "
               "scenario space and of base schedules of the random choices on the "
               "real simulator; every step of every execution compared with a "
               "replay of tours, stations and choices from the input alone",
     bounds="tours: 9 sets of tours x 3 demands x 3 pickup waits x 3 adaptive "
            "shares x flow scalar x capacity x link model x toll x demand split "
            "(7,776 cases, all in both tiers); charging: 5 sets of tours x demand "
            "x wait x 3 adaptive shares x flow scalar x share of electric vehicles "
            "x 3 roadside shares x slots x 3 charging times x 4 candidate lists x "
            "3 ranges x capacity (a quarter of 103,680 | all), under 2 | 6 base "
            "schedules (quick | thorough)",
     assumptions=["nondeterminism enters only through libc rand(), which the "
                  "explorer owns", "two origins, two destinations, two stations, "
                  "at most three legs", "ties between equally good stations may "
                  "be broken either way"],
     note="Exhaustive within the stated bounds on the real code.")

prop("P24", "Well-formed input never crashes, hangs or corrupts memory",
     "Building, loading and querying any well-formed network through the core "
     "library or the Python API never crashes, throws, loops forever, or reads "
     "or writes memory out of bounds or after release. "
     "Nor does it rely on undefined arithmetic (integer overflow, bad shifts or "
     "casts, division by zero) or release memory the wrong way.",
     ["inputs", "configurations", "schedules", "histories"],
     "every network, demand, link-model mix, registration, schedule, query and "
     "sequence of calls",
     "Tests run two fixed networks without sanitizers; a stray access usually "
     "goes unnoticed.",
     ["src", "macposts/_ext"],
     [("loading", "src/dta.cpp, src/dlink.cpp, src/dnode.cpp, "
       "src/multiclass.cpp, src/multimodal.cpp, src/delivery_traffic.cpp, "
       "src/ev_traffic.cpp"),
      ("queries", "src/dta_gradient_utls.cpp, macposts/_ext/dta.cpp, "
       "macposts/_ext/mcdta.cpp"),
      ("algorithms", "src/shortest_path.cpp, src/path.cpp, src/limits.cpp, "
       "src/graph.h, src/cc_tree.cpp")],
     observe=["AddressSanitizer, UndefinedBehaviorSanitizer and libstdc++ "
              "assertions over every explored execution", "a progress watchdog"],
     parts=[sim(variant="san"), alg(variant="san"), comp(variant="san"),
            api(variant="san"), eq(variant="san"), inp(variant="san"),
            pub(variant="san"), mm(variant="san"),
            mmapi(variant="san"), ev(variant="san")],
     technique="stateless model checking of the real code built with run-time "
     "memory and undefined-behaviour monitors: the executions enumerated for the "
     "other properties, each judged by the monitors",
     bounds="the loading, algorithm, component and API spaces of P01-P29 (with "
     "one base schedule each, shallower deviation and prefix depth in the "
     "sanitized build), all cases up to the per-family caps recorded in the "
     "evidence",
     assumptions=SIM_ASSUME + [
         "leaks are not judged"],
     note="Exhaustive within the stated bounds on the real code.")
