#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for the property texts)."""
import json, pathlib
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": state, "meaning": "state the property constrains", "where": files[0]}]
    if observe: a["observe_at"] = [observe]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

D="src/routing/dijkstra.rs"; PA="src/routing/paths.rs"; G="src/network/graph/mod.rs"; B="src/network/graph/building.rs"
p("C01","Routing returns a cheapest route, and none exactly when none exists",
  "For every graph with positive metrics and every vector of non-negative weights, routing from a source to a destination returns a route whose weighted cost is minimal among all routes between them, up to the library's comparison accuracy. It returns no route exactly when the destination is not reachable from the source, and it always terminates without crashing; negative weights yield no route.",
  ["inputs","configurations"],"all graphs (parallel edges, loops, sinks, disconnected parts, any size), all node pairs, all non-negative weight vectors",
  "The tests route on five fixed maps; optimality and termination of the bidirectional search must hold for every graph, tie pattern and weight vector.",
  [D,"src/helpers/mod.rs",G],
  [("compute_best_path","bidirectional search and its stop criterion"),("init_query","sizing of search arrays"),("dot_product","weighted edge cost")],
  "search queue, per-direction costs and predecessors","returned route of a routing query")
p("C02","A returned route is a contiguous walk from source to destination",
  "Whenever routing returns a route, its edges exist in the graph, the first one leaves the source, each following one starts where the previous one ended, and the last one ends in the destination. A route from a node to itself is empty, and the route reports the queried source and destination.",
  ["inputs","configurations"],"all graphs, all node pairs, both routing algorithms, all non-negative weights",
  "A wrong splice of the forward and backward half only shows for particular meeting nodes; tests compare a few known routes.",
  [D,PA,G],
  [("compute_best_path","route reconstruction from both predecessor arrays"),("dst_idx","edge endpoint lookup for both directions")],
  "predecessor arrays of both directions","edges of the returned route")
p("C03","Routing on a contraction hierarchy agrees with plain routing",
  "On every correctly contracted graph (levels plus all needed shortcuts) the hierarchical search returns a route exactly when plain routing does, and of the same weighted cost up to comparison accuracy. On a graph without levels and shortcuts the hierarchical search equals plain routing, too.",
  ["inputs","configurations"],"all contracted graphs, contraction orders, node pairs and weights for which the contraction preserves distances",
  "Only one small contracted map is in the tests; pruning by level and the stop criterion must be safe for every hierarchy.",
  [D,B,G],
  [("compute_best_path","level pruning and early break"),("is_meeting_costnode","meeting test of the hierarchical search"),("finalize","edges sorted by descending level of their other end")],
  "edge order per node, node levels","cost of routes of both algorithms")
p("C04","A reused router answers exactly like a fresh one",
  "A router that has already answered any sequence of queries, on the same or on other graphs of any size and with either algorithm, answers the next query with the same result as a newly created router. It never crashes because of its past.",
  ["histories","inputs"],"all finite sequences of queries over graphs of growing and shrinking size, both algorithms and arbitrary weights, including unsuccessful queries",
  "Stale costs, predecessors or visited marks only surface after particular query histories.",
  [D],
  [("init_query","reset of touched entries and visited marks"),("compute_best_path","recording of touched entries")],
  "costs, predecessors, is_visited, touched, queue","result of the n-th query compared to a fresh router")
p("C05","Flattening and costs of a route equal its original edges",
  "Flattening a route replaces every shortcut recursively by the two edges it stands for, keeps source, destination, order and connectivity, and leaves only edges that are no shortcuts. The costs of a route, flattened or not, are the component-wise sums of its edges' metrics; cyclic shortcut references are reported as error instead of running forever.",
  ["inputs"],"all routes over all graphs with arbitrarily nested, shared or cyclic shortcut references, all metric dimensions",
  "Nesting depth and sharing of shortcuts are unbounded; tests flatten a handful of routes.",
  [PA,"src/helpers/mod.rs",G],
  [("try_flatten","stack-based expansion"),("calc_costs","sum of metrics"),("sc_edges","shortcut lookup")],
  "stack of pending edges, accumulated costs","edges and costs of the flattened route")
p("C06","The built graph contains exactly the given edges, in both directions",
  "After building, the graph's edges are exactly the inserted edges, where equal duplicates (same id, ends and metrics up to accuracy) may be merged; each keeps its ends, id and metrics. The leaving edges of each node are exactly the edges starting there, the entering edges exactly those ending there, and lookups by end nodes or by edge id find an edge exactly when there is one, for every node without crashing.",
  ["inputs"],"all edge lists: any order, ids, parallel edges, loops, duplicates, nodes without leaving or entering edges",
  "The compressed representation (offsets, permutations, deduplication) has corner cases at nodes without edges, at the ends and with duplicates that the fixed maps do not have.",
  [B,G],
  [("finalize","sorting, deduplication, offset arrays, backward mapping"),("offset_indices","range of a node's edges"),("between","lookup by end nodes"),("try_idx_from","lookup by edge id")],
  "fwd/bwd destinations, offsets, mapping, edge ids","edge accessors of the finished graph")
p("C07","Node lookup is exact and keeps ids, coordinates and levels",
  "The graph's nodes are exactly the ends of the inserted edges, each once and ordered by id, with the coordinate and level given for it (level zero if none is given). Looking up an id yields its node exactly if it exists, and a node of an edge without coordinates makes building fail with an error; nodes belonging to no edge are ignored.",
  ["inputs"],"all edge and node lists: any ids including extreme ones, any order, repeated, missing and superfluous nodes",
  "Duplicate suppression and binary search depend on the insertion order and id pattern.",
  [B,G,"src/network/routes.rs"],
  [("EdgeBuilder::insert","collecting node ids with local duplicate suppression"),("EdgeBuilder::next","sort and dedup of ids"),("NodeBuilder::insert","assignment of coordinate and level"),("idx_from","binary search")],
  "node_ids, node_coords, node_ch_levels","node accessors of the finished graph")
p("C08","Shortcuts refer to the edges they were created from",
  "After building, each inserted shortcut (unless merged with an equal edge) is still a shortcut and refers, in order, to the very edges (same ends, id and metrics) that its two input positions denoted, and no other edge is a shortcut. This holds although edges are reordered and duplicates are removed.",
  ["inputs"],"all edge lists with shortcuts, any insertion order, any positions of duplicates before, between and after the referenced edges",
  "References are remapped twice (sorting, deduplication); errors need duplicates at particular positions.",
  [B,G],
  [("finalize","remapping by new indices and by removed indices, shortcut offsets"),("is_shortcut","offset difference"),("sc_edges","offset lookup")],
  "proto_shortcuts, removed_indices, sc_offsets, sc_edges","shortcut lookup of the finished graph")
p("C09","Metrics read into the graph are never below the accuracy",
  "Every metric given for an edge is stored unchanged if it is clearly positive and is raised to the accuracy if it is zero within the accuracy. Any metric that is negative beyond the accuracy or not a number makes building fail with an error.",
  ["inputs"],"all metric values including zero, values around the accuracy, negative, infinite and not-a-number",
  "The guarantee routing depends on must hold for every float; tests contain ordinary values only.",
  [B,"src/approximating.rs"],
  [("add_metrics","correction of values around zero"),("finalize","check of stored metrics")],
  "graph metrics","metrics of the finished graph or the error")
p("C10","Normalised metrics are divided by their mean, which is remembered",
  "If normalisation is configured, every metric of the finished graph is the original value divided by the mean of this metric over all edges (at least the accuracy), and the remembered mean is this mean. Without normalisation no value changes and no mean is reported; a zero mean or a graph without edges is an error.",
  ["inputs","configurations"],"all edge lists, metric dimensions and values",
  "The relation between all values and their mean must hold for every graph; one test map covers it.",
  [B,"src/helpers/mod.rs"],
  [("finalize","mean computation and division"),("helpers::add","component-wise sum"),("MetricAccessor::mean","access to means")],
  "graph metrics and means","metrics of the finished graph")
p("C11","Converted and generated metrics follow their units",
  "Converting a metric scales it by the factor between the two units (metres, kilometres; seconds, minutes, hours; plain numbers unchanged), and asking for an impossible conversion or calculation is an error. Generated metrics get the value of their rule (copy, conversion in place, quotient of distance and speed or time, great-circle distance, default value, values merged from a file by edge id) for every edge, leaving other metrics untouched and keeping ids, units and values aligned.",
  ["inputs","configurations"],"all unit pairs and values, all lists of generating rules over all graphs",
  "There are 64 unit pairs times two tables and arbitrary rule sequences; tests touch a few.",
  ["src/configs/parsing/generating/edges/metrics.rs","src/configs/parsing/edges/metrics.rs",B],
  [("try_convert","conversion tables"),("try_calc","calculation table"),("finalize","generating section")],
  "graph metrics, units and ids of the config","metrics and config of the finished graph")
p("C12","Street tags are interpreted as documented",
  "Each street category has its documented default speed and at least one lane, and the documented use by cars, bicycles and pedestrians (streets marked as uncomfortable are used only if drivers are not picky, and are never used where the table says no). A speed tag that is a plain number is taken but never below 5 km/h, unusable speed tags fall back to the category's default, a one-way tag yields one direction (reversed where it says so), and missing or unknown one-way tags yield both directions.",
  ["inputs","configurations"],"all street categories, vehicles, pickiness values and all tag values",
  "Tag values are arbitrary strings; tests parse one map file.",
  ["src/defaults.rs","src/network/mod.rs","src/io/parsing/network/graph/pbf.rs"],
  [("parse_maxspeed","speed tag"),("parse_oneway","one-way tag"),("is_for","access per vehicle"),("maxspeed","default speeds"),("FromStr","category of a tag")],
  None,"interpretation of a tagged way")
p("C13","Map files in text format are read exactly as configured",
  "For every configuration and every map file consistent with it, each edge and node line yields exactly the edge or node whose configured columns hold the written values, columns marked as ignored have no effect, and comments and blank lines are skipped. Malformed or missing values, missing counts, and configurations without node id, coordinates, or with a single shortcut column are reported as errors, never as crash or as different data.",
  ["inputs","configurations"],"all column orders, all well-formed files with arbitrary comments, and all malformed lines",
  "Columns are user-defined and lines are arbitrary text; tests use six fixed files.",
  ["src/io/parsing/network/graph/fmi.rs","src/io/parsing/network/graph/mod.rs","src/helpers/mod.rs"],
  [("ProtoShortcut::try_from_str","edge line"),("ProtoNode::from_str","node line"),("preprocess","line ranges from counts"),("check_config","config check"),("is_line_functional","comments and blank lines")],
  "line ranges","parsed edges and nodes, or the error")
p("C14","A written graph is faithful and can be read back",
  "A written map file or edge list contains, per node and edge in graph order, the value of every requested column, so that reading a written map back yields the same nodes, edges, levels, metrics and shortcuts. Shortcuts are left out exactly if configured, denormalised output is value times mean, an unknown column is an error, and an existing file is never overwritten.",
  ["inputs","configurations"],"all graphs, column selections and writing options",
  "Fidelity must hold for every column and option combination; tests write two maps.",
  ["src/io/writing/network/graph/fmi.rs","src/io/writing/network/mod.rs","src/io/writing/network/edges.rs"],
  [("Writer::write","map writer"),("write_edges_to_file","edge columns"),("write_external_values","values per edge id")],
  None,"written file and the graph read back from it")
p("C15","Route files are read exactly and generated ones contain real routes",
  "Every route line of a route file yields its source, destination and count in file order, comments are skipped, and malformed lines are errors. A generated route file contains distinct pairs of different, connected nodes, sorted, at most as many as requested, all such pairs if all are requested, and its count line equals their number, so it can be read back.",
  ["inputs","configurations"],"all route files, all graphs, seeds and requested counts",
  "Distinctness and connectivity must hold for every graph and seed; tests write one file.",
  ["src/io/writing/routing/random_or_all.rs","src/io/parsing/routing/routes.rs"],
  [("Writer::write","sampling or enumeration of pairs"),("preprocess","count line"),("parse_route_pairs","route lines")],
  None,"route file and parsed pairs")
p("C16","Routing weights follow the routing configuration",
  "For every routing configuration each listed metric gets its given weight (one if omitted) and tolerated scale (unlimited if omitted) at exactly this metric's position, and metrics not listed get weight zero and unlimited scale. Unknown metrics and unreadable scales are errors, and the chosen algorithm is the configured one.",
  ["configurations"],"all metric sets, all lists of routing entries",
  "Position mapping depends on the order in both configurations.",
  ["src/configs/routing.rs","src/configs/parsing/edges/metrics.rs"],
  [("try_from_proto","weights by metric position"),("ProtoEntry::try_from","defaults of an entry"),("try_idx_of","metric position")],
  None,"resulting routing configuration")
p("C17","Tolerant comparison is consistent",
  "For all finite numbers, values differing by clearly more than the accuracy compare exactly like the plain numbers, values differing by less than the accuracy compare equal, equality is reflexive and symmetric, and ordering agrees with equality and is antisymmetric. Comparisons of lists are component-wise: at most (at least) holds exactly if it holds for all components, and equality exactly if all components are equal.",
  ["inputs"],"all finite floats, coordinates, options and lists of them",
  "Rounding makes corner cases around the accuracy; tests have no direct cases.",
  ["src/approximating.rs"],
  [("approx","rounding to accuracy"),("PartialEq for Approx<f64>","equality"),("PartialOrd for Approx<f64>","ordering"),("PartialOrd for Approx<&[T]>","component-wise comparison")],
  None,"results of comparisons")
out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(x, ensure_ascii=False) + "\n" for x in P))
