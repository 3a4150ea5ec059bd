NOT_APPLICABLE = []
TRUSTED = ["Verus 0.2026.09.13 and its Z3", "tools/extract (mechanical extraction rules, see DESIGN.md)", "rustc 1.63 compiling the same source text"]
ASSUME = ["The bounded stand-in samples inputs; what it covers is not counted as proved."]
R = {
"C01": "random graphs (1-13 nodes, parallel edges, loops, sinks, ties) x all node pairs x weight vectors, routed by the real crate and compared with an independent Bellman-Ford; distinct = distinct (graph, weights)",
"C02": "as C01, every returned route is walked edge by edge; distinct = distinct graph",
"C03": "random graphs contracted by an independent witness-free contraction, both algorithms compared; distinct = distinct contracted graph",
"C04": "random query histories over several graphs on one router, compared with fresh routers; distinct = distinct history",
"C05": "random nested, shared, cyclic shortcut references and routes, compared with a recursive expansion; distinct = distinct reference structure",
"C06": "random edge lists built with the real builder, accessors compared with the list; distinct = distinct list",
"C07": "random edge and node lists with extreme ids, node accessors compared; distinct = distinct list",
"C08": "random edge lists with shortcuts and duplicates, shortcut references compared; distinct = distinct list",
"C09": "metric values around zero, around the accuracy, negative, infinite, NaN; distinct = distinct value list",
"C10": "random graphs with normalisation, compared with an independently computed mean; distinct = distinct graph",
"C11": "all unit pairs with sampled values, random rule lists; distinct = distinct rule list and graph",
"C12": "all street categories x vehicles x pickiness, generated pbf files with random tags; distinct = distinct tag set",
"C13": "random column orders and map files, comments, malformed lines; distinct = distinct file",
"C14": "random graphs written and read back with random columns and options; distinct = distinct graph and options",
"C15": "random route files and generated ones; distinct = distinct file/graph/seed",
"C16": "random metric sets and routing entries; distinct = distinct config",
"C17": "random and adversarial finite floats around multiples of the accuracy; distinct = distinct pair",
}
REAL = "f64 arithmetic is treated as exact arithmetic on the extended reals (rounding and overflow are not modelled)"
STRS = "a string is an abstract value; two string literals are told apart by a collision-checked code, std's parse/trim/lowercase are uninterpreted functions of it"
OUTS = "text output is a log of what is written (write!/writeln! of literals and displayed values, in order); writing to an opened file succeeds; create_new fails exactly if the file exists"
FILES = "a readable file is a list of lines that stays the same while it is read (std's BufReader::lines, split_whitespace, chars, starts_with, slicing and parse are assumed contracts); opening an existing file succeeds; header counts add up to less than 2^64"
unit("helpers", ["C10"])
unit("graph", ["C06", "C07", "C08", "C15"])
unit("paths", ["C05"])
unit("approx", ["C17"])
unit("units", ["C11"])
unit("tags", ["C12"])
unit("pbf", ["C12"])
unit("rcfg", ["C16"])
unit("gen", ["C11"])
unit("pcfg", ["C11", "C12", "C13", "C16"])
unit("wcfg", ["C14", "C15"])
unit("fin", ["C06", "C07", "C08", "C09", "C10"])
unit("exts", ["C11", "C12", "C13", "C14", "C15"])
unit("fmi", ["C13"])
unit("write", ["C14"])
unit("routes", ["C15"])
unit("rall", ["C15"])
unit("dij", ["C01", "C02", "C03", "C04"])
DIJ = [REAL, "std's BinaryHeap hands out an entry than which no other is less in CostNode's order (assumed contract of std); Reverse reverses it",
       "pending costs that compare as equal under Approx are equal (the tolerance inside the queue's order is not modelled)",
       "graph invariants (offsets, index ranges, metric widths) and finite non-negative metrics are preconditions of the search; the graph accessors rely on the same invariant; GraphBuilder::finalize is verified to establish it for non-empty graphs (unit fin, C06-C09)",
       "weights are finite; a negative one makes the answer `none` (verified)"]
BUILD = [REAL, "std's sort_by_key, sort_unstable, dedup, dedup_by_key, binary_search, swap, splice and shrink_to_fit behave as documented (assumed contracts)",
         "the generating section of finalize enters unit fin through its contract, which unit gen (C11) proves of its body",
         "preconditions: the configuration lists as many metric ids as units; files to be merged are readable and have the configured columns",
         "fewer than 2^64-1 nodes and edges; every inserted edge has as many metrics as the config lists (parsers establish it, stand-in)"]
LV = {
"C14": ("proof", "fmi::Writer::write, write_edges_to_file, the edge-list writer (write, write_external_values) and the writing configurations (document to Config, From impls) are verified end to end against the graph: the log of everything written is exactly the notes, the three counts, one line per node and one per edge in graph order, each requested column holding that node's or edge's value (value times mean if denormalising), shortcuts left out exactly if configured; an unknown column or an existing file is an error and nothing else is.", [REAL, STRS, OUTS, "reading back is the composition with C13's contracts under: std parses what Display printed to the same value; that composition itself is only exercised by the stand-in", "iterating over an accessor visits all indices in order; the graph and its configuration belong together (one metric column per metric, edge ids known if asked for), a height column is not requested (the code panics: not implemented)"]),
"C15": ("proof", "Reading (preprocess, parse_route_pairs, count line, comments, errors) is verified for all files; the writer of random or all routes is verified for all graphs, seeds and counts: the file's rows are strictly ascending pairs of different, connected nodes, at most as many as requested, all such pairs if all are requested, the count line is their number, and the loop ends. The configuration of the writer (document to Config) is verified. compute_best_path enters through its contract, which unit dij proves.", [REAL, STRS, FILES, OUTS, "rand's Uniform yields numbers below its bound (any such sequence: the result does not depend on the seed); HashSet::insert, sort and the progress bar's counters behave as documented (assumed contracts)", "n*n fits into usize; graph invariants, finite weights and metrics, CH edges sorted by level are preconditions", "reading a written file back is exercised by the stand-in"]),
"C01": ("proof", "Dijkstra::compute_best_path and everything it calls (init_query, visit, meeting test, edge accessors, dot_product, CostNode's order) are verified for all graphs, weights and queries: it terminates, reports none exactly if there is no walk, and the reported walk costs no more than any other (lem_optimal).", DIJ),
"C02": ("proof", "compute_best_path is verified to return edges that chain from source to destination, with the queried indices and ids, empty exactly for source = destination when queried so (lem_route).", DIJ),
"C03": ("proof", "compute_best_path with CH is verified to return the cheapest up-down walk; lem_ch_same: on a distance-preserving hierarchy answers and costs equal the plain ones, lem_flat: equal levels are such a hierarchy.", DIJ + ["leaving edges are sorted by level, highest first (GraphBuilder::finalize is verified to establish it, unit fin)"]),
"C04": ("proof", "init_query is verified to reach, from whatever a finished query left behind, a state that depends on the query only; compute_best_path re-establishes the reuse invariant on every exit, and the cost of its answer is determined by the query (lem_determined).", DIJ),
"C05": ("proof", "Path::flatten, flatten_shortcuts, calc_costs and their helpers are verified: the flattened route is the recursive expansion, costs are sums, cycles are errors.", [REAL]),
"C12": ("proof", "The pbf reader (preprocess, parse_ways, parse_nodes, Parsing::parse, StreetCategory::from, kissunits' from_decimicro) is verified end to end: from the file's objects, exactly the ways usable for the configured vehicle become edges between neighbouring nodes, forwards and back unless one-way, reversed if tagged so, each with the configured columns' values; nodes get the coordinates of their last object; unsupported columns are errors and nothing else is. The tables it uses (speed, lanes, vehicle use, picky), parse_maxspeed, parse_oneway and from_str are verified against the documented tables.", [REAL, STRS, "osmpbfreader yields the same sequence of objects on every pass over a file, in an order that does not matter here; opening an existing file succeeds (assumed contract)", "a lane count is only known to be at least one; whether an at-most-unpicky category serves unpicky drivers is left open, as documented", "fewer than 2^62 node references in the file"]),
"C16": ("proof", "try_from_proto, ProtoConfig/ProtoEntry::try_from, try_idx_of are verified: each listed metric's weight and scale at its position, defaults elsewhere, errors exactly for unknown ids and unreadable scales. edges::Config::try_from is verified to give every metric one unit and one id, distinct, in the order of the columns. Serde's yaml reading is outside (stand-in).", [REAL, STRS] ),
"C13": ("proof", "fmi::Parser (preprocess, parse_ways, parse_nodes), ProtoShortcut::try_from_str, ProtoNode::from_str, check_config, is_line_functional and Parsing::parse are verified end to end: from the file's text, the configured columns' values become exactly the edges and nodes handed to finalize; comments and blank lines do not count; every malformed line, too few counts and unusable configurations are errors and nothing else is; no panic on any line. The conversions from the document to the configuration (Raw, Proto, Config of nodes, edges, vehicles) are verified to keep every entry, its name, id and unit in its place; duplicate ids are errors (c13_columns_as_listed). The choice of the reader by extension (ext_from, find_supported_ext, from_path, Parser::parse) is verified.", [STRS, FILES]),
"C17": ("proof", "Every comparison operator of Approx for numbers and lists is verified against one tolerant order.", [REAL]),
"C11": ("proof", "try_convert, try_calc, the unit tables (From impls) and kissunits are verified; every generating rule of finalize (default value, great-circle distance, copy, conversion in place, calculation, merging a file, ids) and the loops over the rules are verified for all graphs and rule lists: the graph after each rule is the one before it with exactly the rule's column, unit, id and category, everything else untouched; ids, units and values stay aligned; duplicate ids, impossible units, merging anything but a csv-file with known edge ids are errors, and nothing else is (refused). finalize is verified to be insertion, then the rules, then normalisation (regen). The conversions from the document to the rules are verified (c11_rules_as_listed).", [REAL, STRS, FILES, "the great-circle formula itself (kissunits) is uninterpreted: a fixed function of the two coordinates; the stand-in compares it with an independently written haversine formula", "a rule naming a metric which does not exist ends the program (documented panic); files to be merged are readable and have the configured columns (precondition)", "the check of a merged file's extension enters unit gen through its contract, which unit exts proves"]),
"C06": ("proof", "EdgeBuilder/NodeBuilder insert and next and GraphBuilder::finalize are verified end to end: every inserted edge is an edge of the graph or merged with an equal one, nothing else is; both adjacency lists hold exactly the edges of each node; ids are unique, found by lookup. The accessors of the finished graph are verified against that invariant.", BUILD),
"C07": ("proof", "The builders and finalize are verified: nodes are exactly the ends, ascending, each with the coordinate and level given last (zero otherwise), a missing coordinate is an error; id lookup and node accessors are verified.", BUILD),
"C08": ("proof", "finalize is verified: an edge is a shortcut exactly if the input it was made of is, and its references are the edges the two input positions became (built, is_sc); out-of-range references are errors; shortcut accessors are verified.", BUILD),
"C09": ("proof", "add_metrics and finalize are verified: stored metrics are the given ones, raised to the accuracy if zero within it; a metric neither (negative, NaN) is an error and the only metric-dependent one without normalisation and generation.", BUILD),
"C10": ("proof", "finalize's normalisation is verified: each value divided by the mean over all edges, at least the accuracy, means remembered; error exactly for a zero mean or no edges; without normalisation nothing changes.", BUILD),
}
for k, v in R.items():
    if k in LV: prop(k, LV[k][0], LV[k][1], v, assume=LV[k][2])
    else: prop(k, "exploration", "Bounded stand-in on the real crate.", v)
