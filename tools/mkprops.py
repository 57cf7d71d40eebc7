import json
P=[]
DC='dany/dem_conditioning.py'; FD='dany/flow_directions.py'; SU='dany/stream_util.py'
def p(id,title,st,over,text,why,files,mech,obs,state=None):
    d={"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":a,"where":b} for a,b in mech],"observe_at":obs,"hook_needed":None}}
    if state: d["anchors"]["state"]=[{"name":a,"meaning":b,"where":c} for a,b,c in state]
    assert len(title)<=80,title
    P.append(d)
W="The tests run one or two fixed basins (a Sagehen 50 m/100 m raster or a saved grid) and compare with stored arrays; "
p("C01","Sink filling leaves a terrain that drains to the grid boundary",
  "After fill_sinks without a stream mask, every cell has a path over neighbouring cells (sharing a vertex) to a boundary cell along which the filled elevation strictly decreases ('priority' and 'drain' methods with eps > 0) or never increases ('complete'). No cell is lowered, boundary cells keep their elevation, all values are finite, the result has the shape of the input and the input is not modified. This holds for structured, vertex and unstructured grids and for float, single precision and integer elevations.",
  ["inputs","configurations"],"all meshes (rectangular, triangular, quadtree, jittered, Voronoi), elevations, eps and fill methods",
  W+"each fill method is compared on a single DEM, where a wrong neighbour, boundary cell or eps on another mesh is never visited.",
  [DC],[("priority flood",DC+":_priority_flood"),("Planchon-Darboux iteration",DC+":_flood_and_drain_fill"),("edge node identification",DC+":_identify_edge_nodes")],["return value of fill_sinks"])
p("C02","Sink filling raises cells no more than draining requires",
  "The 'complete' fill equals the lowest surface at or above the DEM on which every cell has a non-ascending path to the grid boundary (spill elevation), 'drain' equals the lowest surface at or above the DEM on which every interior cell is at least eps above its lowest neighbour, and 'priority' stays between the spill elevation and the spill elevation plus eps for each cell of a shortest way through the depression from its spill point. A DEM that already drains by at least eps per cell is returned unchanged, and filling a filled DEM again with the same method changes nothing. With the two priority-flood methods cells without data (NaN) stay NaN and act as open boundaries for the cells around them.",
  ["inputs","configurations"],"all meshes, elevations, NaN patterns, eps and fill methods",
  W+"overfilling by an order-dependent flood shows only for other relief, nested depressions, ties or NaN cells.",
  [DC],[("heap ordered flood",DC+":_priority_flood"),("drain iteration",DC+":_inner_flood_and_drain_fill")],["return value of fill_sinks"])
p("C03","Stream-mask conditioning drains every cell to the stream network",
  "After fill_sinks with a stream mask every cell has a descending (non-ascending for 'complete') path to a masked cell, no cell is lowered and no cell off the mask is raised above the spill elevation towards the streams by more than eps per cell, except where a raised stream cell forces it. Stream cells keep their elevation, except that a stream cell lying below all of its (two or more) stream neighbours is raised to eps above the lowest of them. Masks may be boolean, numbered or floating with NaN for land. Any requested method other than 'complete' acts like 'priority'.",
  ["inputs","configurations"],"all meshes, elevations, masks (scattered, connected, touching the boundary) and methods",
  "No existing test passes a stream mask at all.",
  [DC],[("stream flood (Condon and Maxwell; Lindsay)",DC+":_priority_flood"),("method dispatch",DC+":fill_sinks")],["return value of fill_sinks"])
p("C04","NaN filling fills every gap from the neighbours and nothing else",
  "fill_nan_values returns an array of the same shape in which cells that had a value keep it and every NaN cell of a connected grid with at least one value gets one. Each filled value is the requested statistic (mean, median, min, max; case-insensitive) of the values available in neighbouring cells, so it lies in the range of the cells around its gap. The function returns for every NaN pattern and does not modify its input.",
  ["inputs","configurations"],"all meshes, NaN patterns up to all-but-one (and all) and statistics",
  "One test fills a handful of isolated NaN cells with the default statistic; clusters, where order matters and termination is at stake, are never generated.",
  [DC],[("revisit stack",DC+":fill_nan_values")],["return value of fill_nan_values"])
p("C05","Flow follows the steepest descent to a neighbouring cell",
  "For every cell that has a lower neighbour (cells sharing a vertex, NaN cells excluded) and is not terminal, the flow direction is a neighbour with the minimum slope (elevation change over centre distance). Terminal cells, the cell(s) with the minimum elevation and NaN cells flow to themselves. A cell without a lower neighbour but with level ones (at its elevation, or higher by less than burn_threshold) flows to one of these or ends the flow, and it neither ends nor loops in its flat while one of them leads to a terminal cell. FlowDirections rejects a DEM with several minimum cells unless check_elevations is off, and neither changes nor rounds the DEM. The directions depend on the grid, the DEM and the arguments of the call, not on earlier calls.",
  ["inputs","configurations"],"all meshes, spacings, unconditioned elevations, NaN cells, terminal cells (node numbers or row/column pairs as array, list or tuples) and burn thresholds (default 1e-6)",
  W+"a wrong distance, neighbour or tie shows up only for spacings and meshes that are not in the data set.",
  [FD],[("slopes to neighbours",FD+":_calculate_slopes"),("flow cell selection",FD+":_calculate_flowcell")],["flow_directions return value","flow_direction_array","dem"])
p("C06","Flow on a conditioned DEM reaches an outlet without loops",
  "If every cell has a non-ascending path to an outlet (terminal or minimum cell), flow_directions returns, every other cell flows to a neighbour that is not higher along one of its minimum slopes, and following the directions from any cell ends in an outlet. In particular no loops and no unresolved markers are left in digitally flat areas of any shape or size. The same holds for DEMs conditioned with fill_sinks with the boundary cells as terminal cells.",
  ["inputs","configurations"],"all meshes, flats, outlet sets and NaN walls; fill_sinks output of each method",
  W+"flat resolution depends on the shape of flats and the numbering of cells; two fixed DEMs sample almost none of them.",
  [FD,DC],[("flat resolution",FD+":_resolve_flats"),("re-routing of undrained cells",FD+":_route_undrained")],["flow_directions return value"])
p("C07","Flow accumulation counts exactly the upslope cells or area",
  "Flow accumulation of a cell is the number (as_cells=True) or the total area of the cells whose flow path passes through it, itself included. Accumulation summed over the terminal cells is the number of cells or the area of the grid, and cell areas are the polygon areas. get_nidp returns the number of cells that flow into each cell (terminal cells count themselves).",
  ["inputs","configurations"],"all acyclic flow networks on all meshes, including paths of more than a thousand cells",
  W+"a cell ordering that is right for one network may double count or skip on another, or exceed the recursion limit on a long one.",
  [FD,SU],[("topological order",SU+":Topology.sort"),("accumulation",FD+":flow_accumulation"),("shoelace area",FD+":_shoelace_area")],["flow_accumulation return value","flow_accumulation_array","area","get_nidp"])
p("C08","A watershed is exactly the set of cells draining to the point",
  "get_watershed_boundary returns 1 for the cell that contains the pour point and for every cell whose flow path passes through it, and 0 elsewhere, in the shape of the grid. This holds for any pour point inside a cell, including headwaters, cell 0 and outlets, and does not change the flow directions.",
  ["inputs","configurations"],"all acyclic flow networks, meshes (offset and rotated, multi-layer) and pour points",
  W+"one pour point of one basin is traced.",
  [FD],[("reversed flow directions",FD+":_reverse_flow_directions"),("trace",FD+":get_watershed_boundary")],["get_watershed_boundary return value"])
p("C09","Subbasins partition the grid by the nearest downstream pour point",
  "get_subbasins numbers the distinct pour point cells 1..n, gives every cell the number of the first pour point cell on its flow path (its own if it is one) and 0 if there is none. A subbasin upstream of another has the smaller number. The result does not depend on pour points being nested, repeated, listed in another order or lying in cell 0.",
  ["inputs","configurations"],"all acyclic flow networks and point sets of one to six points, nested and repeated",
  W+"one fixed set of points is compared with a stored array.",
  [FD,SU],[("subbasin assembly",FD+":get_subbasins"),("topological order",SU+":Topology.sort")],["get_subbasins return value"])
p("C10","Delineation marks exactly the cells above the threshold in the basin",
  "delineate_streams marks a cell 1 exactly when its flow accumulation is at least the contributing area (scalar or per cell) and, if given, the basin boundary is non-zero there, else 0. The marked array is what stream_array returns (as a copy); set_stream_array stores any array of the grid's size and rejects other sizes; stream_array raises while none exists. For a scalar threshold streams continue downstream to a terminal cell, and a larger threshold never adds cells.",
  ["inputs","configurations"],"all flow networks, thresholds of every form, boundary masks of every dtype, all three stream classes",
  W+"one integer threshold without a boundary is compared.",
  [SU],[("binarisation",SU+":StreamBase.delineate_streams"),("custom arrays",SU+":StreamBase.set_stream_array")],["delineate_streams return value","stream_array"])
p("C11","MODFLOW 6 reaches are a downstream-increasing numbering of the streams",
  "For any set of stream cells, get_stream_connectivity (Sfr6, and PrmsStreams ungrouped) numbers the stream cells 1..n without gaps or repeats, every reach is connected to the reach of the cell it flows to (0 if that is no stream cell, itself if terminal), and numbers increase downstream. connectiondata lists, zero-based and in order, for each reach exactly its upstream reaches (positive) and its downstream reach (negative), each connection once from both sides. connectiondata(graph) does the same for the graph it is given. This holds for boolean, integer and floating arrays (NaN means land), for no stream cells at all and for networks of more than a thousand reaches.",
  ["inputs","configurations"],"all acyclic networks, stream sets (also disconnected) and dtypes",
  W+"one delineated network is compared with a stored table.",
  [SU],[("reach numbering",SU+":StreamBase._mf6_stream_connectivity"),("connection data",SU+":Sfr6.connectiondata"),("topological sort",SU+":Topology")],["get_stream_connectivity return value","stream_array","connectiondata return value"])
p("C12","Package data describes every MODFLOW 6 reach consistently",
  "packagedata has one record per reach in order: zero-based number, cell id in the form of the grid type, length 1.5 times the distance between the centre of its cell and of the downstream reach's cell (for the last reach 1.5 times a length of the cell), gradient equal to the cell's flow slope over 1.5, top equal to the DEM, and ncon equal to the number of connections in connectiondata. detuple expands the cell id into columns and changes nothing else. It does not matter whether streams were stored, passed, or already connected; without stream cells the table is empty.",
  ["inputs","configurations","histories"],"all networks, stream sets, the three grid types and the three ways to provide streams",
  W+"one structured network is compared with a stored table.",
  [SU],[("package data",SU+":Sfr6.packagedata"),("detuple",SU+":Sfr6._detuple")],["packagedata return value"])
p("C13","Segments split the streams exactly at headwaters and confluences",
  "Grouped segments partition the stream cells into unbranched downstream chains that start at headwaters and confluences (and terminal cells with inflow), ungrouped segments hold one cell each. Segments are numbered 1..n increasing downstream, stream_array holds each cell's segment number and 0 on land, and the returned graph sends each segment to the segment that contains the next stream cell, or 0 when the stream ends. Connecting the numbered stream array again changes nothing.",
  ["inputs","configurations"],"all acyclic networks, stream sets (also disconnected, single cells) and dtypes, Sfr2005 and PrmsStreams",
  W+"one network is compared; isolated stream cells, adjacent confluences and long chains do not occur in it.",
  [SU],[("segment grouping",SU+":StreamBase._mf2005_stream_connectivity"),("topological sort",SU+":Topology")],["get_stream_connectivity return value","stream_array"])
p("C14","MODFLOW-2005 reach and segment tables mirror the stream network",
  "reach_data lists every stream cell once, ordered by segment and downstream within the segment, with consecutive reach numbers and ids, its row and column, the DEM elevation, 1.5 times the centre distance to the next stream cell and the slope over that length (1.5 times the mean cell width and a positive slope where the stream ends). segment_data lists each segment once with its downstream segment (itself when it ends in a terminal cell) or 0. The result does not depend on which of the two, or get_stream_connectivity, is called first; without stream cells both tables are empty.",
  ["inputs","configurations","histories"],"all networks on structured grids with variable spacing, offset and rotation, grouped or not",
  W+"one uniform network is compared with stored tables.",
  [SU],[("reach table",SU+":Sfr2005.reach_data"),("segment table",SU+":Sfr2005.segment_data")],["reach_data return value","segment_data return value"])
p("C15","irunbnd sends every cell to the first stream segment on its flow path",
  "irunbnd gives each cell the number of the segment of the first stream cell on its flow path, so stream cells get their own segment, and 0 where the path meets no stream. The result does not depend on whether the stream array, the segment graph or nothing is passed or whether connectivity was already mapped. NaN in a stream array means land.",
  ["inputs","configurations"],"all networks, stream sets and grid types, grouped or not",
  "No existing test calls irunbnd.",
  [SU],[("upstream tracing",SU+":Sfr2005.irunbnd")],["irunbnd return value"])
p("C16","Many-to-one cascades follow the flow direction inside the basin",
  "Each active cell has a many-to-one cascade link with fraction 1 to the cell it flows to, or to itself when that cell is outside of the basin, and there are no other links. Hru numbers are one-based, inactive cells appear in no link, and the stream segment of a link is the segment number of its downstream cell, or 0 when that is land.",
  ["inputs","configurations"],"all networks, stream sets, basin masks (watersheds, subbasins, arbitrary) and grid types",
  W+"one basin and one mask is compared.",
  [SU],[("many to one links",SU+":PrmsStreams._build_many_to_one_cascades"),("segment ids",SU+":PrmsStreams.get_cascades")],["get_cascades return value"])
p("C17","Many-to-many cascades share flow among all lower neighbours",
  "A land cell has links to exactly those active, lower neighbours whose share of the slopes exceeds 1 percent, with fractions proportional to slope that add up to 1. A stream cell has a single link with fraction 1 along its flow direction, or to itself when that leaves the basin. No link starts or ends outside of the basin mask, links are not repeated, and the stream segment of a link is that of its downstream cell or 0.",
  ["inputs","configurations"],"all networks, stream sets, basin masks and grid types",
  "No existing test asks for many-to-many cascades with a mask; fractions are never checked to add up.",
  [SU,FD],[("many to many links",SU+":PrmsStreams._build_many_to_many_cascades"),("slopes",FD+":_calculate_slopes")],["get_cascades(many2many=True) return value"])
p("C18","Results do not depend on grid type or cell numbering",
  "The same terrain on a structured, vertex or unstructured grid, or with its cells numbered in another order, gives the same results cell by cell: 'complete' filled elevations, filled isolated NaN cells, areas and, where every cell has a unique steepest neighbour, flow directions, accumulation, slope, aspect, watersheds, subbasins, stream connectivity, segments and cascades.",
  ["inputs","configurations"],"all pairs of representations of one mesh (with open or closed polygons) and all permutations of cell numbers",
  "The tests never run one terrain on two grids or two numberings.",
  [DC,FD,SU],[("neighbour based algorithms",FD+":_fill_irregular_neighbor_array"),("shape handling",SU+":StreamBase.__init__")],["all public results"])
p("C19","Results do not depend on the history of calls",
  "In any sequence of calls on one grid, flow object and stream object each call returns what a fresh object returns after only the last state-defining calls (flow directions and accumulation, the last delineated or set stream array, the last connectivity mapping). Queries such as watersheds, subbasins, geometry, stream vectors or control point thresholds change no state. Editing an array that the stream_array property, a basin method or threshold_from_control_points handed out changes no later result. No call modifies arrays passed by the caller, results returned earlier, or the grid (other than its top elevation).",
  ["histories","inputs"],"all sequences of public calls (up to 12, thorough 30) with re-runs under other options and foreign calls on the same grid",
  "Every test builds fresh objects and calls each method once in one order.",
  [FD,SU],[("cached reversed directions",FD+":_reverse_flow_directions"),("stored stream state",SU+":StreamBase._reset_connectivity"),("stored connectivity reuse",SU+":StreamBase._has_connectivity")],["all public results"],
  [("_fdir/_fdir_r/_facc","current flow directions, their reverse and the accumulation",FD),("_stream_array/_graph/_seg_graph/_node_seg_rch","current streams and their connectivity",SU)])
p("C20","Slope, aspect, vectors, area and hru length match the flow geometry",
  "On a conditioned DEM slope is the drop to the downstream cell over the centre distance (0 for terminal cells and for drops below 1e-6), aspect is the direction to the downstream cell in degrees counter-clockwise from the x axis within 0..360, vectors are its cosine and sine, area is the polygon area, and hru_len of a cell that is not terminal is twice the mean distance from its centre to the midpoints of the vertices it shares with its downstream and upstream cells. Reading them changes nothing.",
  ["inputs","configurations"],"all networks and meshes (offset and rotated)",
  W+"the attributes of one fixed network are compared.",
  [FD],[("slope",FD+":slope"),("aspect",FD+":aspect"),("hru length",FD+":_calculate_hru_len")],["slope, aspect, vectors, area, hru_len"])
p("C21","Stream vectors trace every segment down to its next segment",
  "create_stream_vectors returns, for every segment with at least two points, the line through the centres of its cells in downstream order, continued to the first cell of the downstream segment, keyed by the segment number, and no other lines of two or more different points. NaN in a passed stream array means land, and the call does not change the stored streams or the array passed.",
  ["inputs","configurations","histories"],"all networks, stream sets and grid types, grouped or not, with all three stream classes",
  "No existing test calls create_stream_vectors.",
  [SU],[("vectors",SU+":StreamBase.create_stream_vectors")],["create_stream_vectors return value"])
p("C22","Control point thresholds trace the main stem to its headwater",
  "threshold_from_control_points returns the given threshold everywhere except on the cells reached from a control point by going upstream to the inflowing cell of largest accumulation until a headwater, where it is the accumulation minus 5. Delineating with the returned array therefore marks every traced cell. The call returns for every network and changes no state.",
  ["inputs","configurations"],"all networks, meshes, accumulation units and one to three control points",
  "No existing test calls threshold_from_control_points.",
  [SU],[("upstream trace",SU+":StreamBase.threshold_from_control_points")],["threshold_from_control_points return value"])
p("C23","pyGSFLOW builder objects carry the network with the requested defaults",
  "The builder object of PrmsStreams holds the cascades of get_cascades, hru slope, aspect and area of the flow object, the cascade flag for the chosen method and the numbers of segments, reaches and cascade links. The builder object of Sfr2005 holds reach data, segment data and irunbnd with documented or overridden defaults (slopes along the streams limited to the minimum and maximum), leaves all other fields as they were, and rejects unknown keywords. Writing and reading such an object gives back equal contents.",
  ["inputs","configurations"],"all networks, stream sets and keyword overrides",
  W+"only the cascade object of one basin is built, with default arguments.",
  [SU],[("cascade object",SU+":PrmsStreams.get_pygsflow_builder_object"),("sfr object",SU+":Sfr2005.get_pygsflow_builder_object"),("pickle round trip",SU+":PygsflowCompatBase")],["PygsflowCascades and PygsflowStreams attributes"])
p("C24","All documented point inputs select the same cells",
  "A pour point given as coordinates, array, shapely or flopy point or shapefile shape, and a collection of points given as list, array, shapely, flopy or shapefile collection, shapefile path or reader, selects the same cells in get_watershed_boundary, get_subbasins and threshold_from_control_points. Results are equal for every input form. Coordinate lists without exactly x and y, and points outside of the grid, are rejected with an exception by all three.",
  ["inputs","configurations"],"all documented input forms, networks, meshes and point sets",
  "The tests pass one form per method.",
  [FD,SU],[("point parsing",FD+":get_watershed_boundary"),("collection parsing",FD+":get_subbasins"),("collection parsing",SU+":StreamBase.threshold_from_control_points")],["return values of the three methods"])
p("C25","Shifting, rotating or rescaling the terrain does not change the flow",
  "Moving or rotating the coordinate frame, or adding a constant to and scaling all elevations (and eps), leaves filled elevations equal up to that shift and scale, and where the steepest neighbour is unique leaves flow directions, accumulation, watersheds and hru length unchanged; slopes scale and aspects rotate accordingly.",
  ["inputs","configurations"],"all meshes, frames (offset, angle; set on the grid or in the vertices), exact elevation shifts and scales",
  "Each test uses one frame and one elevation datum.",
  [DC,FD],[("relative coordinates and slopes",FD+":_calculate_slopes"),("fill",DC+":fill_sinks")],["all public results"])
p("C26","SFR input written by FloPy routes reaches along the flow directions",
  "ModflowGwfsfr built from packagedata() and connectiondata() writes one reach per stream cell with its one-based cell, length, slope and bed elevation, ncon equal to the connections listed, and connections with positive upstream and negative downstream reach numbers along the flow directions. ModflowSfr2 built from reach_data() and segment_data() writes and reads back every stream cell with its segment, reach, length, slope and elevation, and the next reach FloPy derives from the segments is the reach of the cell it flows to. This holds for structured, vertex and unstructured grids (MODFLOW 6) and structured grids (MODFLOW-2005).",
  ["inputs","configurations"],"all conditioned flow networks, stream sets, grids and call forms",
  "The tests compare dany's arrays with stored ones; none writes a package, where zero- or one-based numbers, signs and record types matter.",
  [SU],[("reach package data",SU+":Sfr6.packagedata"),("reach connections",SU+":Sfr6.connectiondata"),("reach data",SU+":Sfr2005.reach_data"),("segment data",SU+":Sfr2005.segment_data")],["written sfr files","FloPy package objects"])
p("C27","Pits and closed loops corrupt neither flow, basins nor streams elsewhere",
  "On any DEM, conditioned or not, every flow direction is the cell itself or a neighbour with data, a closed loop of directions occurs only around a cell without a lower neighbour, and after fill_sinks (priority, drain) every path ends in an outlet, the boundary or a loop touching it. All methods return: accumulation of cells off the loops, watersheds, subbasins (one pour point per loop), slopes, stream numbering, segments, reach_data, packagedata and irunbnd are exact, and no stream cell is lost, also when streams run through loops.",
  ["inputs","configurations"],"all meshes, unconditioned relief and relief filled without terminal cells (pits remain on the boundary), NaN cells, stream sets",
  "The fixed basins have a single outlet and are cut off at a watershed, so pits and loops on the boundary never reach the later stages.",
  [FD,SU],[("flow cell selection",FD+":_calculate_flowcell"),("accumulation",FD+":flow_accumulation"),("subbasin assembly",FD+":get_subbasins"),("segments",SU+":_mf2005_stream_connectivity"),("topological order",SU+":Topology.sort")],["flow_direction_array","flow_accumulation_array","get_subbasins","stream_array","reach_data"])
p("C28","All stages of the workflow route the same water to the same places",
  "For any terrain taken through fill_nan_values, fill_sinks and flow_directions (boundary or one outlet as end of flow): accumulation at a point equals the size and area of its watershed; the subbasins upstream of a point make up its watershed; every cell reaches an outlet. For streams delineated in a basin, the cells that drain to a MODFLOW 6 reach summed along connectiondata, and the cells that irunbnd assigns summed along the segment graph, equal the accumulation at the reach and at the end of the segment; many-to-one cascades carry exactly the accumulated area to every cell, many-to-many cascades lose none of it and have no circles; stream vectors join at segment ends; builder counts match.",
  ["inputs","configurations"],"all meshes, relief with gaps, fill methods, outlets, thresholds, basin masks and pour points",
  "The tests check each stage alone against stored arrays of one basin; no test relates two stages, so stages that each look plausible but disagree pass.",
  [DC,FD,SU],[("conditioning",DC+":fill_sinks"),("accumulation",FD+":flow_accumulation"),("delineation",FD+":get_watershed_boundary"),("connections",SU+":Sfr6.connectiondata"),("irunbnd",SU+":Sfr2005.irunbnd"),("cascades",SU+":PrmsStreams.get_cascades")],["results of all stages of one workflow"])
p("C29","Clipping the terrain to a watershed changes nothing inside it",
  "If all cells outside of the watershed of a point become no data and the point ends the flow on both terrains, then inside the watershed flow directions (where the steepest neighbour is unique), accumulation, watershed, subbasins, slope, aspect, hru_len, delineated streams, reach connections, reach lengths and elevations, segments and irunbnd stay the same, and cells without data take part in nothing. Making a cell terminal changes the flow direction of this cell only.",
  ["inputs","configurations"],"all meshes, conditioned relief, pour points, extra points and thresholds",
  "The tests use one basin in one extent, so an effect of distant or missing cells on a local result never shows.",
  [FD,SU],[("no-data cells",FD+":_calculate_flowcell"),("slopes",FD+":_calculate_slopes"),("segments",SU+":StreamBase._mf2005_stream_connectivity"),("hru length",FD+":_calculate_hru_len")],["all public results on both terrains"])
p("C30","Rejected calls leave everything as it was",
  "A call that is rejected with an exception has no effect: flow directions, accumulation, stored streams and their connectivity, grid and caller arrays stay as they were, and every later call returns what it would have returned without it. Rejected are results asked for before flow directions exist, points outside of the grid or with one or three coordinates, one bad point after good ones, terminal cells outside of the grid, stream and threshold arrays of another size, connectivity and tables without any stream array, unknown builder keywords, and an unknown statistic in fill_nan_values.",
  ["histories","inputs"],"all workflows from flow directions to the input tables, on all meshes, with up to three rejected calls between every two steps",
  "Only a few tests expect an exception, and none looks at the object afterwards.",
  [FD,SU,DC],[("terminal cells",FD+":flow_directions"),("points",FD+":get_watershed_boundary"),("points",FD+":get_subbasins"),("stream array size",SU+":StreamBase.set_stream_array"),("keywords",SU+":Sfr2005.get_pygsflow_builder_object"),("statistic",DC+":fill_nan_values")],["all public results after a rejected call"],
  [("_fdir/_facc","current flow directions and accumulation",FD),("_stream_array/_graph/_seg_graph","current streams and their connectivity",SU)])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for d in P: jsonschema.validate(d,s)
NOTE={}
checks=[]
tech={"C28":"property-based testing (Hypothesis) of conservation relations between stages","C29":"metamorphic property-based testing (Hypothesis)","C18":"metamorphic property-based testing (Hypothesis)","C25":"metamorphic property-based testing (Hypothesis)","C24":"differential property-based testing (Hypothesis)","C30":"stateful differential property-based testing (Hypothesis): a workflow with rejected calls against its twin without","C19":"stateful model-based testing (Hypothesis call sequences)"}
for d in P:
    i=d["id"]
    checks.append({"property":i,
      "quick_cmd":f"/opt/venv/bin/python harness/engine.py --property {i} --tier quick",
      "thorough_cmd":f"/opt/venv/bin/python harness/engine.py --property {i} --tier thorough",
      "evidence_file":f"evidence/{i}.json",
      "technique":tech.get(i,"property-based testing (Hypothesis) against a reference model"),
      "level":"exploration",
      "level_note":"Seeded random search over generated meshes, terrains and arguments, judged by an independent oracle; shrunk failing case is the replay file. No claim beyond the cases run. Trusts flopy grid geometry (cell centres, intersect) and numpy."})
m={"version":1,"setup_cmd":"/opt/venv/bin/python harness/selftest.py","checks":checks,"not_applicable":[],"notes":"python harness/engine.py --property ID --replay FILE re-runs a replay; known_findings.json lists recorded and fixed defects"}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(P))
