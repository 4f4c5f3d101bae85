NOTE = "Exploration: holds on every generated case of this run (counts in the evidence file); it does not establish absence. Assumes "

prop("P01", "Depression filling yields the least drained surface, whichever algorithm",
     "Complete depression filling, by any of the offered algorithms (the general entry point included) and in either connectivity, raises every data cell exactly to the lowest level from which water could leave the raster over its border or into NoData without rising, and changes nothing else. NoData cells keep their value, no cell is lowered, and filling again changes nothing.",
     ["inputs"], "every raster shape from 1x1, every element type, D8 and D4, NoData regions (lower than the data) that touch the raster's edge, ties, plateaus and values at the ends of the type's range",
     "The tests compare a handful of fixed rasters and one random style in D8; agreement of five implementations with an independent minimax surface on arbitrary shapes, types, NoData layouts and ties is never sampled.",
     [D + "depressions/Barnes2014.hpp", D + "depressions/Zhou2016.hpp", D + "depressions/Wei2018.hpp", D + "depressions/depressions.hpp"],
     [("priority flood from the border", D + "depressions/Barnes2014.hpp"), ("one-pass trace and pit queues", D + "depressions/Zhou2016.hpp"), ("spill-path masks", D + "depressions/Wei2018.hpp")],
     ["the returned elevation raster"], "differential against an independent minimax (Bellman) reference, plus idempotence",
     NOTE + "NoData is lower than the data and its regions touch the raster's edge (interior holes: see known findings).")

prop("P02", "Epsilon filling drains every cell by single representable steps",
     "Epsilon depression filling of a floating-point raster leaves every data cell with a strictly descending path over data cells to the raster's border or to NoData, never lowers a cell and never touches NoData. Each cell's result equals either its original elevation or the next representable value above a neighbour's result, and lies at most one representable step per cell above the plain fill.",
     ["inputs"], "every float and double raster, D8 and D4, NoData regions touching the raster's edge, flats, plateaus and negative or tiny elevations",
     "The tests check the epsilon fill on a few fixed rasters; strict drainage of all cells of arbitrary rasters is not sampled.",
     [D + "depressions/Barnes2014.hpp", D + "depressions/depressions.hpp"], [("pit queue raising by nextafter", D + "depressions/Barnes2014.hpp")],
     ["the returned elevation raster"], "independent least-surface reference with strict-drainage invariant",
     NOTE + "NoData is lower than the data; regions touch the raster's edge; values far from overflow.")

prop("P03", "Depression detection, pit masks and bounded filling agree with the fill",
     "A raster is reported to have depressions exactly when complete filling would change it, and the pit mask marks exactly the cells filling would raise, NoData cells getting the mask's own NoData. Filling only small depressions fills each depression completely or leaves it untouched, according to its number of cells.",
     ["inputs"], "every raster of any element type, D8 and D4, NoData regions touching the raster's edge, nested and adjacent depressions, any size threshold",
     "Only a few fixed rasters with known answers are tested.",
     [D + "depressions/Barnes2014.hpp"], [("HasDepressions / pit_mask / PriorityFlood_Barnes2014_max_dep", D + "depressions/Barnes2014.hpp")],
     ["the returned boolean, mask and elevation raster"], "differential against an independent minimax reference", NOTE + "as P01.")

prop("P04", "Priority-flood flow directions and watersheds follow the lowest way out",
     "Priority-flood flow directions lead every data cell out of the raster (over its border or into NoData) without a loop and along a way that climbs no higher than necessary; NoData cells get the NoData direction and elevations are untouched. Priority-flood watershed labels give every data cell exactly one positive label, each label holding exactly one outlet to which all its cells drain on the filled surface, and optional alteration of the elevations equals complete filling.",
     ["inputs"], "every raster shape and element type, D8 (directions) and D8/D4 (watersheds), NoData regions touching the raster's edge, output rasters of any previous size",
     "The tests use one fixed raster for flow directions and none for watershed labels; loop-freedom and minimal climb over arbitrary depressions and ties are global properties.",
     [D + "depressions/Barnes2014.hpp"], [("PriorityFloodFlowdirs_Barnes2014 / PriorityFloodWatersheds_Barnes2014", D + "depressions/Barnes2014.hpp")],
     ["the flow direction, label and elevation rasters"], "path-walking invariant plus a minimax reference", NOTE + "as P01.")

prop("P05", "Breaching removes every depression by digging, never below a pit",
     "Complete breaching, in either connectivity, leaves no depression: afterwards every data cell can reach the raster's border or NoData without rising. It raises only single-cell pits, no higher than their lowest neighbour, digs no cell below the level of the pit it drains, and changes no NoData cell; selective breaching keeps to its length and depth limits, leaves no depression when asked to fill the rest, and with unlimited limits equals complete breaching, while epsilon gradients give every data cell a strictly lower neighbour.",
     ["inputs"], "every raster of any element type, NoData anywhere, every mode, path-length and depth limit, epsilon on floating-point rasters",
     "The tests check one small raster's breach per mode.",
     [D + "depressions/Lindsay2016.hpp", D + "depressions/depressions.hpp"], [("pit detection, back links and carving", D + "depressions/Lindsay2016.hpp")],
     ["the returned elevation raster"], "invariants over the result plus a minimax reference and a metamorphic relation between modes",
     NOTE + "NoData is lower than the data. Constrained mode is only required to drain when it also fills (see known findings).")

prop("P06", "Flats are found exactly and resolved so that they drain",
     "Flat cells are exactly the interior data cells with no lower neighbour and none in NoData; every flat that has an outlet at its own elevation gets one label and increments combining the gradient away from higher and towards lower terrain, while undrainable flats and everything else get none. Resolving flats gives each cell of a drainable flat a direction that leads out of the flat without a loop and never uphill, and raising cells by the increments makes each descend wherever neighbouring terrain leaves room.",
     ["inputs"], "every raster shape and element type (increments: floating point), NoData anywhere, several flats of any shape, nested, adjacent and undrainable ones",
     "The tests resolve a few fixed rasters; loop-free drainage over arbitrarily shaped and adjacent flats is a global property.",
     [D + "flats/find_flats.hpp", D + "flats/Barnes2014.hpp", D + "flats/flat_resolution.hpp", D + "flats/flats.hpp"],
     [("flat mask by two breadth-first gradients", D + "flats/Barnes2014.hpp"), ("masked flow directions", D + "flats/flat_resolution.hpp")],
     ["flat indicator, mask, labels, flow directions and altered elevations"], "differential against an independent reference of flats, labels and gradients, plus path-walking invariant",
     NOTE + "NoData is lower than the data; raising flats is checked on floating-point rasters only.")

prop("P07", "D8 and D-infinity flow directions point down the steepest way",
     "A D8 direction points to the lowest strictly lower neighbour in the interior, straight off the raster for border cells, and is no-flow where nothing is lower; a D-infinity direction is the angle of the steepest of the eight triangular facets, off the raster for border cells, and is never confusable with no-flow. NoData cells get the direction raster's NoData, elevations are untouched, and converting ArcGIS codes keeps every direction and rejects invalid codes.",
     ["inputs"], "every raster shape and element type, NoData anywhere, ties, output rasters of any previous size, every code",
     "The tests use fixed rasters for D8 and none for D-infinity.",
     [D + "flowmet/d8_flowdirs.hpp", D + "flowmet/dinf_flowdirs.hpp", D + "misc/conversion.hpp"],
     [("d8_FlowDir / dinf_FlowDir", D + "flowmet/d8_flowdirs.hpp"), ("facet slopes", D + "flowmet/dinf_flowdirs.hpp")],
     ["the direction rasters"], "differential against an independent per-cell reference",
     NOTE + "NoData is lower than the data.")

prop("P08", "Every flow metric apportions flow by its published rule",
     "Every flow metric gives each data cell non-negative proportions that go only to data neighbours strictly below it and sum to one, flags it as without flow when there is none, and marks exactly the NoData cells as NoData; border cells pass nothing on. The proportions follow the metric's rule: one lowest neighbour (D8, D4), slope powers (Quinn, Freeman, Holmgren), the steepest facet split by nearness in angle (Tarboton), and a choice attainable under the random factors (Rho8, Rho4), stored under D8 neighbour numbers.",
     ["inputs"], "every raster shape and element type, NoData anywhere, every metric and exponent, ties and flats",
     "The tests run the metrics without checking proportions except for a few fixed rasters.",
     [D + "flowmet/OCallaghan1984.hpp", D + "flowmet/Fairfield1991.hpp", D + "flowmet/Quinn1991.hpp", D + "flowmet/Freeman1991.hpp", D + "flowmet/Holmgren1994.hpp", D + "flowmet/Tarboton1997.hpp"],
     [("FM_* proportion rasters", D + "flowmet/Freeman1991.hpp"), ("facet split", D + "flowmet/Tarboton1997.hpp")],
     ["the proportion raster"], "differential against independent per-cell rules plus invariants",
     NOTE + "Slope raised to the exponent stays within a float. D8/D4 take the lowest neighbour, not the steepest (see DESIGN.md).")

prop("P09", "Flow accumulation is a cell's own flow plus all its upstream flow",
     "For every flow metric and for arbitrary acyclic proportions, accumulation at each data cell equals its own flow (its weight, one by default) plus the proportioned accumulation of all cells flowing into it, and the flow generated equals the flow leaving at sinks and the border. NoData cells get the accumulation NoData value, elevations and proportions are not altered, and weights of the wrong size are rejected.",
     ["inputs"], "every raster shape, metric, proportion and accumulation type, NoData anywhere, constant, random, zero and fractional weights",
     "The tests smoke-run the metrics; the balance over arbitrary flow graphs and weights is not sampled.",
     [D + "methods/flow_accumulation_generic.hpp", D + "methods/flow_accumulation.hpp"], [("dependency counting and queue", D + "methods/flow_accumulation_generic.hpp")],
     ["the accumulation raster"], "differential against an independent topological-order reference plus conservation",
     NOTE + "floating-point comparison with a relative tolerance (2e-5 double, 1e-3 float).")

prop("P10", "Upslope area from D8 or D-infinity directions counts what drains through",
     "Given D8 directions, each data cell's area is one plus the areas of the cells pointing at it; given D-infinity directions, each cell's area is one plus its share, by nearness in angle, of the areas of the cells flowing towards it. Cells without flow still count themselves, flow off the raster or into NoData disappears, NoData cells get the area NoData, and directions are untouched; cycles in D8 input do not disturb the cells not downstream of them.",
     ["inputs"], "direction rasters computed from elevations and arbitrary acyclic ones (cyclic too for D8), every shape, NoData anywhere, long chains, output rasters of any previous size",
     "The tests use D8 accumulation on fixed rasters and never the D-infinity one.",
     [D + "methods/d8_methods.hpp", D + "methods/dinf_methods.hpp"], [("d8_flow_accum", D + "methods/d8_methods.hpp"), ("dinf_upslope_area", D + "methods/dinf_methods.hpp")],
     ["the area raster"], "differential against an independent topological-order reference",
     NOTE + "D-infinity directions are acyclic.")


prop("P11", "Random numbers are reproducible from their seed and distributed as stated",
     "After seeding, or after restoring a saved state, every stream of random integers, reals, Gaussians and bits repeats exactly, whatever was drawn before; different threads get different streams. Draws stay in their range and follow the stated distribution, random flow metrics choose neighbours with the stated frequencies, and Perlin terrain is a function of its seed and size alone.",
     ["inputs"], "every seed, bound and sequence of draws, saves and restores, 1 to 8 threads, every terrain size",
     "The tests draw a few numbers without checking reproducibility across saves, seeds or threads.",
     ["src/random.cpp", D + "common/random.hpp", D + "flowmet/Fairfield1991.hpp", "src/terrain_generation/PerlinNoise.cpp", "src/terrain_generation/terrain_generation.cpp"],
     [("per-thread engines", "src/random.cpp"), ("Perlin noise", "src/terrain_generation/PerlinNoise.cpp")],
     ["the numbers drawn", "the chosen neighbours", "the terrain"], "metamorphic relations over generated draw sequences plus frequency tests at six standard deviations",
     NOTE + "up to 8 threads; frequency bounds of at least six standard deviations.")

prop("P12", "Terrain attributes follow their published formulas",
     "Slope (all four units), aspect and the three curvatures of every data cell are the values the published 3x3-window formulas give, with the vertical scale and the cell sizes applied and missing neighbours replaced by the centre cell; a level window has zero slope and no aspect. NoData cells get the result's NoData, the elevations are untouched, the result carries the raster's size and geography, and the stream power and wetness indices combine accumulation and slope as documented.",
     ["inputs"], "every raster shape and element type, NoData anywhere, square and non-square cells, any vertical scale",
     "The tests use no golden values for aspect, curvature or the indices.",
     [D + "methods/terrain_attributes.hpp"], [("TerrainProcessor and the 3x3 window", D + "methods/terrain_attributes.hpp")],
     ["the attribute raster"], "differential against an independent per-cell reference",
     NOTE + "Curvatures are compared on square cells and the indices on unit cells (see DESIGN.md).")

prop("P13", "The depression hierarchy is the merge tree of the terrain",
     "Every cell is labelled with the leaf depression (or the ocean) its flow directions lead to without climbing or looping, and the depressions form a binary tree in which each spills over the lowest way out of its cells, into its sibling or into a depression that already reaches the ocean. Outlet levels and cells, overflow links, cell counts and volumes are those of the labelled cells, the tops of the tree give exactly the filled surface, and labels without a usable ocean are rejected.",
     ["inputs"], "every raster shape and element type, D8 and D4, any set of ocean cells, ties and plateaus",
     "The tests compare one small hierarchy; the tree over arbitrary terrain with ties is a global structure.",
     [D + "depressions/depression_hierarchy.hpp", D + "common/radix_heap.hpp", D + "common/disjoint_dense_int_set.hpp"],
     [("outlet search by priority flood", D + "depressions/depression_hierarchy.hpp"), ("merging outlets by union-find", D + "depressions/depression_hierarchy.hpp")],
     ["labels, flow directions and the hierarchy"], "invariants over the result recomputed from labels, plus a minimax reference",
     NOTE + "floating-point elevations below 1e6 in magnitude.")

prop("P14", "Fill-Spill-Merge conserves water and leaves it level where it belongs",
     "Water poured over a terrain runs down the flow directions, saturates dry cells on its way, fills depressions, spills over their outlets into the depression beyond and merges neighbours that are both full, the rest reaching the ocean. Total water is conserved, each depression holds exactly the volume this gives it and shows it as one level surface not above its outlet and leaning on no lower ground, and running again on the result moves nothing.",
     ["inputs"], "every terrain and any set of ocean cells, any distribution of water and unsaturated cells, scarce to plentiful, reused hierarchies",
     "The tests run square Perlin terrains with uniform water; volumes and levels against an independent routing are never compared.",
     [D + "depressions/fill_spill_merge.hpp"], [("routing to pits", D + "depressions/fill_spill_merge.hpp"), ("overflow through the hierarchy", D + "depressions/fill_spill_merge.hpp"), ("lake-level equation", D + "depressions/fill_spill_merge.hpp")],
     ["the water table and the hierarchy's water volumes"], "differential against an independent drop-by-drop overflow model, plus conservation, hydrostatics and idempotence",
     NOTE + "D8; levels within 2e-5; no unsaturated cells inside merged depressions (see known findings).")

prop("P15", "Rasters behave like plain arrays whatever the history of operations",
     "After any history of creating, wrapping, copying, moving, resizing, expanding, flipping, transposing, filling, replacing and renaming, Array2D, Array3D and ManagedVector hold exactly the cells, size, NoData value and properties that a plain array would, in both addressing schemes, and every query (counts, extremes, rows, neighbours, edges, equality) answers for the present contents. Memory a raster only wraps is written through, never freed, resized or touched after it is let go, and refused operations change nothing.",
     ["inputs", "histories"], "every sequence of operations on a pool of rasters of several element types, owned and wrapped",
     "The tests call each method once or twice on a small owned raster.",
     [D + "common/Array2D.hpp", D + "common/Array3D.hpp", D + "common/ManagedVector.hpp"], [("ownership of the cells", D + "common/ManagedVector.hpp"), ("shape changes", D + "common/Array2D.hpp")],
     ["cells, sizes, properties and answers of every raster; the wrapped memory"], "stateful model-based generation against plain vectors, under AddressSanitizer",
     NOTE + "rasters up to 30 cells on a side; histories up to 40 operations.")

prop("P16", "Queues, heaps, union-find and cache keep their order contracts",
     "The cell queues give cells back lowest first, with NaN below everything and ties in insertion (or reverse insertion) order; the radix heaps do the same for monotone keys of every type and report sizes, minima and whole tie groups correctly. The union-find keeps exactly the partition its merges imply with the chosen representatives, and the LRU cache holds each item once in order of use.",
     ["inputs", "histories"], "every interleaving of insertions, removals, merges and queries; every key type including extreme and special values",
     "Only a few of these containers have direct tests, none with interleaved histories, ties or extreme keys.",
     [D + "common/grid_cell.hpp", D + "common/radix_heap.hpp", D + "common/disjoint_dense_int_set.hpp", D + "tiled/lru.hpp", D + "common/timer.hpp"],
     [("tie-breaking by insertion number", D + "common/grid_cell.hpp"), ("bucket redistribution", D + "common/radix_heap.hpp"), ("path compression", D + "common/disjoint_dense_int_set.hpp")],
     ["the items, keys, representatives and order returned"], "stateful model-based generation against multisets, class vectors and a recency list",
     NOTE + "radix heaps are pushed no negative zero.")

prop("P17", "Saved rasters load back the same, and failures are reported",
     "A raster saved to a GeoTIFF, a native file or its cache, with or without padding or compression, loads back with the same cells, size, NoData value, geotransform, projection and metadata, whole or by parts, into the same or another element type. A raster sent to its cache and back is unchanged whatever was done to it in between. A missing, incomplete or unwritable file is an error instead of a raster of garbage or a silent loss.",
     ["inputs", "histories", "fault_sequences"], "every raster shape and element type, offsets and parts, metadata strings, cache histories, truncation at any byte, a disk that fills at any byte",
     "The tests save and load a few files, never compare metadata or parts, and never meet a fault.",
     [D + "common/Array2D.hpp", D + "common/loaders.hpp", D + "common/gdal.hpp"], [("GDAL reading and writing", D + "common/Array2D.hpp"), ("native files and caches", D + "common/Array2D.hpp"), ("LoadGDAL and SaveGDAL", D + "common/loaders.hpp")],
     ["the loaded raster", "the exception"], "round trips over generated rasters and cache histories, with truncated files and a limited file size as injected faults",
     NOTE + "Failed writes GDAL itself does not report are left out; a cache keeps no metadata.")

prop("P18", "Layout files and tiled rasters present the mosaic that was laid out",
     "Reading a layout file gives every tile's name, path and position and every gap in the grid that was written, by hand or by the writer, and rejects ragged grids. A tiled raster made from a layout, a template or a prefix answers every read, write, fill, NoData and size query in either addressing scheme as one in-memory raster of the same cells would, whatever the size of its tile cache, the orientation of its tiles and the gaps between them, and saves that mosaic whole or by tiles.",
     ["inputs", "histories"], "every grid of names and gaps; every tiling, orientation and cache size, and every history of operations",
     "The repository has no test of layout files or tiled rasters.",
     [D + "common/Layoutfile.hpp", D + "tiled/A2Array2D.hpp", D + "tiled/lru.hpp"], [("reader and writer", D + "common/Layoutfile.hpp"), ("tile loading and eviction", D + "tiled/A2Array2D.hpp")],
     ["the entries read", "the cells, sizes and files of the tiled raster"], "round trips over generated layouts, and stateful model-based generation of tiled rasters against a flat array",
     NOTE + "A last column that every row leaves blank cannot be told from no column; tiles up to 6x6, up to 4x4 of them.")

prop("P19", "Parallel priority-flood fills a tiled DEM as the whole would be filled",
     "The MPI program's output tiles hold, cell for cell, the filling of the whole mosaic (gaps being ocean), in the tiles' own orientation, size, NoData value and geotransform, with a layout that lists them. This holds for every tiling, flip and gap, number of processes, retention policy and order in which messages travel, and every process finishes without a message left over; wrong arguments end every process with an error.",
     ["inputs", "schedules"], "every DEM, tiling, orientation, gap pattern, element type, number of ranks, retention policy and message schedule",
     "The program's tests run one machine's MPI on a few synthetic DEMs and are not part of the test suite.",
     ["programs/parallel_priority_flood/main.cpp", "programs/parallel_priority_flood/Zhou2016pf.hpp", D + "common/communication.hpp"],
     [("watershed labels and spillover graph", "programs/parallel_priority_flood/Zhou2016pf.hpp"), ("joining edges and corners", "programs/parallel_priority_flood/main.cpp"), ("message passing", D + "common/communication.hpp")],
     ["the output tiles and layout", "the processes' exit"], "differential against a fixed-point filling of the whole mosaic, under a deterministic stand-in for MPI whose schedule is generated",
     NOTE + "The stand-in runs 2 to 5 ranks in one process and follows the standard's ordering rules; up to 5x5 tiles of up to 30 cells.")

prop("P20", "Parallel D8 accumulation of a tiled raster equals that of the whole",
     "The MPI program's output tiles hold, cell for cell, the number of cells whose flow passes through each cell of the whole mosaic, NoData cells -1 and flow into gaps leaving it, in the tiles' own orientation, size and geotransform, with a layout that lists them. This holds for every raster of flow directions without loops, every tiling or block size, flip and gap, number of processes, retention policy and order in which messages travel, and every process finishes without a message left over.",
     ["inputs", "schedules"], "every loop-free direction raster, tiling down to single cells, orientation, gap pattern, number of ranks, retention policy and message schedule",
     "The program's tests run one machine's MPI on a few rasters and are not part of the test suite.",
     ["programs/parallel_d8_accum/main.cpp", "programs/parallel_d8_accum/perimeters.hpp", D + "common/communication.hpp"],
     [("following paths between perimeter cells", "programs/parallel_d8_accum/main.cpp"), ("serialised perimeters", "programs/parallel_d8_accum/perimeters.hpp"), ("joining tiles", "programs/parallel_d8_accum/main.cpp")],
     ["the output tiles and layout", "the processes' exit"], "differential against counting each cell's path on the whole mosaic, under a deterministic stand-in for MPI whose schedule is generated",
     NOTE + "Directions are given in the orientation of the layout; 2 to 5 ranks; up to 6x6 tiles of up to 24 cells.")

prop("P21", "Python functions give what the library gives and touch only what they should",
     "Every computing function of the Python wrapper, for each of its element types, every option and any NumPy layout (contiguous, transposed, strided, reversed, windowed), gives cell for cell what the C++ library gives for the same data, with the DEM's geotransform, projection, metadata and NoData value carried to the result and one line of history added. in_place=False leaves the argument as it was and in_place=True changes it, and no call touches memory around the array, keeps references to what was freed, or accepts what it documents as an error.",
     ["inputs", "histories"], "every array, element type, memory layout, NoData value and combination of options of every function",
     "The wrapper has no tests in the suite that is run; notebooks and examples use one element type and one layout.",
     ["wrappers/pyrichdem/richdem/__init__.py", "wrappers/pyrichdem/src/pywrapper.hpp", "wrappers/pyrichdem/src/pywrapper.cpp"],
     [("conversion of arrays", "wrappers/pyrichdem/src/pywrapper.hpp"), ("dispatch by type and method", "wrappers/pyrichdem/richdem/__init__.py")],
     ["the arrays returned and those passed, their attributes, the exceptions"], "differential between a Python process running the wrapper and the C++ library on the same generated data",
     NOTE + "Random methods (Rho8, Rho4) are held to be one possible outcome; NoData values the type cannot represent are not passed.")

prop("P22", "Python loading, saving, history and command-line tools lose nothing",
     "A raster saved by either of Python and C++ loads in the other and in itself with the same values, NoData value, geotransform, projection and metadata. Through any sequence of operations the processing history keeps what it had and gains one dated line per operation, in the order they ran. The Python command-line tools write the raster the library computes for their options, with the input's georeferencing and history, leave the input file alone, and report differences between rasters correctly.",
     ["inputs", "histories"], "every raster of the types GDAL shares with the wrapper, metadata and geotransform, every sequence of operations, every tool and its options",
     "No test in the suite loads or saves through Python or runs its tools.",
     ["wrappers/pyrichdem/richdem/__init__.py", "wrappers/pyrichdem/richdem/cli.py", D + "common/Array2D.hpp"], [("LoadGDAL and SaveGDAL", "wrappers/pyrichdem/richdem/__init__.py"), ("history", "wrappers/pyrichdem/richdem/__init__.py"), ("tools", "wrappers/pyrichdem/richdem/cli.py")],
     ["the files written", "the arrays, metadata and history", "what the tools print"], "round trips and generated histories across the two languages, and a differential of the tools against the library",
     NOTE + "64-bit integers below 2^53, which are saved as doubles; metadata keys are identifiers.")

prop("P23", "The command-line programs do what they say and report what they cannot do",
     "Each program of apps/ writes the raster or prints the answer that the library gives for its input and options, in every raster type, keeping the input's size, NoData, geotransform, projection, metadata and history (with one line naming the command) except for what it was asked to change, and marking as NoData exactly the cells without a value. Differences, histograms, windows, properties, tables and layouts (and their largest square of tiles) are printed as they are in the file. Input files are left alone, and a request a program cannot carry out ends in an error instead of a success or a file.",
     ["inputs"], "every raster type, shape, orientation, description and combination of arguments, good and bad, of each program",
     "No test runs any of the programs.",
     ["apps/rd_flow_accumulation.cpp", "apps/rd_merge_rasters_by_layout.cpp", "apps/router.hpp", "apps/rd_compare.cpp"], [("dispatch by type", "apps/router.hpp"), ("each program's PerformAlgorithm", "apps")],
     ["the files written", "the text printed", "the exit status"], "differential of the programs' own main() against the library and models of what they print, over generated files and arguments",
     NOTE + "rd_loop_check (unfinished: it also reports long paths) and rd_surface_area (not built) are left out.")

prop("P24", "Results do not depend on the number of threads or on their timing",
     "Every parallel routine (flow directions and proportions, flat resolution, terrain attributes, accumulation, surface area, perimeter, depression hierarchy and Fill-Spill-Merge) gives, with any number of threads under any schedule, what it gives with one thread, up to the rounding of sums. No two threads access the same memory without OpenMP ordering them when one of them writes. Random methods depend on the seed and the number of threads only, and every seed gives every thread a stream of its own.",
     ["schedules", "inputs"], "every raster, number of threads and interleaving of the threads of every parallel region",
     "The test suite is run with one thread.",
     [D + "flats/Barnes2014.hpp", D + "flats/flat_resolution.hpp", D + "methods/d8_methods.hpp", D + "methods/dinf_methods.hpp", D + "depressions/depression_hierarchy.hpp", D + "methods/terrain_attributes.hpp", "src/random.cpp"],
     [("critical sections that collect flat edges", D + "flats/Barnes2014.hpp"), ("atomic dependency counts", D + "methods/d8_methods.hpp"), ("seed merging and sorting", D + "depressions/depression_hierarchy.hpp"), ("per-thread engines", "src/random.cpp")],
     ["the results of the routines", "ThreadSanitizer's reports"], "metamorphic (one thread against many) under a stand-in for libgomp whose schedule is generated, with ThreadSanitizer told OpenMP's orders only",
     NOTE + "Rasters up to 12x12 and up to 6 threads; threads change over at OpenMP synchronisations.")

prop("P25", "D-infinity flat resolution drains every flat that can drain, along its mask",
     "After resolve_flats_barnes_dinf every cell of a flat that has an outlet holds an angle in (0, 2pi]: that of the steepest triangular facet of the flat's mask lying within the flat or, where no facet descends, of one lower cell of the same flat; the cells it sends flow to are in its flat and lower in the mask. Cells that had a direction keep it, flats without an outlet hold NO_FLOW, NoData cells hold -1, and elevations are untouched. Following the angles never loops or stops in a flat that has an outlet, so dinf_upslope_area accounts for every cell.",
     ["inputs"], "every elevation raster: shape, type, flats of any form with any outlets and higher surroundings, NoData anywhere",
     "No test touches D-infinity flats.",
     [D + "flats/flat_resolution_dinf.hpp", D + "flats/flat_resolution.hpp", D + "flowmet/dinf_flowdirs.hpp"], [("dinf_masked_FlowDir", D + "flats/flat_resolution_dinf.hpp"), ("dinf_flow_flats", D + "flats/flat_resolution_dinf.hpp")],
     ["the angles, cell by cell", "the areas dinf_upslope_area computes from them"], "reference flat masks and facets over generated rasters, and following the flow from every cell",
     NOTE + "NoData lower than every data value, as documented for flats.")

prop("P26", "Surface areas, perimeters, bucket fills and iterators follow their definitions",
     "dem_surface_area is the sum, over data cells, of the eight triangles to neighbouring centres cut at half their length, missing neighbours being level with the cell: exact for every cell shape and vertical factor and never less than the planar area. Perimeter counts the data cells of which a neighbour is NoData or outside, or adds the lengths of the cell sides that border either. A bucket fill sets exactly the cells of the value connected to its seeds (or the edges) through cells not yet set, refuses rasters of different shape, and iterators visit every cell once.",
     ["inputs"], "every raster: shape, type, NoData pattern, cell proportions, vertical factor; every pattern of values, seeds and topology",
     "Two small bucket fills are tested; areas, perimeters and iterators are not.",
     [D + "misc/misc_methods.hpp", D + "common/iterators.hpp"], [("dem_surface_area", D + "misc/misc_methods.hpp"), ("Perimeter", D + "misc/misc_methods.hpp"), ("BucketFill", D + "misc/misc_methods.hpp")],
     ["the areas, lengths and counts", "every cell of the filled raster"], "reference formulas (cross products instead of Heron's) and connected components over generated rasters",
     NOTE + "Relief of up to 20000 cell widths between neighbours: Heron's formula loses its digits beyond.")
