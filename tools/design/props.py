D = {
'C01': ("An array model per band: every operation (getblock/setblock, pixel, slice with any start/stop/step, boolean mask, multi-band indexing) is applied to karta and to a numpy array, then the value read, or the whole store, is compared.",
        "Random histories on SimpleBand and CompressedBand, chunk sizes of 1 to 256, nine types, empty and reversed slices, vectors and scalars written, large bands across default chunk borders.",
        "The chunk arithmetic has per-offset, per-stride cases; a test samples one of them each."),
'C02': ("The documented affine definition recomputed independently: centre, corner and node coordinates, extents and boxes by centre or edge; indices are compared with the inverse affine map.",
        "Random origin, resolution of either sign, skew and rotation; positions inside, outside, fractional, in lists, arrays and other shapes; other coordinate systems through PROJ.",
        "Signs, skew and rounding depend on the transform."),
'C03': ("Each sample is recomputed from the raw cell array: nearest centre in index space, or the bilinear blend of four centres; outside and touching nodata are nodata.",
        "All input forms (scalar, vector, 2-d, Point, Multipoint, other systems), 1-4 bands, integer and float types, one-row and one-column grids, profiles, samples across storage chunks.",
        "Index windows are computed from all points of a call together; errors need particular combinations."),
'C04': ("Cells carry unique values, so each output cell is found in the source by coordinates; coverage of the request is compared with its exact definition.",
        "Boxes inside, straddling and outside, other systems, larger/smaller/disjoint resizes, chunks with overlap of any size, in memory and on disk.",
        "Off-by-one errors at ends depend on the position of the box relative to cells."),
'C05': ("Independent nearest/bilinear samples of the source array at each output cell's centre.", "Any resolution ratio, either sign, 1-3 bands, nodata.", "Tests resample two grids."),
'C06': ("Per-cell weighted mean over the recorded inputs in exact or double arithmetic.", "1-6 grids of any offset, types, weights (including integers, zero), nodata patterns; refused combinations.", "Interplay of overlap order, weight and nodata."),
'C07': ("The pattern of nodata cells is recorded at generation; masks, extremes, data extent, apply, set_nodata and arithmetic are compared with it.", "NaN or numeric markers, nine types, cells all nodata, patterns per band.", "Each result must ignore markers in any arrangement."),
'C08': ("Winding number of every cell farther than 1.6 cells from a boundary.", "Simple polygons, either winding, rectangular cells, several polygons, partly off the grid; in place and not.", "Scan conversion errors depend on polygon edges' rows and slopes."),
'C09': ("Exact means per cell from lists of the points.", "1-400 points in any order and type, and 40 000 or more in one cell; points before the origin.", "Counters and sums overflow only when crowded."),
'C10': ("Cell-by-cell 3x3 finite-difference reference; planes have analytic answers.", "Either orientation, rectangular cells, any band, nodata holes; hillshade compared with the light direction against the surface normal.", "Sign and nodata handling depend on the arrangement."),
'C11': ("GDAL reads every file karta writes (at the moment writing returns, from the path, without garbage collection), and karta reads every file GDAL or the monitor writes; grids on disk are compared with grids in memory over histories of operations. ASCII grids are parsed by the monitor's own reader.",
        "All types, georeferencing, coordinate systems, compression, tiling, nodata, band counts; ASCII dialects (centre/corner, wrapped rows, blank lines).",
        "A file is complete only if each strip of each band was flushed; tests read after collection."),
'C12': ("A scan of every point by the predicate's definition (and the same query without the index).", "Up to 5000 points: clustered, repeated, in line, adjacent floats, extreme values, 3-d; dateline and poles; query geometry in another system.", "Quadtree splitting depends on insertion order and arrangement."),
'C13': ("Exhaustive exact scan of members (rational segment predicates), results compared by member index and attributes.", "0-4000 members, depths of three levels, identical, degenerate, three-dimensional; geographical.", "R-tree boxes and splits depend on the history of insertion."),
'C14': ("AddressSanitizer and UndefinedBehaviorSanitizer on every extension module; death of a worker; recursion or CPU limits; live native bytes over build/query/drop cycles (mallinfo2); answers of trees and kernels compared with scans.",
        "Hostile trees, empty/NaN/infinite/duplicate coordinates, indices out of range, damaged GeoTIFF/shapefile/GPX/GeoJSON/AAI files, grids on disk outliving their files.",
        "Memory errors usually leave tests green."),
'C15': ("Exact rational segment predicates on lattices; margins in general position; great-circle arcs in three dimensions.", "Shared, touching, overlapping, vertical, retraced and degenerate segments; both orders of operands; dateline and poles; other systems.", "Special positions are a null set for test writers."),
'C16': ("Exact point-in-polygon on lattices including half-lattice points; winding about a centre on the sphere.", "Simple polygons of any winding, holes and islands, any scale, poles and dateline; collections of points within polygons.", "Failures happen where a ray meets a vertex, and depend on the numbering."),
'C17': ("Exact monotone chain; on the sphere, half-space tests in three dimensions.", "Repeats, collinear points, one and two points, any scale, dateline.", "Degenerate arrangements."),
'C18': ("Minimum over all segments in closed form (plane), numerically over geodesics (pyproj).", "Any scale, zero-length and axis-parallel segments, closing segments; ellipsoid and sphere.", "The answer is a minimum over the whole boundary."),
'C19': ("Exact rational area/centroid; pyproj geodesic lengths.", "Any scale, distance from origin, winding, first vertex; holes; 3-d; ellipsoids.", "Cancellation and winding."),
'C20': ("Each vertex mapped by the monitor; rings, parts, attributes and metadata compared; original compared with its recorded state.", "All geometry types, holes and islands, singular matrices, in-place shifts after earlier questions; control point fits against least squares.", "Caches and sub-rings are forgotten one at a time."),
'C21': ("Minima and maxima of vertices; extremes of great-circle edges in closed form.", "Before and after edits, other systems, dateline, polar caps, collections.", "Edges bulge beyond vertices."),
'C22': ("A plain list of (coordinates, row) pairs, for members; a list of dictionaries, for tables.", "Histories of indexing, slicing, assignment, extension, merging, queries; refused input.", "Aliasing appears only after later edits."),
'C23': ("The monitor parses the JSON itself and compares with the geometry; shapely for the geo interface; documents made by the monitor are read by karta.", "All types, 3-d, holes, properties, columns, other systems, sinks of each kind.", "Combinations of metadata and kinds."),
'C24': ("OGR (python bindings) reads karta's files at the moment writing returns; files made by OGR are read by karta; PROJ for geometries in several systems.", "All types, record counts, attribute types (missing values, dates, text in any alphabet), null geometry and deleted records, datums.", "Field layout depends on all records together."),
'C25': ("ElementTree reads karta's documents, and documents generated as XML are read by karta.", "Waypoints, tracks with segments, routes, extensions, elevations, foreign namespaces, orders.", "Properties must not move between elements."),
'C26': ("Lists of vertices; arc-length positions; geodesics by pyproj.", "Lines with short and zero-length segments, any spacing; slices of any bounds and steps; extension over systems.", "Remainders carried over segments."),
'C27': ("Complete state snapshots (values, dtype, attributes, crs) before and after each question; answers of a fresh object built from the same content; mutation of everything given or returned.", "Histories of questions and edits on all geometries and grids; several threads.", "State leaks need a sequence."),
'C28': ("PROJ itself, independent closed formulas and constants for the predefined systems, composed projections, and the definitions' ellipsoids; equality compared with the definitions.", "Predefined and user-defined systems, scalars and vectors, all geometry types.", "Each definition is a case."),
'C29': ("pyproj.Geod (Karney) with tolerances of the documented method; symmetry and walk-back checks.", "Poles, equator, meridians, antipodal regions, tiny distances, several ellipsoids; planar and mixed systems.", "Special directions and quadrants."),
'C30': ("Web Mercator in closed form.", "All zooms, tile edges, limits of the map, the 180th meridian, other systems.", "Edge positions."),
'C31': ("Independent areas: pyproj for ellipsoids, spherical excess for spheres, exact for polygons around a pole.", "Small and large, equator, dateline, poles, holes.", "Edges that cross something."),
}
