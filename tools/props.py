# -*- coding: utf-8 -*-
"""The table of properties: properties.jsonl and MANIFEST.json are generated from it."""
PROPS = []


def P(id, title, statement, quant, why, files, mech, observe, over=("inputs",), **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, quant=quant, why=why, files=list(files),
                      mech=list(mech), observe=list(observe), over=list(over), **kw))


P("C01", "A raster band reads back exactly what was last written",
  "For any sequence of reads and writes of raster data - through single cells, slices with any start, stop and step, "
  "boolean masks, whole blocks, on one or several bands, on plain or compressed storage - every read returns, cell for "
  "cell, the value most recently written to that cell (or the declared initial value), and a write changes only the cells "
  "it addresses. Arrays handed to or obtained from the raster do not stay aliased with it. Compressed storage is "
  "indistinguishable from plain storage, whatever chunk size it uses.",
  "all histories of block and index operations, all shapes, chunk sizes, data types and band counts",
  "Tests write and read a handful of fixed blocks; wrong chunk arithmetic, clobbering at chunk borders or band mix-ups "
  "show only for particular combinations of offsets, strides, chunk size and history.",
  ["karta/raster/band.py", "karta/raster/grid.py"],
  [("CompressedBand.getblock/setblock", "karta/raster/band.py"), ("BandIndexer", "karta/raster/band.py"),
   ("RegularGrid.__getitem__/__setitem__", "karta/raster/grid.py")],
  ["values returned by indexing and getblock"], over=("inputs", "histories"))

P("C02", "Grid georeferencing: coordinates, indices and extents agree",
  "For every affine georeferencing (any origin, positive or negative resolution, skew or rotation) the cell-centre, "
  "cell-corner and node coordinates a grid reports are those of its affine transform, and indices computed from positions "
  "(rounded or fractional) invert them, so the index of a cell's centre is that cell and a position outside the grid is "
  "refused. Extents and bounding boxes, by centre or edge, are the tight boxes around those coordinates, in the grid's own "
  "or another coordinate system.",
  "all transforms, grid sizes, positions on and off the grid, and coordinate systems",
  "Tests use a few axis-aligned grids and one skewed one; sign, skew and rounding errors depend on the transform.",
  ["karta/raster/grid.py", "karta/raster/coordgen.py"],
  [("RegularGrid.center_llref/coordinates/vertex_coords/center_coords", "karta/raster/grid.py"),
   ("RegularGrid.positions/get_positions/get_indices", "karta/raster/grid.py"),
   ("RegularGrid.extent/bbox", "karta/raster/grid.py"), ("CoordinateGenerator", "karta/raster/coordgen.py")],
  ["coordinates, indices, extents"])

P("C03", "Sampling a grid returns the cell value or the bilinear interpolant",
  "Nearest sampling of any point inside a grid returns the value of a cell whose centre is nearest (in index space), and "
  "bilinear sampling returns the bilinear interpolant of the four surrounding cell centres, for every band, data type, "
  "georeferencing and geometry passed (point, multipoint, coordinates in another coordinate system); points outside, and "
  "bilinear samples touching nodata, yield nodata. Results are ordered as the points and bands were given, and profiles "
  "along a line are samples at points equally spaced along it, starting at its first vertex.",
  "all grids, bands, data types, sample positions and lines",
  "Tests sample a few interior points of one synthetic grid; borders, band order, skew, nodata and integer types are "
  "combinations the tests do not reach.",
  ["karta/raster/grid.py", "karta/raster/crfuncs.pyx", "karta/vector/geometry.py"],
  [("RegularGrid.sample/sample_nearest/sample_bilinear/profile", "karta/raster/grid.py"),
   ("sample_bilinear kernels", "karta/raster/crfuncs.pyx"), ("Line.to_points", "karta/vector/geometry.py")],
  ["returned samples and profile coordinates"])

P("C04", "Clip, resize and chunking never move data on the ground",
  "Clipping a grid to a box or region, resizing it to a larger, smaller or disjoint box, and cutting it into chunks all "
  "return grids in which every cell keeps exactly the value and the ground position it had in the source. Clips cover "
  "every cell centre in the requested box and no more than needed, a resized grid covers the requested box and is nodata "
  "where the source had no cell, and chunks with overlap cover the whole grid, each cell at least once; the source is "
  "never changed.",
  "all grids and boxes inside, straddling, covering or off the grid, all chunk sizes and overlaps",
  "Tests clip and resize one aligned grid; off-by-one-cell errors depend on how the box falls on the cells.",
  ["karta/raster/grid.py"],
  [("RegularGrid.clip", "karta/raster/grid.py"), ("RegularGrid.resize", "karta/raster/grid.py"),
   ("RegularGrid.aschunks", "karta/raster/grid.py")],
  ["values, transform and size of the result"])

P("C05", "Resampling yields the source sampled at the new cell centres",
  "Resampling a grid to any other resolution gives a grid over the same ground whose cells hold the source's nearest or "
  "bilinear value at their own centres, in every band, with nodata wherever the source has none; unsupported methods are "
  "refused.",
  "all source grids, nodata patterns and target resolutions",
  "Tests compare one smooth surface at one resolution.",
  ["karta/raster/grid.py"],
  [("RegularGrid.resample", "karta/raster/grid.py")], ["resampled values and transform"])

P("C06", "A mosaic of grids is the weighted mean where they overlap",
  "Merging grids of equal resolution aligned to whole cells covers exactly the union of their extents; every cell holds "
  "the weighted mean of the grids having data there, cells covered by one grid keep its value, and cells covered by none "
  "are nodata. Grids of different resolution, misaligned or with different numbers of bands are refused, and inputs are "
  "left unchanged.",
  "all sets of aligned grids, overlaps, nodata patterns, weights, band counts and data types",
  "Tests merge a few squares with fixed offsets; negative offsets, nodata holes, weights and integer overflow interact.",
  ["karta/raster/misc.py", "karta/raster/grid.py"],
  [("merge", "karta/raster/grid.py")], ["values, extent, nodata of the mosaic"])

P("C07", "Nodata cells are never treated as data",
  "Masks, minimum and maximum, data extent, and applying a function take exactly the cells that are not nodata into "
  "account, whatever the nodata marker (NaN or a number) and data type; redefining nodata re-marks exactly those cells. "
  "Adding or subtracting grids works cell by cell and is refused when size or georeferencing differ.",
  "all nodata patterns, markers, data types, band counts and georeferencings",
  "Tests use NaN or a single marker in one float grid.",
  ["karta/raster/grid.py"],
  [("RegularGrid.data_mask/data_mask_full/data_extent/minmax/apply/set_nodata_value", "karta/raster/grid.py"),
   ("get_nodata", "karta/raster/grid.py")],
  ["masks, statistics, values"])

P("C08", "Masking by polygons keeps the inside and blanks the outside",
  "Masking a grid by one or several polygons keeps the value of every cell well inside any of them and turns every cell "
  "well outside all of them (further than about one cell from the boundary) into nodata, whatever the winding order, cell "
  "shape or position of the polygons relative to the grid. The source grid changes only when asked to work in place.",
  "all polygons and grids, including rectangular cells, straddling and off-grid polygons",
  "Tests mask with one circle-like and one square polygon on square cells.",
  ["karta/raster/grid.py", "karta/raster/crfuncs.pyx", "karta/raster/misc.py"],
  [("RegularGrid.mask_by_poly", "karta/raster/grid.py"), ("mask_poly", "karta/raster/crfuncs.pyx")],
  ["mask of the result"])

P("C09", "Gridding points averages exactly the points falling in each cell",
  "Gridding scattered points onto a transform gives, per cell, the arithmetic mean of the values of the points that fall "
  "in it and nodata where none does, however many points share a cell, whatever their order and number type. The grid "
  "reaches from the given origin to the furthest point, and points before the origin are refused.",
  "all point sets, including many points per cell, boundary positions and number types",
  "Tests grid a few hundred points once; count overflow and edge rows need large or adversarial inputs.",
  ["karta/raster/grid.py", "karta/raster/misc.py"],
  [("gridpoints", "karta/raster/grid.py")], ["gridded values"])

P("C10", "Terrain derivatives are exact on planes and blank beside nodata",
  "Slope, aspect, gradient, divergence and normalised potential vectors of a grid equal their finite-difference "
  "definition (3x3 weighted differences in ground units) at every interior cell of the chosen band; on planes they equal "
  "the analytic derivative for any cell shape and orientation, and a cell whose stencil touches nodata is nodata, never a "
  "number derived from the marker. Hillshading is the light direction against the unit normal of the surface in ground units, outliers clipped, and blank exactly where the gradient is; skewed grids are refused.",
  "all surfaces, cell sizes and signs, nodata patterns and bands",
  "Tests compare one smooth surface on one grid.",
  ["karta/raster/misc.py"],
  [("slope/aspect/gradient/divergence/normed_potential_vectors/hillshade", "karta/raster/misc.py")],
  ["derived grids"])

P("C11", "Grid files hold the whole grid where it lies, and read back the same",
  "When writing a grid returns, the GeoTIFF or ASCII grid is complete: every cell of every band with its value at its position on the "
  "ground - for any origin, resolution, rotation, data type, size, nodata value, compression and tiling - and the coordinate system. Reading it, in memory or from "
  "disk, all or some bands, alone or stacked with others of the same georeferencing, gives the same grid, and so do files made by other software. "
  "A grid on disk answers every operation as the same grid in memory does, its copies stay valid, and it refuses changes. Grids an ASCII grid cannot "
  "hold are refused, and writing never changes the grid or closes a file it was given.",
  "all grids, storage options, files made elsewhere, and histories of operations on grids on disk",
  "Tests write one float grid and mostly check that a file exists; they do not read ASCII grids back.",
  ["karta/raster/_gdal.py", "karta/raster/_aai.py", "karta/raster/read.py", "karta/raster/grid.py"],
  [("write, read, GdalFileBand", "karta/raster/_gdal.py"), ("read_geotiff, from_geotiffs, read_aai", "karta/raster/read.py"),
   ("aairead", "karta/raster/_aai.py"), ("RegularGrid.to_geotiff/to_aai", "karta/raster/grid.py")],
  ["files as GDAL reads them, grids read back, results of operations"], over=("inputs", "histories"))

P("C12", "Point queries with a spatial index equal a scan of every point",
  "Selecting the points of a collection within a box, within a radius of a point, or inside a polygon returns exactly the "
  "points a plain scan would select - with or without a spatial index, for any number and arrangement of points (repeated, "
  "in line, clustered, three-dimensional), across the dateline and poles in geographical coordinates, and when the query "
  "geometry is in another coordinate system. The selected points keep their coordinates and their own attributes, and "
  "nearest-vertex queries return a vertex at the minimum distance.",
  "all point sets, index depths, query boxes, radii, polygons and coordinate systems",
  "Tests query one random cloud; missed quadrants, boundary points or attribute mix-ups depend on the arrangement.",
  ["karta/vector/geometry.py", "karta/vector/quadtree.pyx", "karta/vector/quadtree.h"],
  [("Multipoint.within_bbox/within_radius/within_polygon", "karta/vector/geometry.py"),
   ("QuadTree", "karta/vector/quadtree.pyx")],
  ["members, coordinates and attributes of the selection"])

P("C13", "Line and polygon collection queries equal a scan of every member",
  "Asking a collection of lines or polygons, planar or geographical, for the members within or touching a box, touching a line or polygon (in its own or another system), or "
  "within a polygon returns exactly the members a plain scan would return, once each, with their own attributes, for any "
  "number of members (so for any depth of the R-tree index), any arrangement (identical, clustered, degenerate, "
  "axis-parallel, three-dimensional) and any query; a limit on the number of results is honoured.",
  "all collections, index depths and queries",
  "Tests index a few hundred well-spread members; split and bounding-box errors need particular insertion histories.",
  ["karta/vector/geometry.py", "karta/vector/rtree.pyx", "karta/vector/rtree.h"],
  [("MultiVertexMultipart within_bbox/touching_bbox/touching/within", "karta/vector/geometry.py"),
   ("R-tree insert/split/search", "karta/vector/rtree.h")],
  ["members returned"], over=("inputs", "histories"))

P("C14", "Native indexes and kernels never touch memory they do not own",
  "No public operation - building, growing, querying, editing or dropping quadtrees, R-trees and geometries, sampling and "
  "gridding rasters, reading files - reads or writes outside native memory, uses it after it is freed, has undefined "
  "behaviour, loses it, recurses without end or ends the process, for any input including empty, degenerate, duplicate, "
  "huge, infinite or NaN coordinates, invalid indices and damaged files: it answers (correctly, where there is an answer) "
  "or raises an ordinary Python exception. Objects backed by files stay usable after those they came from are dropped.",
  "all inputs and object lifetimes, at all tree depths and fill levels",
  "Tests run on an uninstrumented build, where overruns and leaks go unseen, and with well-formed input.",
  ["karta/vector/quadtree.pyx", "karta/vector/quadtree.h", "karta/vector/pool.h", "karta/vector/rtree.h", "karta/vector/rtree.pyx", "karta/vector/vectorgeo.pyx", "karta/vector/contains.pyx",
   "karta/vector/intersection.pyx", "karta/vector/convexhull.pyx", "karta/raster/crfuncs.pyx", "karta/raster/_gdal.py"],
  [("quadtree build/split/free", "karta/vector/quadtree.pyx"), ("R-tree node pool, insert, split, search", "karta/vector/rtree.h"),
   ("sampling and gridding kernels", "karta/raster/crfuncs.pyx")],
  ["sanitizer reports", "process exit", "answers"], over=("inputs", "histories"),
  tech="AddressSanitizer, LeakSanitizer-style growth monitor and UndefinedBehaviorSanitizer on the native modules, with online oracles",
  note="No sanitizer report, crash, hang or native growth on the monitored executions; karta's native modules are "
       "instrumented, third-party libraries (GDAL, PROJ, blosc, coordstring) only through the intercepted allocator.")

P("C15", "Intersection tests agree with geometry exactly",
  "Two lines or polygons are reported as intersecting if and only if some segment of one meets some segment of the other "
  "(shared points, touching, overlapping, vertical, retraced and degenerate segments included), the answer does not "
  "depend on the order of the operands, and it always arrives. The intersection points reported lie on both geometries "
  "and include every proper crossing. In geographical coordinates segments are great circle arcs, in either hemisphere, "
  "across the dateline and over poles; a geometry in another coordinate system is reprojected first.",
  "all pairs of lines and polygons on the plane and on the sphere",
  "Tests use a few clean crossings; sweep-line order errors and contact cases need particular configurations.",
  ["karta/vector/geometry.py", "karta/vector/vectorgeo.pyx", "karta/vector/intersection.pyx"],
  [("_intersects/_intersections of Line and Polygon", "karta/vector/geometry.py"),
   ("segment intersection predicates", "karta/vector/intersection.pyx"),
   ("intersection points", "karta/vector/vectorgeo.pyx")],
  ["answers and intersection points"])

P("C16", "Polygon containment is exact, with holes, poles and dateline",
  "A polygon contains a point if and only if the point is inside its outer ring or on a boundary and not inside a hole "
  "(unless in an island within it), whatever the winding direction, vertex positions relative to the point or scale. In "
  "geographical coordinates the same holds for polygons enclosing a pole or crossing the dateline. Points in another "
  "coordinate system are reprojected first.",
  "all simple polygons and points, planar and spherical",
  "Tests check a few points; ray-through-vertex, horizontal edge and dateline cases depend on exact alignment.",
  ["karta/vector/geometry.py", "karta/vector/contains.pyx", "karta/vector/dateline.pyx"],
  [("Polygon.contains/ispolar", "karta/vector/geometry.py"), ("contains, contains_proj", "karta/vector/contains.pyx")],
  ["answers"])

P("C17", "Convex hulls are convex, minimal and contain every vertex",
  "The convex hull of any points, line or polygon is a polygon whose corners are input vertices, that turns the same way "
  "at every corner, and that contains every input vertex; repeated vertices, points in line and arbitrary scale do not "
  "matter. For geographical coordinates spanning less than a hemisphere the hull is the great-circle hull.",
  "all point sets",
  "Tests compute two hulls; ties in angle and repeated points break sort-based algorithms only in special arrangements.",
  ["karta/vector/geometry.py", "karta/vector/convexhull.pyx"],
  [("convex_hull", "karta/vector/geometry.py")], ["hull vertices"])

P("C18", "Nearest positions and distances to boundaries are the true minima",
  "The nearest position on a line or polygon boundary to a point lies on the boundary, and no other position of any "
  "segment - a polygon's closing segment included - is closer; the shortest distance is the distance to it, a "
  "within-distance test compares exactly that distance, and the nearest vertex is at the minimum vertex distance. This "
  "holds on the plane at any scale, along geodesics on the ellipsoid and sphere (to centimetres-to-decimetres), across "
  "the dateline, and for points in another coordinate system.",
  "all lines, polygons and points",
  "Tests measure two or three points to one line.",
  ["karta/vector/geometry.py", "karta/vector/vectorgeo.pyx"],
  [("shortest_distance_to/nearest_on_boundary/within_distance/nearest_vertex_to", "karta/vector/geometry.py"),
   ("pt_nearest_planar, pt_nearest_proj", "karta/vector/vectorgeo.pyx")],
  ["distances and positions"])

P("C19", "Lengths, perimeters, areas and centroids are exact measures",
  "Length of a line, perimeter, area, centroid and winding of a polygon are those of its vertices, wherever it lies, "
  "whatever its scale, winding or first vertex; holes are subtracted from the area and added to the perimeter. "
  "Cumulative length has one entry per vertex, the last being the length. In geographical coordinates lengths and "
  "perimeters are sums of geodesics on the ellipsoid of the coordinate system, across the dateline as elsewhere.",
  "all lines and simple polygons, with holes, planar and geographical",
  "Tests measure a handful of unit shapes near the origin; cancellation, closing segments and winding matter elsewhere.",
  ["karta/vector/geometry.py", "karta/vector/vectorgeo.pyx"],
  [("length/perimeter/area/centroid/isclockwise/cumulength/displacement", "karta/vector/geometry.py"),
   ("length kernel", "karta/vector/vectorgeo.pyx")],
  ["measures"])

P("C29", "Geodesic, distance and azimuth computations are correct everywhere",
  "Distances, azimuths, and end points computed between points in geographical or projected coordinates are those of the "
  "geodesic on the ellipsoid (or great circle on the sphere): symmetric in distance, azimuths measured clockwise from "
  "north in (-180, 180], walking the distance along the azimuth reaches the point, and the module-level geodesic solvers "
  "agree with them along meridians, the equator, from and to the poles, across the dateline, between nearly "
  "opposite positions and at all scales. On the "
  "plane they are the Euclidean distance and compass bearing.",
  "all pairs of positions, all ellipsoids (the Earth's and flatter ones; the solver may give up, with a warning, on nearly opposite "
  "positions within a kilometre of the equator)",
  "Tests check a few pairs; special cases (equator, meridians, poles, dateline) are measure zero in random sampling.",
  ["karta/geodesy.py", "karta/vector/geometry.py", "karta/crs.py"],
  [("ellipsoidal_forward/inverse and spherical solvers", "karta/geodesy.py"),
   ("Point.distance/azimuth/walk", "karta/vector/geometry.py"), ("CRS.forward/inverse", "karta/crs.py")],
  ["distances, azimuths and end points"])

P("C31", "Geographical polygon areas are correct on sphere and ellipsoid",
  "The area of a polygon in geographical coordinates is the area enclosed by its edges on the sphere or ellipsoid of its "
  "coordinate system, independent of winding, first vertex and longitude, for small and large polygons, across the "
  "equator and the dateline and around a pole; holes are subtracted.",
  "all simple geographical polygons and ellipsoids",
  "Tests compute two areas; hemisphere, dateline and pole cases and small polygons fail independently.",
  ["karta/vector/geometry.py", "karta/geodesy.py"],
  [("Polygon.area", "karta/vector/geometry.py"),
   ("spherical_area, ellipsoidal_area, hemisphere_area", "karta/geodesy.py")],
  ["areas"])

P("C20", "Transforming a geometry maps every vertex and nothing else",
  "Applying an affine transform (2x3 or 3x4 matrix, singular or not), a shift or a rotation about an origin to any geometry "
  "yields the geometry of the mapped vertices: same kind, parts, rings (including holes and islands within them), order and "
  "dimensions, same coordinate system, properties and attribute rows; the original is unchanged, the operation that "
  "documents itself as in-place changes it alone, and results of earlier queries (boxes, indexes) do not survive in the "
  "result. affine_matrix returns the least-squares affine map from one set of control points to another.",
  "all geometries of every kind and all matrices",
  "Tests transform one or two points or lines; cached boxes, sub-polygons, third coordinates and multipart tables are separate paths.",
  ["karta/vector/geometry.py", "karta/vector/utilities.py"],
  [("apply_transform/shift/_shift/rotate/rotate2d", "karta/vector/geometry.py"),
   ("affine_matrix", "karta/vector/geometry.py")],
  ["vertices, attributes and boxes of results"])

P("C21", "Bounding boxes are tight around the geometry",
  "The bounding box (and extent) of a planar geometry is exactly the minima and maxima of its vertices, in its own "
  "coordinate system, whatever operations were made before; in another projected system it is that of the vertices there. The box of a "
  "geographical line, polygon or collection contains its geodesic edges, also where they bulge towards a pole, cross the "
  "dateline (west limit east of the east limit) or enclose a pole, and is no larger than they need. A geometry says that it crosses the dateline if and only if an edge does.",
  "all geometries, planar and geographical",
  "Tests check a few boxes; each of dateline, pole, bulge and cached-box cases needs its own geometry.",
  ["karta/vector/geometry.py", "karta/vector/dateline.pyx"],
  [("bbox/get_bbox/extent/get_extent", "karta/vector/geometry.py"), ("bbox/crosses_dateline kernels", "karta/vector/dateline.pyx")],
  ["bounding boxes and extents"])

P("C22", "Attributes stay with their members through every edit",
  "For every history of construction, indexing, slicing, item assignment, extension, attribute assignment and queries on a multipart geometry, "
  "the i-th member carries the coordinates and the attribute row that a plain list of (coordinates, row) pairs would have, "
  "and its properties; geometries do not share attribute storage with the arguments they are made of or the results taken from them. A Table "
  "behaves as a list of typed rows under append, extend, field edits, column and row reads. Columns whose length differs "
  "from the number of members are refused.",
  "all histories of edits, all member kinds and field types",
  "Tests make one edit and look at one row; misaligned rows show after merges, slices or queries combined.",
  ["karta/vector/geometry.py", "karta/vector/table.py"],
  [("Multipoint/Multiline/Multipolygon __init__, __getitem__, __setitem__, extend", "karta/vector/geometry.py"),
   ("Table, Indexer", "karta/vector/table.py")],
  ["members, rows and fields after every operation"], over=("inputs", "histories"))

P("C23", "GeoJSON and the geo interface say what the geometry is and read back as it",
  "A geometry written as GeoJSON - to a string, a path or an open file - or handed over by the geo interface is described completely: its "
  "type, every vertex in order with its third coordinate if any, rings closed once, holes, parts, properties and per-vertex or per-part attributes; "
  "geometries in other coordinate systems are brought to WGS84 or name their own system. Reading it back, or reading any valid GeoJSON (features, collections, "
  "bare geometries, nested collections, missing or null properties), or taking a geometry from shapely, gives the same geometry. "
  "Writing and reading change neither the geometry nor the document.",
  "all kinds of geometries, dimensions, attributes, properties and documents",
  "Tests compare a few fixed documents of single features without holes, third coordinates or column attributes.",
  ["karta/vector/_geojson.py", "karta/vector/read.py", "karta/vector/geometry.py"],
  [("GeoJSONReader, GeoJSON serializers", "karta/vector/_geojson.py"), ("read_geojson, from_shape, _convert_geojson", "karta/vector/read.py"),
   ("to_geojson, geomdict, __geo_interface__", "karta/vector/geometry.py")],
  ["documents, geometries"], over=("inputs", "histories"))

P("C24", "Shapefiles written are complete and read back the same",
  "When writing a shapefile returns, the files are complete: they hold one record per geometry in the order given, with all parts, "
  "holes and third coordinates, the attributes of each record with their values and types (integers of any size, decimals, text in any alphabet, dates, "
  "missing values), and the coordinate system; geometries in several systems are written where they are, in the system of the first. Reading gives the same geometries, attributes and datum; records without geometry, "
  "deleted records and missing values in shapefiles from elsewhere are handled without disturbing the others.",
  "all kinds of geometries and lists of them, attribute names, types and values, and shapefiles made by other software",
  "Tests read a few fixtures and do not read back what they write.",
  ["karta/vector/_shp.py", "karta/vector/read.py", "karta/vector/geometry.py"],
  [("write_shapefile, ogr_write", "karta/vector/_shp.py"), ("read_shapefile", "karta/vector/read.py"), ("to_shapefile", "karta/vector/geometry.py")],
  ["files as OGR reads them, geometries"], over=("inputs", "histories"))

P("C25", "GPX documents keep every waypoint, track and route in order",
  "Waypoints, tracks with their segments, and routes put in a GPX document and written to a file or string are all there in order, with "
  "positions to the precision of the format, as WGS84 longitudes and latitudes whatever terrestrial system the geometries are in, and every property, extension and elevation on the element it belongs to; writing can leave out "
  "any of the three kinds. Reading such a document, or one from elsewhere (empty elements, elements in any order, foreign namespaces, "
  "extensions), gives the same content as a document or as geometries, and writing it again changes nothing. The geometries given are unchanged, and stay so when the document is edited.",
  "all documents, geometries, properties and extensions",
  "Tests check the counts of elements of one track file and coordinates without attributes.",
  ["karta/vector/_gpx.py", "karta/vector/read.py"],
  [("GPX.add_waypoint/add_track/add_route/parse_*/build_*/as_string/writefile", "karta/vector/_gpx.py"),
   ("read_gpx_waypts/read_gpx_tracks", "karta/vector/read.py")],
  ["documents, geometries"], over=("inputs", "histories"))

P("C26", "Lines and rings decompose and recombine exactly",
  "A line's segments join consecutive vertices and a polygon's also the last to the first, in every view (segments, segment "
  "tuples, vertices, rings, coordinate lists, iteration, indices and slices with any bounds and step); conversions between line and "
  "polygon and extension by another line (also in another coordinate system) keep all vertices, attributes and the "
  "coordinate system. to_npoints returns exactly n points equally spaced along the line from its first to its last vertex and to_points "
  "all points at multiples of the spacing, on planar lines at any scale; to_npoints does so along geodesics too.",
  "all lines and polygons, slices, spacings and numbers of points",
  "Tests use one line with round lengths; points lost at corners or by rounding depend on the lengths.",
  ["karta/vector/geometry.py"],
  [("segments/segment_tuples/vertices/__getitem__", "karta/vector/geometry.py"),
   ("Line.to_points/to_npoints/extend/to_polygon, Polygon.to_line", "karta/vector/geometry.py")],
  ["vertices, segments, spaced points"])

P("C27", "Asking questions changes nothing; equality follows content",
  "Whatever has been asked of an object before, and by however many threads at once, its answers are those of an object built afresh from the same content: "
  "no query, derivation or comparison changes the objects or arguments involved, nothing returned or given stays "
  "aliased with an object (grids, geometries, attribute tables, properties), and after an edit - extending a line, assigning a point, "
  "setting a field, writing cells - every answer is that for the new content, while copies, slices and derived "
  "objects stay as they were. Objects are equal exactly when kind, positions, rings, attributes, properties and system are, and "
  "equal objects have equal hashes.",
  "all histories of queries and edits over all kinds of objects, and schedules of concurrent queries",
  "Tests ask one question of a fresh object; stale caches, shared containers and mutated arguments need a history.",
  ["karta/vector/geometry.py", "karta/vector/table.py", "karta/vector/decorators.py", "karta/raster/grid.py", "karta/raster/band.py", "karta/crs.py"],
  [("cache decorators and _cache resets", "karta/vector/decorators.py"), ("Multipoint.__setitem__, Line.extend, Geometry.__eq__/__hash__", "karta/vector/geometry.py"),
   ("RegularGrid.copy/__getitem__/__setitem__", "karta/raster/grid.py")],
  ["answers, object contents, arguments and returned containers"], over=("inputs", "histories", "schedules"))

P("C28", "Coordinate systems project, invert, transform and identify themselves correctly",
  "Predefined systems are the published ones they are named for. Projecting positions and back returns them (in degrees or radians), for predefined and user-defined systems; transforming between systems agrees "
  "with PROJ for the systems' definitions, with composing projections where the datum is shared, and is undone by the reverse transform. "
  "Vertices of any geometry in another system are the projected vertices with order, rings, parts and third coordinates "
  "kept, and the geometry unchanged. A system's ellipsoid is the one its definition names (by name, datum, axes, radius or flattening), for "
  "its attributes and geodesics alike; written as WKT and read back it gives the same coordinates, ellipsoid and datum. Systems of "
  "the same definition are equal with equal hashes whatever their name, copies included, and others differ.",
  "all positions in the domain of all predefined systems and of families of definitions",
  "Tests project a few points in two or three systems.",
  ["karta/crs.py", "karta/vector/geometry.py"],
  [("GeographicalCRS/ProjectedCRS project/transform/__eq__/__hash__", "karta/crs.py"),
   ("parse_ellipsoid, Ellipsoid, crs_from_wkt, CRS.get_wkt", "karta/crs.py"),
   ("Geometry.vertices/vertex/coords(crs)", "karta/vector/geometry.py")],
  ["coordinates, ellipsoids, equality"])

P("C30", "Web map tiles contain their points and partition the map",
  "The tile found for a position at a zoom level contains it, for positions anywhere on the map including tile edges, the limits of "
  "the map and the 180th meridian and positions in other coordinate systems; tile corners and boxes follow the Web Mercator tiling, "
  "neighbouring tiles share edges, and the four children of a tile make it up.",
  "all positions and zoom levels",
  "Tests check two tiles; edges are measure zero.",
  ["karta/tile.py"],
  [("tile_from_point, Tile.nw_corner, Tile.bbox", "karta/tile.py")],
  ["tile indices, corners and boxes"])
