#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property list)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=hook))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)

NOTEST = "No existing test touches this module at all; "

p("C01", "A bounding box is tight, exactly measured, and moved or scaled exactly",
  "A box built from any non-empty collection of points is the smallest axis-aligned box whose closed extent holds every one of them, whatever their order and whatever kind of iterable supplies them. Width, height, area, diagonal and centre are exactly those of its corners. Translating or scaling a box (by method or by operator) returns a new box displaced by exactly the given vector, respectively with both sides multiplied by the factor about an unchanged centre, and leaves its operands unchanged.",
  ["inputs"], "all point collections (any order, duplicates, one point, negative and fractional coordinates, lists, generators) and all boxes, vectors and factors",
  "test_bbox builds one family of circles and one fixed box; a maximum that comes first, a single point, an iterator or a non-square box is never tried.",
  ["coral/bbox.py"], [("construction", "BBox.__init__"), ("measures", "BBox.width/height/area/hypot/center"), ("affine", "BBox.translate/scale and + - * /")],
  ["BBox(points)", "BBox methods and operators"])
p("C02", "Box union, intersection, collision and containment agree with membership",
  "A point belongs to a box when it is on or above the low edges and strictly below the high edges. For boxes of positive area, two boxes collide exactly when some point belongs to both, their intersection holds exactly the points that belong to both (the empty box if none), and a box contains another exactly when both corners of the other belong to it. The union of two boxes of any extent, zero width or height included, is the smallest box covering both, the default empty box is neutral for union (None changes no other box either) and a box of zero area makes every intersection empty; the membership operator answers like the corresponding method and operands never change.",
  ["inputs"], "all pairs of boxes and all points, including touching, nested, degenerate, disjoint and equal boxes",
  "The tests use one pair of overlapping boxes; edge-touching, degenerate and disjoint configurations are not exercised.",
  ["coral/bbox.py"], [("union/intersection", "BBox.__or__/__and__"), ("membership", "BBox.has_point/has_bbox/collide/__contains__")],
  ["BBox operators | & in", "has_point, has_bbox, collide"])
p("C03", "Box equality, hashing and ordering are mutually consistent",
  "Two boxes are equal exactly when all four coordinates are equal, unequal otherwise, and equal boxes have equal hashes; nothing but a box equals a box. The order relations compare areas: for any two boxes exactly one of smaller, larger or same area holds, and each of the four comparisons answers according to it, so a > b always means b < a. A box counts as true exactly when its area is not zero.",
  ["inputs"], "all pairs of boxes, including distinct boxes of equal area and boxes whose coordinates hash alike",
  "test_compare compares one box with three scaled copies; equal-area pairs and colliding hashes never occur.",
  ["coral/bbox.py"], [("equality", "BBox.__eq__/__hash__"), ("ordering", "BBox.__lt__ and derived comparisons")],
  ["== != < <= > >= hash bool"])
p("C04", "The ring buffer is a faithful bounded double-ended queue under any history",
  "For every capacity that is a power of two and every history of operations, a buffer holds exactly the items pushed and not yet removed, in order: push adds at the new end, pop and peek remove and show the newest item, shift removes the oldest. Emptiness and fullness are reported exactly, an impossible operation (push when full; pop, peek or shift when empty) is refused and changes nothing, and the text form lists the contents from oldest to newest.",
  ["histories"], "all capacities 1,2,4,8,... and all sequences of push/pop/peek/shift/inspect, including many wrap-arounds",
  "test_buffer runs a single fixed history on one capacity.",
  ["coral/coord.py"], [("ring indices", "Buffer._inc/_dec/isfull/isempty"), ("operations", "Buffer.push/pop/peek/shift")],
  ["Buffer methods"], [("contents", "items between start and end index", "Buffer.buf/s/e")])
p("C05", "Polyline simplification only removes redundant points and retraced slits",
  "Simplifying an open path divides every coordinate by the scale, rounds it to the nearest integer (halves away from zero), and outputs a subsequence of these points that begins with the first and ends with the last one; an empty path gives an empty result. The output traces every grid segment the same net number of times in each direction as the rounded path does, so that nothing but retraced excursions and superfluous intermediate points ever disappears. When the rounded path never doubles back, the output is exactly its first point, its turning points and its last point, and an excursion that leaves a vertex and exactly retraces its steps disappears completely as long as it has fewer turning points than the window size (a power of two).",
  ["inputs"], "all point sequences, scales and window sizes, from lists or generators",
  NOTEST + "simplify is never called by a test, and shape preservation is a statement about every path.",
  ["coral/coord.py"], [("rounding", "sqr_fit/nearest"), ("reduction", "open_no_slit/collinear"), ("window", "Buffer")],
  ["coord.simplify(..., closed=False)"])
p("C06", "Ring simplification preserves the boundary of every closed ring",
  "Simplifying a closed ring (its first point repeated at the end or not) outputs rounded vertices of that ring which, joined cyclically, trace every grid segment the same net number of times in each direction as the rounded ring does, hence the same boundary, orientation and signed area. This holds for every number of corners, every starting vertex and every window size (a power of two). A ring that never doubles back keeps all of its turning points and, beyond them, no vertex other than its starting point. An excursion that leaves a vertex of such a ring and exactly retraces its steps disappears as long as it has fewer turning points than the window size, even if the ring starts within it (and it leaves in another direction than those of the ring's edges).",
  ["inputs"], "all rings (any number of corners below, at and above one and two window sizes), orientations, starting vertices, scales",
  NOTEST + "closed simplification is never called by a test.",
  ["coral/coord.py", "coral/frame.py"], [("reduction", "closed_no_slit"), ("entry", "simplify(closed=True), Frame.planify")],
  ["coord.simplify(..., closed=True)"])
p("C07", "Table columns encode every accepted value in a fixed size and decode it back",
  "Each integer, real or string column stores any value it accepts, including both bounds and null in a nullable column, in exactly its declared number of bytes and reads it back: integers and strings exactly, reals inside the declared range and within half a quantization step (up to floating-point rounding), with both bounds and null distinguishable and the order of values preserved. A value outside the range, a text longer than the column, a value that is no number (NaN), a null in a non-nullable column, a text that the column could not give back (ending in NUL, or empty in a nullable column of no bytes) and a row with too few values are refused; a fraction in an integer column is refused or kept, never silently changed. A row is the concatenation of its columns and decodes to the same values column by column.",
  ["inputs"], "all column declarations (kind, bounds, size 1/2/4/8 or text length, nullable or not) and all values",
  NOTEST + "bounds, nulls and 1- to 8-byte sizes are all distinct cases.",
  ["coral/grid.py"], [("quantization", "IVar/FVar.index, value"), ("packing", "encode/decode of IVar, FVar, SVar, GRow")],
  ["IVar, FVar, SVar, GRow encode/decode"])
p("C08", "Variable-length integers are self-delimiting and lossless",
  "Every non-negative integer written in variable-length form, and every integer in its signed form, is read back unchanged, whatever its magnitude, by both file modules. Reading consumes exactly the bytes written, so that any concatenation of such integers reads back as the same sequence; the form uses the fewest 7-bit groups, most significant first, with the high bit set on every byte but the last (the signed form prefixes one sign byte).",
  ["inputs"], "all integers and all sequences of integers",
  NOTEST + "group boundaries (127/128, 16383/16384, ...) need specific values.",
  ["coral/pf.py", "coral/rg.py"], [("encoding", "base128/writevlv/writesvlv"), ("decoding", "readvlv/readsvlv")],
  ["writevlv/readvlv/writesvlv/readsvlv of both modules"])
p("C09", "RangeGrid data sets read back what was written, in any access order",
  "Whatever entities, segments and rows are written through a RangeGrid writer, a reader of the closed data set reports the same columns and, for every entity, the same segments with the same rows (up to the column's own precision). Reading by identifier returns that entity's data at any time and in any order, reading without identifier returns the entity following the last one read, and an unknown identifier is an error. This holds for any history of reads and for empty segments, entities without segments identifiers containing spaces, identifiers that look alike (7 and 07) and data sets of one up to hundreds of columns. Column bounds, column names and identifiers that the format cannot hold are refused when they are given or kept, never silently changed, and an entity that is refused, because of any of its rows or its identifier, leaves no trace. Column names may be any ASCII text. The file's header records the number of columns and of all rows.",
  ["inputs", "histories"], "all schemas, entity lists, segment lengths, identifiers and all read histories",
  NOTEST + "neither files nor access orders are sampled.",
  ["coral/rg.py", "coral/grid.py"], [("header", "Writer._header/Reader._header"), ("index file", "_writeindex/_readindex"), ("cursor", "Reader.read")],
  ["rg.Writer.write/close, rg.Reader.read"], [("cursor", "entity returned by the next sequential read", "Reader.idx and file position")])
p("C10", "P files return every entity's geometry within one quantization step",
  "Entities written to a P file (any names, parts, part lengths and coordinate size) are read back by position (which may count from the end) or by name, in any order and any number of times, with the same names, the same parts and the same number of points, a repeated closing point being dropped. Every coordinate, with longitudes outside +-180 wrapped into it, comes back within half a quantization step of the entity's recorded box, which encloses all its points and exceeds them by at most a 1/65535th of the world on each side. This includes points on the edges of the world, lines along a meridian or parallel, single points and all four coordinate sizes, and closing the writer reports one error per stored point, equal to that point's displacement. Writing always ends, also for positions arbitrarily far off the map. Converting a shapefile stores the entities that its shapes and records make, under the given names. A name the format cannot hold is refused when it is given, or kept; an entity that is refused (for its name, a position that is none or because it has no points) leaves no trace in the file. The file follows the documented format.",
  ["inputs", "histories"], "all entity lists and coordinate sizes, all access orders",
  NOTEST + "degenerate extents, size 1/2/4/8 and multi-byte counts are each special cases.",
  ["coral/pf.py"], [("quantization", "Writer.write"), ("layout", "Writer.close/Reader._header"), ("random access", "Reader.read/get")],
  ["pf.Writer, pf.Reader"], [("offset", "sum of the sizes of preceding entities", "Reader.read")])
p("C11", "Shapefile geometry survives a write/read round trip",
  "Every shape added to a shapefile writer, for each point, multipoint, polyline, polygon and multipatch type with or without elevation and measure, and null shapes mixed among them, is read back with the same type, the same parts and exactly the same coordinates, elevations and measures, and with its exact bounding box. Polygon parts that are not closed come back closed. Shapes come back in the order in which they were added, however many and however large they are, and adding one shape never alters another nor the caller's lists. Files of the same layout written by other programs are read the same way.",
  ["inputs"], "all sequences of shapes of every type, with any number of parts and points",
  NOTEST + "each shape type has its own record layout.",
  ["coral/shapefile.py"], [("writing", "Writer.point/poly/null, __shpRecords"), ("reading", "Reader.__shape")],
  ["shapefile.Writer.save, shapefile.Reader.shapes"])
p("C12", "Shapefile attributes survive a write/read round trip",
  "Every attribute record added to a shapefile writer, positionally or by field name, is read back field by field: text (truncated to the field size in encoded bytes, without surrounding blanks), integers, decimals and logical values keep their value (true ones are read as T, false ones as F), dates given as YYYYMMDD come back as year, month and day, and a missing or empty value comes back as empty text without disturbing any other field or record. Numbers too wide for their field are never shortened. Field names (a blank becomes an underscore), types, sizes and decimal counts are preserved in order. This holds in every text encoding that contains ASCII, including multi-byte ones, and for any number of records including none.",
  ["inputs"], "all field lists, record lists, encodings and ways of passing a record",
  NOTEST + "non-ASCII text, missing fields and empty tables are never tried.",
  ["coral/shapefile.py"], [("writing", "Writer.field/record, __dbfHeader/__dbfRecords"), ("reading", "Reader.__dbfHeader/__record")],
  ["shapefile.Writer.save, shapefile.Reader.records/fields"])
p("C13", "Saved shapefiles are structurally consistent, however often they are saved",
  "In every saved shapefile the header lengths equal the real file sizes, records are numbered from 1, every index entry gives the position and length of the corresponding record, the record and header boxes and ranges are exactly the extremes of the coordinates stored in the file, and the attribute table's header agrees with its record count and record size. Saving again, with or without shapes added in between, produces files just as consistent and equal to those of a fresh writer given the same content. A save writes the files asked for and no other.",
  ["inputs", "histories"], "all contents and all sequences of additions and saves",
  NOTEST + "consistency between three files is a relation over all contents and save histories.",
  ["coral/shapefile.py"], [("lengths", "Writer.__shpFileLength"), ("index", "Writer.__shxRecords and the recorded offsets/lengths"), ("extremes", "Writer.bbox/zbox/mbox, __shapefileHeader")],
  ["bytes of the .shp, .shx and .dbf files"], [("record offsets", "positions recorded while writing records", "Writer._offsets/_lengths")])
p("C14", "A shapefile reader's answers do not depend on what was read before",
  "Whatever sequence of random accesses, whole-file reads and partially consumed iterations has gone before, in any interleaving, a reader returns for a given position exactly the shape, record or shape-record pair stored there, and every iteration yields each item once, in order. Negative positions count from the end and a position outside the file is an index error. A length told wrong by the header of the geometry file changes nothing. The same answers are given with or without an index file, from file names or from file objects, and shapes stay paired with their own records when some records are flagged deleted. A reader that loads another shapefile answers for that one, whatever it has read of the first.",
  ["histories"], "all interleavings of shape/record/shapeRecord/shapes/records/iterShapes/iterRecords/shapeRecords calls",
  NOTEST + "the reader shares one file position among all calls, so only histories reveal interference.",
  ["coral/shapefile.py"], [("random access", "Reader.shape/record/__shapeIndex/__restrictIndex"), ("iteration", "Reader.iterShapes/iterRecords")],
  ["shapefile.Reader methods"], [("file position", "shared cursor of shp and dbf files", "Reader.shp/dbf"), ("offset cache", "index offsets read lazily", "Reader._offsets")])
p("C15", "Shapes export to nested geometry without losing or regrouping rings",
  "The generic geometry view of a shape has the kind matching its type, and every part appears in it exactly once, complete and in order. For polygons, each clockwise ring starts a new polygon and each counter-clockwise ring that follows is a hole of the latest one, a first ring always starting a polygon; a single polygon is exported as such, several as a multi-polygon, one line as a line string, several as a multi-line.",
  ["inputs"], "all shapes: any number of parts, ring orientations and orders",
  NOTEST + "grouping depends on the sequence of ring orientations.",
  ["coral/shapefile.py"], [("export", "_Shape.__geo_interface__"), ("orientation", "signed_area")],
  ["shape.__geo_interface__"])
p("C16", "Raster canvases store pixels independently and save exactly what they hold",
  "On black-and-white, gray and colour canvases of every size, a new canvas shows the background (white unless given) everywhere, setting a pixel changes that pixel only, and reading it returns the value set; setting with an opacity gives the rounded mix of old and new value, the old value at opacity 0 and the new one at opacity 1. A saved file is a well-formed binary bitmap of the canvas' dimensions whose decoded pixels are exactly those of the canvas.",
  ["inputs", "histories"], "all sizes (including widths that are not a multiple of 8), backgrounds and sequences of pixel operations",
  NOTEST + "bit packing depends on the width modulo 8.",
  ["coral/raster.py"], [("addressing", "__getitem__/__setitem__ of the three canvases"), ("mixing", "blend"), ("file", "save")],
  ["canvas[x, y], save"], [("pixels", "packed array of samples", "canvas.data")])
p("C17", "Straight lines are drawn connected, complete and closest to the ideal segment",
  "A line drawn between two pixels paints both ends and exactly one pixel per step of its longer axis, each within half a pixel of the ideal segment, successive pixels being neighbours, and nothing else. A stroked polygon paints exactly the lines between consecutive vertices, including the closing one. Lines never paint outside the rectangle spanned by their ends. Of lines that leave the canvas, or lie outside of it, exactly the part on the canvas is painted.",
  ["inputs"], "all pairs of end points and all polygons inside or partly outside the canvas, on every canvas kind",
  NOTEST + "eight octants and degenerate lines are separate cases.",
  ["coral/raster.py"], [("Bresenham", "BaseCanvas.line"), ("outline", "BaseCanvas.strokepolygon")],
  ["canvas pixels after line/strokepolygon"])
p("C18", "Filled polygons tile the canvas: no gap, no overlap, nothing outside",
  "Filling a ring whose upward edges bound it on the left paints, on every canvas row from its top (included) to its bottom (excluded), exactly the pixels from each left edge (included) to the matching right edge (excluded), edges rounded to the nearest pixel, and rings of opposite orientation cut holes. Polygons that share edges therefore partition the pixels they cover: each pixel is painted by exactly one of them. Parts of polygons that lie outside the canvas paint nothing, and never alter the visible part.",
  ["inputs"], "all polygons and sets of polygons with holes and shared edges, inside or partly outside the canvas",
  NOTEST + "gaps or overlaps appear only for particular slopes and vertex arrangements.",
  ["coral/raster.py"], [("edge scan", "BaseCanvas.scanpolygon"), ("span fill", "BaseCanvas.fillpolygons")],
  ["canvas pixels after scanpolygon + fillpolygons"])
p("C19", "Anti-aliased lines cover each step once, split between two neighbouring pixels",
  "An anti-aliased line between two different pixels paints, for each step of its longer axis, only the two pixels nearest the ideal segment, with opacities that add up to one and decrease linearly with the distance to the segment; the two ends are painted with half opacity. Drawing it in either direction gives the same picture, horizontal, vertical and diagonal lines touch only pixels on the segment, a line of zero length is harmless, and lines that touch the border or leave the canvas never fail and never paint elsewhere: the part on the canvas is painted as it would be on a larger one. Ends may lie anywhere between pixels, both in one step too: every step is painted with opacities that add up to the part of it that the segment covers.",
  ["inputs"], "all pairs of end points on gray and colour canvases",
  NOTEST + "edge rows, degenerate and steep lines are separate cases.",
  ["coral/raster.py"], [("Wu's algorithm", "BaseCanvas.aaline")],
  ["canvas pixels after aaline/strokepolygon"])
p("C20", "Every vector drawing is painted with exactly the ink and pen requested",
  "Executing the saved PostScript program paints, in order, exactly the shapes drawn on the canvas, each filled and stroked with exactly the requested fill and stroke ink, and with the line width and dash pattern set most recently, whatever was drawn or set before. Lines and texts drawn without ink use the ink set or used most recently on the canvas, once there is one; a shape never inherits the outline of another, copies of a canvas change independently, what is no ink, no point or no image is refused, a refused shape or setting leaves no trace on the canvas, save/restore operators are balanced and no operands are left behind.",
  ["histories"], "all sequences of drawing and pen-setting calls with gray and colour inks, with any background, on originals and copies",
  NOTEST + "whether an ink change may be omitted depends on the whole preceding history.",
  ["coral/vector.py"], [("state elision", "Canvas.setgray/setcolor/setwidth/setdash"), ("save/restore", "Canvas.addpolygon/addcircle/addroundedpolygon/addimage")],
  ["program written by Canvas.save"], [("pen state", "what the program's graphics state is believed to be", "Canvas.state")])
p("C21", "A saved drawing is self-contained and its bounding box encloses everything drawn",
  "The bounding box declared by a saved drawing is the smallest box enclosing all shapes (rounded ones by their corner points) and images drawn since the box was last reset, however thin, enlarged by the margin; when a size is requested, a drawing with any extent is scaled uniformly and centred in a square of that size, leaving the margin free on both sides together at least. The program defines every operator it uses before using it, paints the background over the whole box, places each text at the requested anchor of its own extent with its characters intact, and reproduces each image's samples row by row at the requested place and scale.",
  ["inputs", "histories"], "all sequences of drawing calls, texts (including brackets and backslashes), anchors, images, margins and sizes",
  NOTEST + "a missing definition or an unescaped character shows only for particular drawings.",
  ["coral/vector.py", "coral/defs.ps"], [("extent", "Canvas.bbox updates"), ("document", "Canvas.save, COMMONDEF, defs.ps, DEPS"), ("text/image", "Canvas.addtext/addimage")],
  ["program written by Canvas.save"])
p("C22", "Table operations transform rows exactly as their relational meaning says",
  "Joining two tables keeps every row of the first, in order, extended with the columns of the first row of the second that agrees on the common (or given) columns (whose value overrules that of a column both have), blank where there is none. Looking up one row or all rows returns the first, respectively all, rows with the given value in order; indexing maps each value of a column to the rest of its (last) row; adding or deleting columns keeps all other columns, their order and all rows. The given tables are never modified.",
  ["inputs"], "all tables, column lists, keys and functions, including unmatched and duplicate keys",
  NOTEST + "match multiplicity and column overlaps vary with the data.",
  ["coral/table.py"], [("operations", "join, getone, getall, indexby, addkey, delkeys")],
  ["return values of the table functions"])
p("C23", "Delimited table files read back what was written",
  "A table of texts free of separators, comment marks, line breaks and outer blanks, no row making a line of blanks only, written to a file and read back, gives the same columns and rows in order. Selecting columns, on writing or reading and in any order, returns under each name exactly that column's values; blank lines and comments are ignored wherever they occur, and a file without a header line ends in an error, not in an endless loop. Pretty-printing shows every cell in its aligned column.",
  ["inputs"], "all tables, separators, comment marks, column selections and placements of blank lines and comments",
  NOTEST + "column selection and order interact with the file's order.",
  ["coral/table.py"], [("files", "readfile, writefile"), ("printing", "pprint")],
  ["readfile/writefile/pprint"])
p("C24", "Statistics are correct and never influenced by caching",
  "For every sequence, maximum, minimum, sum, length, mean, variance, standard deviation, covariance, correlation and both Gini indices equal their mathematical definitions up to floating-point rounding, and the two Gini formulas agree. The answer for given data is the same whatever other computations, cache evictions or cache clearings have happened before. Clearing empties every cache and the reported cache totals are the sums over all functions.",
  ["inputs", "histories"], "all number sequences and all histories of calls, evictions and clearings",
  NOTEST + "cache interference is a property of call histories.",
  ["coral/stats.py"], [("memoization", "memoize/lru_cache on every function"), ("formulas", "avg, var, std_dev, covar, corr, gini_*"), ("cache control", "cache_clear, cache_info")],
  ["return values of the stats functions"], [("caches", "one LRU table per function", "memos")])
p("C25", "Colour gradients interpolate exactly between their stops",
  "A gradient returns each stop's colour at that stop's position and, between two neighbouring stops, the linear mix of their colours weighted by distance; before the first and after the last stop within [0, 1] the nearest stop's colour applies. The result does not depend on the order in which stops are listed, and making a gradient never alters the list of stops given. The hexadecimal form has one digit per channel, the channel's value on a 0-15 scale rounded down.",
  ["inputs"], "all stop lists and all positions in [0, 1]",
  NOTEST + "interpolation is a statement about every position.",
  ["coral/gradient.py"], [("stops", "Gradient.__init__"), ("interpolation", "Gradient.get/get_hex")],
  ["Gradient.get, get_hex"])
p("C26", "Name distances count edits exactly and matching picks the closest name",
  "The name distance is the least number of single-character insertions, deletions, substitutions and swaps of adjacent characters (no substring being edited twice) that turn one name into the other; it is zero only for equal names, symmetric, and the relative error is twice this distance over the total length. Matching pairs every key with a value of least relative error, the first such value on ties, scored one minus that error, and lists the pairs by decreasing score.",
  ["inputs"], "all pairs of names and all key and value lists",
  NOTEST + "the recurrence has several boundary cases.",
  ["coral/names.py"], [("distance", "damlev/strerr"), ("matching", "mapping")],
  ["damlev, strerr, mapping"])
p("C27", "Name similarity is normalized and abbreviations are unique",
  "The similarity of two names is a number from 0 to 1 that does not depend on the order of the two names, is 1 exactly for equal non-empty names and 0 when no character is shared, namely the Jaro similarity (each character matching at most once, within half the longer length); the prefix-weighted variant adds a tenth of what is missing to 1 for each of up to four common leading characters, so that a common prefix never lowers it nor lets it exceed 1. Abbreviating a list of names that differ without accents and case gives each a different abbreviation of at most the requested length (or refuses when the letters do not suffice), made of characters of the accent-stripped upper-case name in their original order without blanks, and leaves short enough names whole; a name alone keeps the initials of its words as far as the length allows, and words given as superfluous are left out. Accent stripping replaces each vowel with acute, grave, tilde, circumflex or diaeresis, and c with cedilla, by its base letter in the same case and touches nothing else.",
  ["inputs"], "all pairs and lists of names",
  NOTEST + "normalization fails only for particular repetition patterns.",
  ["coral/names.py"], [("similarity", "jaro/jaro_winkler"), ("abbreviation", "abbreviations"), ("accents", "ascii")],
  ["jaro, jaro_winkler, abbreviations, ascii"])
p("C28", "Progress reporting is transparent to the iteration it observes",
  "Iterating through a progress meter yields exactly the items of the underlying iterable, each once, in order, fetched only when asked for, with the same end or the same exception, whether or not the total is known. When an item is completed the meter is redrawn exactly if at least the minimum interval and the minimum number of items have passed since the last redraw; it always shows the number of items completed so far, and the last display shows the final count; it writes to the given file only.",
  ["histories", "schedules"], "all iterables (sized or not, failing, empty), all timings between items and all options",
  NOTEST + "redraw decisions depend on the timing history.",
  ["coral/tqdm.py"], [("iteration", "tqdm generator"), ("throttling", "miniters/mininterval in tqdm")],
  ["items yielded and text written by tqdm"], [("meter", "count and time of the last redraw", "locals of tqdm")])
p("C29", "Progress lines are well formed, truthful and leave no residue",
  "A progress line states the count, the total, the elapsed time, the rate and the estimated remaining time consistently: the bar has always ten cells filled in proportion to the fraction done, the percentage is rounded down, and intervals print as minutes and seconds with hours when there are any. An unknown, zero or exceeded total yields the form without bar. Each redraw starts at the beginning of the line and covers every character of the previous one.",
  ["inputs", "histories"], "all counts, totals, elapsed times and sequences of status texts",
  NOTEST + "formatting has a case per boundary.",
  ["coral/tqdm.py"], [("formatting", "format_interval/format_meter"), ("overwriting", "StatusPrinter.print_status")],
  ["format_interval, format_meter, StatusPrinter"])
p("C30", "Map frames survive saving and select exactly the entities they show",
  "A frame saved to disk and loaded again has a projection of the same kind with the same parameters and Earth model, hence the same projected coordinates, and the same bounding box; this holds for every projection. Selecting names for a frame returns, in file order and once each, exactly the entities having a part whose projected extent collides with the frame's box, and the cached selection reloads unchanged. Points and outlines are placed on the frame's grid at the requested scale.",
  ["inputs"], "all projections, parameters, boxes, entity files and scales",
  NOTEST + "each projection family takes its own path through save and load.",
  ["coral/frame.py"], [("persistence", "Frame.save/load"), ("selection", "Frame.cachenames/loadnames"), ("placement", "Frame.point/planify")],
  ["Frame.save, load, cachenames, loadnames, point, planify"])
p("C31", "Every projection's inverse returns the original point",
  "For every projection, origin or pair of parallels and Earth model, projecting a geographic point that the projection can represent and inverting the result gives the same latitude and the same longitude modulo 360 degrees, in every quadrant and hemisphere around the origin and at the origin itself (up to rounding; up to millionths of a degree near the poles of Eckert IV, whose inverse is ill-conditioned there; the antipode of an azimuthal projection's centre and the poles of an oblique aspect are excepted, and within half a degree of that antipode the azimuthal equidistant projection, which computes distances through cosines, returns the point up to ten-millionths of a radian). Points a projection cannot represent are refused with a projection error where the projection declares one. The two Mercator projections return longitudes within half a turn of zero.",
  ["inputs"], "all projections, origins (including poles and the date line), parallels, radii and representable points",
  NOTEST + "only the spherical trigonometry of coord is touched; quadrant errors appear only away from the origin.",
  ["coral/proj.py"], [("forward", "geo2rect"), ("inverse", "rect2geo")],
  ["geo2rect, rect2geo"])
p("C32", "Projections keep the geometric quantity they are named for",
  "Conformal projections (Mercator variants, stereographic) stretch the neighbourhood of every point equally in all directions, by exactly the local scale they report, if any; a conic projection reports the stretching along its meridians and keeps lengths along both standard parallels; equal-area projections (Eckert IV, azimuthal and conic equal-area) preserve the area of every small region; the azimuthal projections keep directions from the centre, with true scale at the centre, and the equidistant one also distances from it. Except for the Oblique Mercator, the projected coordinates grow eastward and northward at the origin; they depend on longitude only relative to the central meridian.",
  ["inputs"], "all projections, origins, radii and points of the regular domain",
  NOTEST + "no test calls a projection.",
  ["coral/proj.py"], [("forward", "geo2rect"), ("local scale", "scale")],
  ["geo2rect, scale"])
p("C33", "Distances, bearings, destinations and midpoints on the sphere fit together",
  "For any one radius, the distance between two points is symmetric, zero only for coinciding points, never more than half the circumference, additive along a great circle and defined for antipodal points as well. Travelling from one point along the bearing to another for the distance between them arrives at the other point (a negative distance leads backwards, more than the circumference around the globe), and the midpoint of points that are not antipodal is equally far from both, at half the distance. The radius at a latitude is the distance from the centre to the surface of the ellipsoid there; distances without a radius use the one at the mean latitude, destinations the one at their start. The centroid of a region lies where its area balances, whatever the starting vertex or orientation, and moves with the region.",
  ["inputs"], "all pairs of points (any quadrant, poles, date line, antipodes) and all regions",
  "The only test is one doctest of one destination.",
  ["coral/coord.py"], [("geodesy", "haversine, bearing, destination, midpoint, radiusat"), ("centroid", "geocentroid")],
  ["coord.haversine, bearing, destination, midpoint, geocentroid"])
p("C34", "Angles normalize and translate to compass points and clock hours exactly",
  "Normalizing an angle returns the same direction within plus or minus half a turn, leaving angles already there unchanged. A counter-clockwise bearing maps to the nearest of the sixteen compass points, sectors being centred on the points and covering the full turn, for negative bearings too, and to the clock hour in (0, 12] that points in the same direction.",
  ["inputs"], "all angles, including sector boundaries, negative angles and several turns",
  NOTEST + "sector boundaries are specific values.",
  ["coral/coord.py", "coral/proj.py"], [("normalization", "corangle"), ("compass", "bearing2cardinal, bearing2hours")],
  ["corangle, bearing2cardinal, bearing2hours"])

p("C35", "Images and animations show exactly the canvases exported",
  "Exporting a canvas runs the converter on exactly the program that saving it with the same size and margin would write, with the requested device, into the requested path whatever characters it contains, answers the converter's status and leaves no temporary file; any number of exports may run at the same time without seeing each other's drawings. Exporting a saved program does the same with that program and leaves it unchanged. An animation shows every given canvas once, in order, with the requested delay, answering the converter's status, all over one common box: the union of their boxes enlarged by five percent about its centre.",
  ["inputs", "schedules"], "all canvases, sizes, margins, devices and paths, all lists of canvases, and all interleavings of concurrent exports",
  NOTEST + "the interference of two exports depends on their schedule.",
  ["coral/vector.py"], [("export", "Canvas.export, export"), ("animation", "animation")],
  ["the command lines and files given to gs and convert", "files left behind"], [("program under way", "temporary file between saving and conversion", "Canvas.export")])

p("C36", "Edited shapefiles keep everything that was not edited",
  "Opening a shapefile of any type in an editor and saving it, under its own name or another, preserves every shape and every attribute record: types, parts, coordinates, elevations, measures (missing ones stay missing), texts, numbers, dates, logical and blank values, fields and their order. Points, shapes and records added to an editor follow the existing ones, pairs in either order; an added point has elevation and measure zero unless given; a field added to a table that has records is blank in them. Deleting a shape by its number, counted from either end, removes exactly that shape and its record; a number outside is an IndexError and changes nothing. A file changes only when it is saved to. All this holds for any sequence of editing, saving and opening again.",
  ["inputs", "histories"], "all shapefiles in UTF-8 and all sequences of opening, adding, deleting and saving over several files",
  NOTEST + "what survives depends on the history of edits.",
  ["coral/shapefile.py"], [("opening and editing", "Editor.__init__, delete, point"), ("writing back", "Writer.__shpRecords, __dbfRecords")],
  ["shapefile.Editor, shapefile.Reader"])

p("C37", "Maps drawn as documented show the entities asked for, whole, within a pixel",
  "A map drawn as documented, by reading a shapefile in its encoding (or a table and the P file of its geometry), selecting entities by an attribute, passing over parts with few points, projecting the points of the others, simplifying each part to the pixel size and adding it to a canvas as a polygon, shows every part asked for and no other, in order, in the inks asked for; each outline traces the part's boundary, with every vertex in the pixel that its position projects to. The page encloses exactly the parts drawn, except those after which the canvas was given back the box it had before.",
  ["inputs"], "all shapefiles and P files of lines and rings, selections, projections, pixel sizes and inks",
  NOTEST + "no test reads a shapefile or draws.",
  ["README.rst", "coral/shapefile.py", "coral/pf.py", "coral/table.py", "coral/proj.py", "coral/coord.py", "coral/vector.py"],
  [("reading", "Reader.shapeRecords, pf.Reader.get, table.readfile/getall"), ("drawing", "geo2rect, simplify, Canvas.addpolygon/save")],
  ["the saved program and its bounding box"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P), "properties")
