package geojson

// ---- C18: GeoJSON text of a geometry ----
// JSON text of a number
ufun jnum(x float) string
// JSON text of nested arrays of numbers: the first n elements, then the whole array
rec j1(h array[float64], o int, n int) string = n <= 0 ? "" : n == 1 ? jnum(at(h, o, 0)) : j1(h, o, n-1) + "," + jnum(at(h, o, n-1))
pure a1(m array[array[float64]], s []float64) string = s === nil ? "null" : "[" + j1(row(m, s), off(s), len(s)) + "]"
rec j2(m array[array[float64]], h array[[]float64], o int, n int) string = n <= 0 ? "" : n == 1 ? a1(m, at(h, o, 0)) : j2(m, h, o, n-1) + "," + a1(m, at(h, o, n-1))
pure a2(m array[array[float64]], m2 array[array[[]float64]], s [][]float64) string = s === nil ? "null" : "[" + j2(m, row(m2, s), off(s), len(s)) + "]"
rec j3(m array[array[float64]], m2 array[array[[]float64]], h array[[][]float64], o int, n int) string = n <= 0 ? "" : n == 1 ? a2(m, m2, at(h, o, 0)) : j3(m, m2, h, o, n-1) + "," + a2(m, m2, at(h, o, n-1))
pure a3(m array[array[float64]], m2 array[array[[]float64]], m3 array[array[[][]float64]], s [][][]float64) string = s === nil ? "null" : "[" + j3(m, m2, row(m3, s), off(s), len(s)) + "]"
rec j4(m array[array[float64]], m2 array[array[[]float64]], m3 array[array[[][]float64]], h array[[][][]float64], o int, n int) string = n <= 0 ? "" : n == 1 ? a3(m, m2, m3, at(h, o, 0)) : j4(m, m2, m3, h, o, n-1) + "," + a3(m, m2, m3, at(h, o, n-1))
pure a4(m array[array[float64]], m2 array[array[[]float64]], m3 array[array[[][]float64]], m4 array[array[[][][]float64]], s [][][][]float64) string = s === nil ? "null" : "[" + j4(m, m2, m3, row(m4, s), off(s), len(s)) + "]"
pure t1(s []float64) string = a1(mem(float64), s)
pure t2(s [][]float64) string = a2(mem(float64), mem([]float64), s)
pure t3(s [][][]float64) string = a3(mem(float64), mem([]float64), mem([][]float64), s)
pure t4(s [][][][]float64) string = a4(mem(float64), mem([]float64), mem([][]float64), mem([][][]float64), s)

// text of a byte slice; a text JSON can carry has only finite numbers
ufun btext(h array[uint8], o int, n int) string
ufun encodable(s string) bool
pure jtext(b []uint8) string = btext(arr(b), off(b), len(b))
pure gtext(c interface{}) string = is(c, []float64) ? t1(as(c, []float64)) : is(c, [][]float64) ? t2(as(c, [][]float64)) : is(c, [][][]float64) ? t3(as(c, [][][]float64)) : t4(as(c, [][][][]float64))
pure nested(c interface{}) bool = is(c, []float64) || is(c, [][]float64) || is(c, [][][]float64) || is(c, [][][][]float64)
pure whole(t string, c string) string = "{\"type\":\"" + t + "\",\"coordinates\":" + c + "}"
pure plaintype(t string) bool = t === "Point" || t === "MultiPoint" || t === "LineString" || t === "MultiLineString" || t === "Polygon" || t === "MultiPolygon"

extern json.Marshal(v)(b, err)
requires "the standard names of the members": is(v, geojson.GeoJson) ==> jsontag("Type", geojson.GeoJson) === "type" && jsontag("Coordinates", geojson.GeoJson) === "coordinates,omitempty" && jsontag("Geometries", geojson.GeoJson) === "geometries,omitempty" && jsontag("CRS", geojson.GeoJson) === "crs,omitempty"
ensures is(v, geojson.GeoJson) && plaintype(as(v, geojson.GeoJson).Type) && nested(as(v, geojson.GeoJson).Coordinates) && as(v, geojson.GeoJson).Geometries == nil && as(v, geojson.GeoJson).CRS == nil ==> (err == nil <==> encodable(gtext(as(v, geojson.GeoJson).Coordinates))) && (err == nil ==> jtext(b) === whole(as(v, geojson.GeoJson).Type, gtext(as(v, geojson.GeoJson).Coordinates)))

// ---- the same texts from the geometry ----
pure jp(q geo.Point) string = "[" + jnum(q.X) + "," + jnum(q.Y) + "]"
rec jpts(h array[geo.Point], o int, n int) string = n <= 0 ? "" : n == 1 ? jp(at(h, o, 0)) : jpts(h, o, n-1) + "," + jp(at(h, o, n-1))
pure jpath(m array[array[geo.Point]], s []geo.Point) string = "[" + jpts(row(m, s), off(s), len(s)) + "]"
rec jlines(m array[array[geo.Point]], h array[geo.LineString], o int, n int) string = n <= 0 ? "" : n == 1 ? jpath(m, at(h, o, 0)) : jlines(m, h, o, n-1) + "," + jpath(m, at(h, o, n-1))
rec jrings(m array[array[geo.Point]], h array[geo.LinearRing], o int, n int) string = n <= 0 ? "" : n == 1 ? jpath(m, at(h, o, 0)) : jrings(m, h, o, n-1) + "," + jpath(m, at(h, o, n-1))
pure jpoly(m array[array[geo.Point]], w array[array[geo.LinearRing]], s []geo.LinearRing) string = "[" + jrings(m, row(w, s), off(s), len(s)) + "]"
rec jmpoly(m array[array[geo.Point]], w array[array[geo.LinearRing]], h array[geo.Polygon], o int, n int) string = n <= 0 ? "" : n == 1 ? jpoly(m, w, at(h, o, 0)) : jmpoly(m, w, h, o, n-1) + "," + jpoly(m, w, at(h, o, n-1))
pure jmptext(s []geo.Polygon) string = "[" + jmpoly(mem(geo.Point), mem(geo.LinearRing), arr(s), off(s), len(s)) + "]"
pure jpathtext(s []geo.Point) string = jpath(mem(geo.Point), s)
pure jlinestext(s []geo.LineString) string = "[" + jlines(mem(geo.Point), arr(s), off(s), len(s)) + "]"
pure jpolytext(s []geo.LinearRing) string = jpoly(mem(geo.Point), mem(geo.LinearRing), s)

lemma same_pts(m array[array[float64]], r array[[]float64], a int, h array[geo.Point], o int, n int) induction n
requires forall k int :: {at(r, a, k)} 0 <= k < n ==> a1(m, at(r, a, k)) === jp(at(h, o, k))
ensures {j2(m, r, a, n), jpts(h, o, n)} j2(m, r, a, n) === jpts(h, o, n)

lemma same_lines(m array[array[float64]], m2 array[array[[]float64]], r array[[][]float64], a int, q array[array[geo.Point]], h array[geo.LineString], o int, n int) induction n
requires forall k int :: {at(r, a, k)} 0 <= k < n ==> a2(m, m2, at(r, a, k)) === jpath(q, at(h, o, k))
ensures {j3(m, m2, r, a, n), jlines(q, h, o, n)} j3(m, m2, r, a, n) === jlines(q, h, o, n)

lemma same_rings(m array[array[float64]], m2 array[array[[]float64]], r array[[][]float64], a int, q array[array[geo.Point]], h array[geo.LinearRing], o int, n int) induction n
requires forall k int :: {at(r, a, k)} 0 <= k < n ==> a2(m, m2, at(r, a, k)) === jpath(q, at(h, o, k))
ensures {j3(m, m2, r, a, n), jrings(q, h, o, n)} j3(m, m2, r, a, n) === jrings(q, h, o, n)

lemma same_polys(m array[array[float64]], m2 array[array[[]float64]], m3 array[array[[][]float64]], r array[[][][]float64], a int, q array[array[geo.Point]], w array[array[geo.LinearRing]], h array[geo.Polygon], o int, n int) induction n
requires forall k int :: {at(r, a, k)} 0 <= k < n ==> a3(m, m2, m3, at(r, a, k)) === jpoly(q, w, at(h, o, k))
ensures {j4(m, m2, m3, r, a, n), jmpoly(q, w, h, o, n)} j4(m, m2, m3, r, a, n) === jmpoly(q, w, h, o, n)

// ---- the same texts from the geometry (3D) ----
pure jpz(q geo.PointZ) string = "[" + jnum(q.X) + "," + jnum(q.Y) + "," + jnum(q.Z) + "]"
rec jptsz(h array[geo.PointZ], o int, n int) string = n <= 0 ? "" : n == 1 ? jpz(at(h, o, 0)) : jptsz(h, o, n-1) + "," + jpz(at(h, o, n-1))
pure jpathz(m array[array[geo.PointZ]], s []geo.PointZ) string = "[" + jptsz(row(m, s), off(s), len(s)) + "]"
rec jlinesz(m array[array[geo.PointZ]], h array[geo.LineStringZ], o int, n int) string = n <= 0 ? "" : n == 1 ? jpathz(m, at(h, o, 0)) : jlinesz(m, h, o, n-1) + "," + jpathz(m, at(h, o, n-1))
rec jringsz(m array[array[geo.PointZ]], h array[geo.LinearRingZ], o int, n int) string = n <= 0 ? "" : n == 1 ? jpathz(m, at(h, o, 0)) : jringsz(m, h, o, n-1) + "," + jpathz(m, at(h, o, n-1))
pure jpolyz(m array[array[geo.PointZ]], w array[array[geo.LinearRingZ]], s []geo.LinearRingZ) string = "[" + jringsz(m, row(w, s), off(s), len(s)) + "]"
rec jmpolyz(m array[array[geo.PointZ]], w array[array[geo.LinearRingZ]], h array[geo.PolygonZ], o int, n int) string = n <= 0 ? "" : n == 1 ? jpolyz(m, w, at(h, o, 0)) : jmpolyz(m, w, h, o, n-1) + "," + jpolyz(m, w, at(h, o, n-1))
pure jmptextz(s []geo.PolygonZ) string = "[" + jmpolyz(mem(geo.PointZ), mem(geo.LinearRingZ), arr(s), off(s), len(s)) + "]"
pure jpathtextz(s []geo.PointZ) string = jpathz(mem(geo.PointZ), s)
pure jlinestextz(s []geo.LineStringZ) string = "[" + jlinesz(mem(geo.PointZ), arr(s), off(s), len(s)) + "]"
pure jpolytextz(s []geo.LinearRingZ) string = jpolyz(mem(geo.PointZ), mem(geo.LinearRingZ), s)

lemma same_ptsz(m array[array[float64]], r array[[]float64], a int, h array[geo.PointZ], o int, n int) induction n
requires forall k int :: {at(r, a, k)} 0 <= k < n ==> a1(m, at(r, a, k)) === jpz(at(h, o, k))
ensures {j2(m, r, a, n), jptsz(h, o, n)} j2(m, r, a, n) === jptsz(h, o, n)

lemma same_linesz(m array[array[float64]], m2 array[array[[]float64]], r array[[][]float64], a int, q array[array[geo.PointZ]], h array[geo.LineStringZ], o int, n int) induction n
requires forall k int :: {at(r, a, k)} 0 <= k < n ==> a2(m, m2, at(r, a, k)) === jpathz(q, at(h, o, k))
ensures {j3(m, m2, r, a, n), jlinesz(q, h, o, n)} j3(m, m2, r, a, n) === jlinesz(q, h, o, n)

lemma same_ringsz(m array[array[float64]], m2 array[array[[]float64]], r array[[][]float64], a int, q array[array[geo.PointZ]], h array[geo.LinearRingZ], o int, n int) induction n
requires forall k int :: {at(r, a, k)} 0 <= k < n ==> a2(m, m2, at(r, a, k)) === jpathz(q, at(h, o, k))
ensures {j3(m, m2, r, a, n), jringsz(q, h, o, n)} j3(m, m2, r, a, n) === jringsz(q, h, o, n)

lemma same_polysz(m array[array[float64]], m2 array[array[[]float64]], m3 array[array[[][]float64]], r array[[][][]float64], a int, q array[array[geo.PointZ]], w array[array[geo.LinearRingZ]], h array[geo.PolygonZ], o int, n int) induction n
requires forall k int :: {at(r, a, k)} 0 <= k < n ==> a3(m, m2, m3, at(r, a, k)) === jpolyz(q, w, at(h, o, k))
ensures {j4(m, m2, m3, r, a, n), jmpolyz(q, w, h, o, n)} j4(m, m2, m3, r, a, n) === jmpolyz(q, w, h, o, n)

// ---- texts do not depend on rows that are not reached ----
lemma frame_j2(m array[array[float64]], v array[array[float64]], r array[[]float64], a int, n int) induction n
requires forall k int :: {at(r, a, k)} 0 <= k < n ==> row(m, at(r, a, k)) === row(v, at(r, a, k))
ensures {j2(m, r, a, n), j2(v, r, a, n)} j2(m, r, a, n) === j2(v, r, a, n)

lemma frame_j3(m array[array[float64]], m2 array[array[[]float64]], v array[array[float64]], v2 array[array[[]float64]], r array[[][]float64], a int, n int) induction n
use frame_j2
requires forall k int :: {at(r, a, k)} 0 <= k < n ==> row(m2, at(r, a, k)) === row(v2, at(r, a, k))
requires forall k, l int :: {row(m, idx(m2, at(r, a, k), l))} {row(v, idx(m2, at(r, a, k), l))} 0 <= k < n && 0 <= l < len(at(r, a, k)) ==> row(m, idx(m2, at(r, a, k), l)) === row(v, idx(m2, at(r, a, k), l))
ensures {j3(m, m2, r, a, n), j3(v, v2, r, a, n)} j3(m, m2, r, a, n) === j3(v, v2, r, a, n)

func geojson.ConvertPoi(p)(r, err)
ensures [C18] "position": err == nil && t1(r) === jp(p)

func geojson.ConvertPoiSet(g0)(r, err)
use same_pts
ensures [C18] "line": is(g0, geo.LineString) ==> err == nil && t2(r) === jpathtext(as(g0, geo.LineString))
ensures [C18] "multipoint": is(g0, geo.MultiPoint) ==> err == nil && t2(r) === jpathtext(as(g0, geo.MultiPoint))
ensures [C18] "anything else": !is(g0, geo.LineString) && !is(g0, geo.MultiPoint) ==> err != nil
local interface2D [][]float64
local pts []geo.Point
invariant interface2D !== nil && len(interface2D) == _i
invariant forall k int :: {interface2D[k]} 0 <= k < _i ==> t1(interface2D[k]) === jp(pts[k])

func geojson.ConvertPoiZ(p)(r, err)
ensures [C18] "position": err == nil && t1(r) === jpz(p)

func geojson.ConvertPoiZSet(g0)(r, err)
use same_ptsz
ensures [C18] "line": is(g0, geo.LineStringZ) ==> err == nil && t2(r) === jpathtextz(as(g0, geo.LineStringZ))
ensures [C18] "multipoint": is(g0, geo.MultiPointZ) ==> err == nil && t2(r) === jpathtextz(as(g0, geo.MultiPointZ))
ensures [C18] "anything else": !is(g0, geo.LineStringZ) && !is(g0, geo.MultiPointZ) ==> err != nil
local interface2D [][]float64
local pts []geo.PointZ
invariant interface2D !== nil && len(interface2D) == _i
invariant forall k int :: {interface2D[k]} 0 <= k < _i ==> t1(interface2D[k]) === jpz(pts[k])

func geojson.ConvertPathSet(g0)(r, err)
use same_lines, same_rings, frame_j2
opt patient=1
ensures [C18] "lines": is(g0, geo.MultiLineString) ==> err == nil && t3(r) === jlinestext(as(g0, geo.MultiLineString))
ensures [C18] "polygon": is(g0, geo.Polygon) ==> err == nil && t3(r) === jpolytext(as(g0, geo.Polygon))
ensures [C18] "anything else": !is(g0, geo.MultiLineString) && !is(g0, geo.Polygon) ==> err != nil
local interface3D [][][]float64
local lines []geo.LineString
invariant len(lines) == _i
invariant forall k int :: {lines[k]} 0 <= k < len(lines) ==> is(g0, geo.MultiLineString) ==> lines[k] === as(g0, geo.MultiLineString)[k]
invariant forall k int :: {lines[k]} 0 <= k < len(lines) ==> is(g0, geo.Polygon) ==> lines[k] === as(g0, geo.Polygon)[k]
invariant interface3D !== nil && len(interface3D) == _i
invariant forall k int :: {interface3D[k]} 0 <= k < _i ==> t2(interface3D[k]) === jpathtext(lines[k])

func geojson.ConvertPolygonSet(g0)(r, err)
use same_polys, frame_j3
opt patient=1
ensures [C18] "polygons": is(g0, geo.MultiPolygon) ==> err == nil && t4(r) === jmptext(as(g0, geo.MultiPolygon))
ensures [C18] "anything else": !is(g0, geo.MultiPolygon) ==> err != nil
local interface4D [][][][]float64
local polys []geo.Polygon
invariant len(polys) == _i
invariant forall k int :: {polys[k]} 0 <= k < len(polys) ==> polys[k] === as(g0, geo.MultiPolygon)[k]
invariant interface4D !== nil && len(interface4D) == _i
invariant forall k int :: {interface4D[k]} 0 <= k < _i ==> t3(interface4D[k]) === jpolytext(polys[k])

func geojson.ConvertPathZSet(g0)(r, err)
use same_linesz, same_ringsz, frame_j2
opt patient=1
ensures [C18] "lines": is(g0, geo.MultiLineStringZ) ==> err == nil && t3(r) === jlinestextz(as(g0, geo.MultiLineStringZ))
ensures [C18] "polygon": is(g0, geo.PolygonZ) ==> err == nil && t3(r) === jpolytextz(as(g0, geo.PolygonZ))
ensures [C18] "anything else": !is(g0, geo.MultiLineStringZ) && !is(g0, geo.PolygonZ) ==> err != nil
local interface3D [][][]float64
local lines []geo.LineStringZ
invariant len(lines) == _i
invariant forall k int :: {lines[k]} 0 <= k < len(lines) ==> is(g0, geo.MultiLineStringZ) ==> lines[k] === as(g0, geo.MultiLineStringZ)[k]
invariant forall k int :: {lines[k]} 0 <= k < len(lines) ==> is(g0, geo.PolygonZ) ==> lines[k] === as(g0, geo.PolygonZ)[k]
invariant interface3D !== nil && len(interface3D) == _i
invariant forall k int :: {interface3D[k]} 0 <= k < _i ==> t2(interface3D[k]) === jpathtextz(lines[k])

func geojson.ConvertPolygonZSet(g0)(r, err)
use same_polysz, frame_j3
opt patient=1
ensures [C18] "polygons": is(g0, geo.MultiPolygonZ) ==> err == nil && t4(r) === jmptextz(as(g0, geo.MultiPolygonZ))
ensures [C18] "anything else": !is(g0, geo.MultiPolygonZ) ==> err != nil
local interface4D [][][][]float64
local polys []geo.PolygonZ
invariant len(polys) == _i
invariant forall k int :: {polys[k]} 0 <= k < len(polys) ==> polys[k] === as(g0, geo.MultiPolygonZ)[k]
invariant interface4D !== nil && len(interface4D) == _i
invariant forall k int :: {interface4D[k]} 0 <= k < _i ==> t3(interface4D[k]) === jpolytextz(polys[k])

func geojson.MarshalGeo(geom)(r, err)
ensures [C18] "point": is(geom, geo.Point) ==> (err == nil <==> encodable(jp(as(geom, geo.Point)))) && (err == nil ==> jtext(r) === whole("Point", jp(as(geom, geo.Point))))
ensures [C18] "multipoint": is(geom, geo.MultiPoint) ==> (err == nil <==> encodable(jpathtext(as(geom, geo.MultiPoint)))) && (err == nil ==> jtext(r) === whole("MultiPoint", jpathtext(as(geom, geo.MultiPoint))))
ensures [C18] "linestring": is(geom, geo.LineString) ==> (err == nil <==> encodable(jpathtext(as(geom, geo.LineString)))) && (err == nil ==> jtext(r) === whole("LineString", jpathtext(as(geom, geo.LineString))))
ensures [C18] "multilinestring": is(geom, geo.MultiLineString) ==> (err == nil <==> encodable(jlinestext(as(geom, geo.MultiLineString)))) && (err == nil ==> jtext(r) === whole("MultiLineString", jlinestext(as(geom, geo.MultiLineString))))
ensures [C18] "polygon": is(geom, geo.Polygon) ==> (err == nil <==> encodable(jpolytext(as(geom, geo.Polygon)))) && (err == nil ==> jtext(r) === whole("Polygon", jpolytext(as(geom, geo.Polygon))))
ensures [C18] "multipolygon": is(geom, geo.MultiPolygon) ==> (err == nil <==> encodable(jmptext(as(geom, geo.MultiPolygon)))) && (err == nil ==> jtext(r) === whole("MultiPolygon", jmptext(as(geom, geo.MultiPolygon))))
ensures [C18] "pointZ": is(geom, geo.PointZ) ==> (err == nil <==> encodable(jpz(as(geom, geo.PointZ)))) && (err == nil ==> jtext(r) === whole("Point", jpz(as(geom, geo.PointZ))))
ensures [C18] "multipointZ": is(geom, geo.MultiPointZ) ==> (err == nil <==> encodable(jpathtextz(as(geom, geo.MultiPointZ)))) && (err == nil ==> jtext(r) === whole("MultiPoint", jpathtextz(as(geom, geo.MultiPointZ))))
ensures [C18] "linestringZ": is(geom, geo.LineStringZ) ==> (err == nil <==> encodable(jpathtextz(as(geom, geo.LineStringZ)))) && (err == nil ==> jtext(r) === whole("LineString", jpathtextz(as(geom, geo.LineStringZ))))
ensures [C18] "multilinestringZ": is(geom, geo.MultiLineStringZ) ==> (err == nil <==> encodable(jlinestextz(as(geom, geo.MultiLineStringZ)))) && (err == nil ==> jtext(r) === whole("MultiLineString", jlinestextz(as(geom, geo.MultiLineStringZ))))
ensures [C18] "polygonZ": is(geom, geo.PolygonZ) ==> (err == nil <==> encodable(jpolytextz(as(geom, geo.PolygonZ)))) && (err == nil ==> jtext(r) === whole("Polygon", jpolytextz(as(geom, geo.PolygonZ))))
ensures [C18] "multipolygonZ": is(geom, geo.MultiPolygonZ) ==> (err == nil <==> encodable(jmptextz(as(geom, geo.MultiPolygonZ)))) && (err == nil ==> jtext(r) === whole("MultiPolygon", jmptextz(as(geom, geo.MultiPolygonZ))))
ensures [C18] "anything else": !is(geom, geo.Point) && !is(geom, geo.MultiPoint) && !is(geom, geo.LineString) && !is(geom, geo.MultiLineString) && !is(geom, geo.Polygon) && !is(geom, geo.MultiPolygon) && !is(geom, geo.PointZ) && !is(geom, geo.MultiPointZ) && !is(geom, geo.LineStringZ) && !is(geom, geo.MultiLineStringZ) && !is(geom, geo.PolygonZ) && !is(geom, geo.MultiPolygonZ) ==> err != nil
