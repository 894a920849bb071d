package wkt

// ---- C16: well-known text ----
// text of the first n strings with a separator between each two
rec joined(r array[string], o int, n int, sep string) string = n <= 0 ? "" : n == 1 ? at(r, o, 0) : joined(r, o, n-1, sep) + sep + at(r, o, n-1)

extern strings.Join(elems, sep)(r)
ensures r === joined(arr(elems), off(elems), len(elems), sep)

// shortest decimal without exponent
pure num(x float) string = ext("strconv.FormatFloat", x, 102, 0 - 1, 64)
pure pt(p geo.Point) string = num(p.X) + " " + num(p.Y)
pure ptz(p geo.PointZ) string = num(p.X) + " " + num(p.Y) + " " + num(p.Z)

rec ptext(h array[geo.Point], o int, n int) string = n <= 0 ? "" : n == 1 ? pt(at(h, o, 0)) : ptext(h, o, n-1) + "," + pt(at(h, o, n-1))
rec ptextz(h array[geo.PointZ], o int, n int) string = n <= 0 ? "" : n == 1 ? ptz(at(h, o, 0)) : ptextz(h, o, n-1) + "," + ptz(at(h, o, n-1))
pure path(h array[geo.Point], o int, n int) string = "(" + ptext(h, o, n) + ")"
pure pathz(h array[geo.PointZ], o int, n int) string = "(" + ptextz(h, o, n) + ")"

func wkt.GeometryToWktString(x, y)(r)
ensures [C16] "numbers": r === num(x) + " " + num(y)

func wkt.GeometryToWktStringZ(x, y, z)(r)
ensures [C16] "numbers": r === num(x) + " " + num(y) + " " + num(z)

lemma joined_path(r array[string], a int, h array[geo.Point], o int, n int) induction n
requires forall k int :: {at(r, a, k)} 0 <= k < n ==> at(r, a, k) === pt(at(h, o, k))
ensures {joined(r, a, n, ","), ptext(h, o, n)} joined(r, a, n, ",") === ptext(h, o, n)

func wkt.PathToWktString(pts)(r)
use joined_path
ensures [C16] "positions in order": r === path(arr(pts), off(pts), len(pts))
local res []string
local acc string
invariant len(res) == _i
invariant forall k int :: {res[k]} 0 <= k < _i ==> res[k] === pt(pts[k])
invariant acc === ptext(arr(pts), off(pts), _i)
invariant acc === "(" + ptext(arr(pts), off(pts), _i)

lemma joined_pathz(r array[string], a int, h array[geo.PointZ], o int, n int) induction n
requires forall k int :: {at(r, a, k)} 0 <= k < n ==> at(r, a, k) === ptz(at(h, o, k))
ensures {joined(r, a, n, ","), ptextz(h, o, n)} joined(r, a, n, ",") === ptextz(h, o, n)

func wkt.PathZToWktString(pts)(r)
use joined_pathz
ensures [C16] "positions in order": r === pathz(arr(pts), off(pts), len(pts))
local res []string
local acc string
invariant len(res) == _i
invariant forall k int :: {res[k]} 0 <= k < _i ==> res[k] === ptz(pts[k])
invariant acc === ptextz(arr(pts), off(pts), _i)
invariant acc === "(" + ptextz(arr(pts), off(pts), _i)

// one LineString of a list
pure onestrings(m array[array[geo.Point]], l []geo.Point) string = path(row(m, l), off(l), len(l))
rec strings(m array[array[geo.Point]], h array[geo.LineString], o int, n int) string = n <= 0 ? "" : n == 1 ? onestrings(m, at(h, o, 0)) : strings(m, h, o, n-1) + "," + onestrings(m, at(h, o, n-1))

lemma joined_strings(r array[string], a int, m array[array[geo.Point]], h array[geo.LineString], o int, n int) induction n
requires forall k int :: {at(r, a, k)} 0 <= k < n ==> at(r, a, k) === onestrings(m, at(h, o, k))
ensures {joined(r, a, n, ","), strings(m, h, o, n)} joined(r, a, n, ",") === strings(m, h, o, n)

func wkt.PolygonToWktString(lines)(r)
use joined_strings
ensures [C16] "members in order": r === "(" + strings(mem(geo.Point), arr(lines), off(lines), len(lines)) + ")"
local res []string
local acc string
invariant len(res) == _i
invariant forall k int :: {res[k]} 0 <= k < _i ==> res[k] === onestrings(mem(geo.Point), lines[k])
invariant acc === strings(mem(geo.Point), arr(lines), off(lines), _i)
invariant acc === "(" + strings(mem(geo.Point), arr(lines), off(lines), _i)

// one LinearRing of a list
pure onerings(m array[array[geo.Point]], l []geo.Point) string = path(row(m, l), off(l), len(l))
rec rings(m array[array[geo.Point]], h array[geo.LinearRing], o int, n int) string = n <= 0 ? "" : n == 1 ? onerings(m, at(h, o, 0)) : rings(m, h, o, n-1) + "," + onerings(m, at(h, o, n-1))

lemma joined_rings(r array[string], a int, m array[array[geo.Point]], h array[geo.LinearRing], o int, n int) induction n
requires forall k int :: {at(r, a, k)} 0 <= k < n ==> at(r, a, k) === onerings(m, at(h, o, k))
ensures {joined(r, a, n, ","), rings(m, h, o, n)} joined(r, a, n, ",") === rings(m, h, o, n)

func wkt.PolygonToWktString2(lines)(r)
use joined_rings
ensures [C16] "members in order": r === "(" + rings(mem(geo.Point), arr(lines), off(lines), len(lines)) + ")"
local res []string
local acc string
invariant len(res) == _i
invariant forall k int :: {res[k]} 0 <= k < _i ==> res[k] === onerings(mem(geo.Point), lines[k])
invariant acc === rings(mem(geo.Point), arr(lines), off(lines), _i)
invariant acc === "(" + rings(mem(geo.Point), arr(lines), off(lines), _i)

pure onepoly(m array[array[geo.Point]], w array[array[geo.LinearRing]], p []geo.LinearRing) string = "(" + rings(m, row(w, p), off(p), len(p)) + ")"
rec mpolys(m array[array[geo.Point]], w array[array[geo.LinearRing]], h array[geo.Polygon], o int, n int) string = n <= 0 ? "" : n == 1 ? onepoly(m, w, at(h, o, 0)) : mpolys(m, w, h, o, n-1) + "," + onepoly(m, w, at(h, o, n-1))

lemma joined_polys(r array[string], a int, m array[array[geo.Point]], w array[array[geo.LinearRing]], h array[geo.Polygon], o int, n int) induction n
requires forall k int :: {at(r, a, k)} 0 <= k < n ==> at(r, a, k) === onepoly(m, w, at(h, o, k))
ensures {joined(r, a, n, ","), mpolys(m, w, h, o, n)} joined(r, a, n, ",") === mpolys(m, w, h, o, n)

func wkt.MultiPolygonToWktString(polys)(r)
use joined_polys
ensures [C16] "members in order": r === "(" + mpolys(mem(geo.Point), mem(geo.LinearRing), arr(polys), off(polys), len(polys)) + ")"
local res []string
local acc string
invariant len(res) == _i
invariant forall k int :: {res[k]} 0 <= k < _i ==> res[k] === onepoly(mem(geo.Point), mem(geo.LinearRing), polys[k])
invariant acc === mpolys(mem(geo.Point), mem(geo.LinearRing), arr(polys), off(polys), _i)
invariant acc === "(" + mpolys(mem(geo.Point), mem(geo.LinearRing), arr(polys), off(polys), _i)

// one LineStringZ of a list
pure onestringsz(m array[array[geo.PointZ]], l []geo.PointZ) string = pathz(row(m, l), off(l), len(l))
rec stringsz(m array[array[geo.PointZ]], h array[geo.LineStringZ], o int, n int) string = n <= 0 ? "" : n == 1 ? onestringsz(m, at(h, o, 0)) : stringsz(m, h, o, n-1) + "," + onestringsz(m, at(h, o, n-1))

lemma joined_stringsz(r array[string], a int, m array[array[geo.PointZ]], h array[geo.LineStringZ], o int, n int) induction n
requires forall k int :: {at(r, a, k)} 0 <= k < n ==> at(r, a, k) === onestringsz(m, at(h, o, k))
ensures {joined(r, a, n, ","), stringsz(m, h, o, n)} joined(r, a, n, ",") === stringsz(m, h, o, n)

func wkt.PolygonZToWktString(lines)(r)
use joined_stringsz
ensures [C16] "members in order": r === "(" + stringsz(mem(geo.PointZ), arr(lines), off(lines), len(lines)) + ")"
local res []string
local acc string
invariant len(res) == _i
invariant forall k int :: {res[k]} 0 <= k < _i ==> res[k] === onestringsz(mem(geo.PointZ), lines[k])
invariant acc === stringsz(mem(geo.PointZ), arr(lines), off(lines), _i)
invariant acc === "(" + stringsz(mem(geo.PointZ), arr(lines), off(lines), _i)

// one LinearRingZ of a list
pure oneringsz(m array[array[geo.PointZ]], l []geo.PointZ) string = pathz(row(m, l), off(l), len(l))
rec ringsz(m array[array[geo.PointZ]], h array[geo.LinearRingZ], o int, n int) string = n <= 0 ? "" : n == 1 ? oneringsz(m, at(h, o, 0)) : ringsz(m, h, o, n-1) + "," + oneringsz(m, at(h, o, n-1))

lemma joined_ringsz(r array[string], a int, m array[array[geo.PointZ]], h array[geo.LinearRingZ], o int, n int) induction n
requires forall k int :: {at(r, a, k)} 0 <= k < n ==> at(r, a, k) === oneringsz(m, at(h, o, k))
ensures {joined(r, a, n, ","), ringsz(m, h, o, n)} joined(r, a, n, ",") === ringsz(m, h, o, n)

func wkt.PolygonZToWktString2(lines)(r)
use joined_ringsz
ensures [C16] "members in order": r === "(" + ringsz(mem(geo.PointZ), arr(lines), off(lines), len(lines)) + ")"
local res []string
local acc string
invariant len(res) == _i
invariant forall k int :: {res[k]} 0 <= k < _i ==> res[k] === oneringsz(mem(geo.PointZ), lines[k])
invariant acc === ringsz(mem(geo.PointZ), arr(lines), off(lines), _i)
invariant acc === "(" + ringsz(mem(geo.PointZ), arr(lines), off(lines), _i)

pure onepolyz(m array[array[geo.PointZ]], w array[array[geo.LinearRingZ]], p []geo.LinearRingZ) string = "(" + ringsz(m, row(w, p), off(p), len(p)) + ")"
rec mpolysz(m array[array[geo.PointZ]], w array[array[geo.LinearRingZ]], h array[geo.PolygonZ], o int, n int) string = n <= 0 ? "" : n == 1 ? onepolyz(m, w, at(h, o, 0)) : mpolysz(m, w, h, o, n-1) + "," + onepolyz(m, w, at(h, o, n-1))

lemma joined_polysz(r array[string], a int, m array[array[geo.PointZ]], w array[array[geo.LinearRingZ]], h array[geo.PolygonZ], o int, n int) induction n
requires forall k int :: {at(r, a, k)} 0 <= k < n ==> at(r, a, k) === onepolyz(m, w, at(h, o, k))
ensures {joined(r, a, n, ","), mpolysz(m, w, h, o, n)} joined(r, a, n, ",") === mpolysz(m, w, h, o, n)

func wkt.MultiPolygonZToWktString(polys)(r)
use joined_polysz
ensures [C16] "members in order": r === "(" + mpolysz(mem(geo.PointZ), mem(geo.LinearRingZ), arr(polys), off(polys), len(polys)) + ")"
local res []string
local acc string
invariant len(res) == _i
invariant forall k int :: {res[k]} 0 <= k < _i ==> res[k] === onepolyz(mem(geo.PointZ), mem(geo.LinearRingZ), polys[k])
invariant acc === mpolysz(mem(geo.PointZ), mem(geo.LinearRingZ), arr(polys), off(polys), _i)
invariant acc === "(" + mpolysz(mem(geo.PointZ), mem(geo.LinearRingZ), arr(polys), off(polys), _i)

func wkt.Encode(geom)(r)
ensures [C16] "point": is(geom, geo.Point) ==> r === "POINT(" + pt(as(geom, geo.Point)) + ")"
ensures [C16] "multipoint": is(geom, geo.MultiPoint) ==> r === "MULTIPOINT" + path(arr(as(geom, geo.MultiPoint)), off(as(geom, geo.MultiPoint)), len(as(geom, geo.MultiPoint)))
ensures [C16] "linestring": is(geom, geo.LineString) ==> r === "LINESTRING" + path(arr(as(geom, geo.LineString)), off(as(geom, geo.LineString)), len(as(geom, geo.LineString)))
ensures [C16] "multilinestring": is(geom, geo.MultiLineString) ==> r === "MULTILINESTRING(" + strings(mem(geo.Point), arr(as(geom, geo.MultiLineString)), off(as(geom, geo.MultiLineString)), len(as(geom, geo.MultiLineString))) + ")"
ensures [C16] "polygon": is(geom, geo.Polygon) ==> r === "POLYGON(" + rings(mem(geo.Point), arr(as(geom, geo.Polygon)), off(as(geom, geo.Polygon)), len(as(geom, geo.Polygon))) + ")"
ensures [C16] "multipolygon": is(geom, geo.MultiPolygon) ==> r === "MULTIPOLYGON(" + mpolys(mem(geo.Point), mem(geo.LinearRing), arr(as(geom, geo.MultiPolygon)), off(as(geom, geo.MultiPolygon)), len(as(geom, geo.MultiPolygon))) + ")"
ensures [C16] "pointZ": is(geom, geo.PointZ) ==> r === "POINT(" + ptz(as(geom, geo.PointZ)) + ")"
ensures [C16] "multipointZ": is(geom, geo.MultiPointZ) ==> r === "MULTIPOINT" + pathz(arr(as(geom, geo.MultiPointZ)), off(as(geom, geo.MultiPointZ)), len(as(geom, geo.MultiPointZ)))
ensures [C16] "linestringZ": is(geom, geo.LineStringZ) ==> r === "LINESTRING" + pathz(arr(as(geom, geo.LineStringZ)), off(as(geom, geo.LineStringZ)), len(as(geom, geo.LineStringZ)))
ensures [C16] "multilinestringZ": is(geom, geo.MultiLineStringZ) ==> r === "MULTILINESTRING(" + stringsz(mem(geo.PointZ), arr(as(geom, geo.MultiLineStringZ)), off(as(geom, geo.MultiLineStringZ)), len(as(geom, geo.MultiLineStringZ))) + ")"
ensures [C16] "polygonZ": is(geom, geo.PolygonZ) ==> r === "POLYGON(" + ringsz(mem(geo.PointZ), arr(as(geom, geo.PolygonZ)), off(as(geom, geo.PolygonZ)), len(as(geom, geo.PolygonZ))) + ")"
ensures [C16] "multipolygonZ": is(geom, geo.MultiPolygonZ) ==> r === "MULTIPOLYGON(" + mpolysz(mem(geo.PointZ), mem(geo.LinearRingZ), arr(as(geom, geo.MultiPolygonZ)), off(as(geom, geo.MultiPolygonZ)), len(as(geom, geo.MultiPolygonZ))) + ")"
ensures [C16] "anything else": !is(geom, geo.Point) && !is(geom, geo.MultiPoint) && !is(geom, geo.LineString) && !is(geom, geo.MultiLineString) && !is(geom, geo.Polygon) && !is(geom, geo.MultiPolygon) && !is(geom, geo.PointZ) && !is(geom, geo.MultiPointZ) && !is(geom, geo.LineStringZ) && !is(geom, geo.MultiLineStringZ) && !is(geom, geo.PolygonZ) && !is(geom, geo.MultiPolygonZ) ==> r === ""
