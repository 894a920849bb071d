package geojson

// ---- C19: geometry of a decoded coordinate tree ----
// what encoding/json makes of an array of numbers, and of nested arrays
pure tree(v interface{}) []interface{} = as(v, []interface{})
pure numat(v interface{}, k int) bool = is(tree(v)[k], float64)
pure co(v interface{}, k int) float = as(tree(v)[k], float64)
pure pos2(v interface{}) bool = is(v, []interface{}) && len(tree(v)) == 2 && numat(v, 0) && numat(v, 1)
pure pos3(v interface{}) bool = is(v, []interface{}) && len(tree(v)) == 3 && numat(v, 0) && numat(v, 1) && numat(v, 2)
pure path2(v interface{}) bool = is(v, []interface{}) && (forall k int :: {tree(v)[k]} 0 <= k < len(tree(v)) ==> pos2(tree(v)[k]))
pure path3(v interface{}) bool = is(v, []interface{}) && (forall k int :: {tree(v)[k]} 0 <= k < len(tree(v)) ==> pos3(tree(v)[k]))
pure paths2(v interface{}) bool = is(v, []interface{}) && (forall r int :: {tree(v)[r]} 0 <= r < len(tree(v)) ==> path2(tree(v)[r]))
pure paths3(v interface{}) bool = is(v, []interface{}) && (forall r int :: {tree(v)[r]} 0 <= r < len(tree(v)) ==> path3(tree(v)[r]))

pure same2(v interface{}, p geo.Point) bool = p.X === co(v, 0) && p.Y === co(v, 1)
pure same3(v interface{}, p geo.PointZ) bool = p.X === co(v, 0) && p.Y === co(v, 1) && p.Z === co(v, 2)
pure samepath2(v interface{}, l []geo.Point) bool = len(l) == len(tree(v)) && (forall k int :: {l[k]} 0 <= k < len(l) ==> same2(tree(v)[k], l[k]))
pure samepath3(v interface{}, l []geo.PointZ) bool = len(l) == len(tree(v)) && (forall k int :: {l[k]} 0 <= k < len(l) ==> same3(tree(v)[k], l[k]))

func geojson.inter2Point(data)(p)
requires is(data, []interface{}) && len(tree(data)) >= 2 && numat(data, 0) && numat(data, 1)
ensures [C19] "the numbers of the position": same2(data, p)

func geojson.inter2PointZ(data)(p)
requires is(data, []interface{}) && len(tree(data)) >= 3 && numat(data, 0) && numat(data, 1) && numat(data, 2)
ensures [C19] "the numbers of the position": same3(data, p)

func geojson.inter2LineString(data)(l)
requires path2(data)
ensures [C19] "the positions in order": samepath2(data, l)
local lineString geo.LineString
invariant len(lineString) == _i
invariant forall k int :: {lineString[k]} 0 <= k < _i ==> same2(tree(data)[k], lineString[k])

func geojson.inter2LineStringZ(data)(l)
requires path3(data)
ensures [C19] "the positions in order": samepath3(data, l)
local lineStringZ geo.LineStringZ
invariant len(lineStringZ) == _i
invariant forall k int :: {lineStringZ[k]} 0 <= k < _i ==> same3(tree(data)[k], lineStringZ[k])

func geojson.inter2LinearRing(data)(l)
requires path2(data)
ensures [C19] "the positions in order": samepath2(data, l)
local linearRing geo.LinearRing
invariant len(linearRing) == _i
invariant forall k int :: {linearRing[k]} 0 <= k < _i ==> same2(tree(data)[k], linearRing[k])

func geojson.inter2LinearRingZ(data)(l)
requires path3(data)
ensures [C19] "the positions in order": samepath3(data, l)
local linearRingZ geo.LinearRingZ
invariant len(linearRingZ) == _i
invariant forall k int :: {linearRingZ[k]} 0 <= k < _i ==> same3(tree(data)[k], linearRingZ[k])

func geojson.inter2Polygon(data)(p)
requires paths2(data)
ensures [C19] "the rings in order": len(p) == len(tree(data)) && (forall r int :: {p[r]} 0 <= r < len(p) ==> samepath2(tree(data)[r], p[r]))
local polygon geo.Polygon
invariant len(polygon) == _i
invariant forall r int :: {polygon[r]} 0 <= r < _i ==> samepath2(tree(data)[r], polygon[r])

func geojson.inter2PolygonZ(data)(p)
requires paths3(data)
ensures [C19] "the rings in order": len(p) == len(tree(data)) && (forall r int :: {p[r]} 0 <= r < len(p) ==> samepath3(tree(data)[r], p[r]))
local polygonZ geo.PolygonZ
invariant len(polygonZ) == _i
invariant forall r int :: {polygonZ[r]} 0 <= r < _i ==> samepath3(tree(data)[r], polygonZ[r])

func geojson.isInterPointZ(data)(z)
requires pos2(data) || pos3(data)
ensures [C19] "three numbers": z <==> pos3(data)

func geojson.isInterLineZ(data)(z)
requires path2(data) || path3(data)
ensures [C19] "three numbers": path2(data) ==> !z
ensures [C19] "three numbers": path3(data) && len(tree(data)) > 0 ==> z
invariant path3(data) ==> _i == 0

func geojson.isInterPolygonZ(data)(z)
requires paths2(data) || paths3(data)
ensures [C19] "three numbers": paths2(data) ==> !z
ensures [C19] "three numbers": paths3(data) && (exists r int :: {tree(data)[r]} 0 <= r < len(tree(data)) && len(tree(tree(data)[r])) > 0) ==> z
invariant @nest1 paths3(data) ==> (forall r int :: {tree(data)[r]} 0 <= r < _i ==> len(tree(tree(data)[r])) == 0)
invariant @nest2 paths3(data) ==> _i == 0

func geojson.UnmarshalGeo(gjson)(g, err)
requires gjson != nil
requires gjson.Type === "Point" ==> pos2(gjson.Coordinates) || pos3(gjson.Coordinates)
requires gjson.Type === "LineString" ==> path2(gjson.Coordinates) || path3(gjson.Coordinates)
requires gjson.Type === "Polygon" ==> paths2(gjson.Coordinates) || paths3(gjson.Coordinates)
ensures [C19] "point": gjson.Type === "Point" && pos2(gjson.Coordinates) ==> err == nil && is(g, geo.Point) && same2(gjson.Coordinates, as(g, geo.Point))
ensures [C19] "pointZ": gjson.Type === "Point" && pos3(gjson.Coordinates) ==> err == nil && is(g, geo.PointZ) && same3(gjson.Coordinates, as(g, geo.PointZ))
ensures [C19] "linestring": gjson.Type === "LineString" && path2(gjson.Coordinates) && len(tree(gjson.Coordinates)) > 0 ==> err == nil && is(g, geo.LineString) && samepath2(gjson.Coordinates, as(g, geo.LineString))
ensures [C19] "linestringZ": gjson.Type === "LineString" && path3(gjson.Coordinates) && len(tree(gjson.Coordinates)) > 0 ==> err == nil && is(g, geo.LineStringZ) && samepath3(gjson.Coordinates, as(g, geo.LineStringZ))
ensures [C19] "polygon": gjson.Type === "Polygon" && paths2(gjson.Coordinates) && (exists r int :: {tree(gjson.Coordinates)[r]} 0 <= r < len(tree(gjson.Coordinates)) && len(tree(tree(gjson.Coordinates)[r])) > 0) ==> err == nil && is(g, geo.Polygon) && len(as(g, geo.Polygon)) == len(tree(gjson.Coordinates)) && (forall r int :: {as(g, geo.Polygon)[r]} 0 <= r < len(as(g, geo.Polygon)) ==> samepath2(tree(gjson.Coordinates)[r], as(g, geo.Polygon)[r]))
ensures [C19] "polygonZ": gjson.Type === "Polygon" && paths3(gjson.Coordinates) && (exists r int :: {tree(gjson.Coordinates)[r]} 0 <= r < len(tree(gjson.Coordinates)) && len(tree(tree(gjson.Coordinates)[r])) > 0) ==> err == nil && is(g, geo.PolygonZ) && len(as(g, geo.PolygonZ)) == len(tree(gjson.Coordinates)) && (forall r int :: {as(g, geo.PolygonZ)[r]} 0 <= r < len(as(g, geo.PolygonZ)) ==> samepath3(tree(gjson.Coordinates)[r], as(g, geo.PolygonZ)[r]))

// encoding/json stores the type and the tree of arrays of the text (the names of the members are the standard ones)
ufun carries(text string, typ string, coords interface{}) bool
extern json.Unmarshal(data, v)(err)
requires "a blank geometry to fill": is(v, *geojson.GeoJson) ==> as(v, *geojson.GeoJson) != nil && as(v, *geojson.GeoJson).CRS == nil && as(v, *geojson.GeoJson).Coordinates == nil && as(v, *geojson.GeoJson).Geometries == nil
requires "the standard names of the members": is(v, *geojson.GeoJson) ==> jsontag("Type", geojson.GeoJson) === "type" && jsontag("Coordinates", geojson.GeoJson) === "coordinates,omitempty" && jsontag("Geometries", geojson.GeoJson) === "geometries,omitempty" && jsontag("CRS", geojson.GeoJson) === "crs,omitempty"
modifies *as(v, *geojson.GeoJson)
ensures is(v, *geojson.GeoJson) ==> carries(jtext(data), as(v, *geojson.GeoJson).Type, as(v, *geojson.GeoJson).Coordinates)

func geojson.NewFeature(g0)(f)
ensures [C19] "a feature": fresh(f) && f.Type === "Feature" && f.Geometry === g0 && f.Properties != nil && (forall k string :: {has(f.Properties, k)} !has(f.Properties, k))
ensures [C19] "no other members": f.ID == nil && f.CRS == nil && len(f.BoundingBox) == 0
ensures [C19] "point": is(g0, geo.Point) && encodable(jp(as(g0, geo.Point))) ==> carries(whole("Point", jp(as(g0, geo.Point))), f.GeometryJson.Type, f.GeometryJson.Coordinates)
ensures [C19] "pointZ": is(g0, geo.PointZ) && encodable(jpz(as(g0, geo.PointZ))) ==> carries(whole("Point", jpz(as(g0, geo.PointZ))), f.GeometryJson.Type, f.GeometryJson.Coordinates)
ensures [C19] "linestring": is(g0, geo.LineString) && encodable(jpathtext(as(g0, geo.LineString))) ==> carries(whole("LineString", jpathtext(as(g0, geo.LineString))), f.GeometryJson.Type, f.GeometryJson.Coordinates)
ensures [C19] "linestringZ": is(g0, geo.LineStringZ) && encodable(jpathtextz(as(g0, geo.LineStringZ))) ==> carries(whole("LineString", jpathtextz(as(g0, geo.LineStringZ))), f.GeometryJson.Type, f.GeometryJson.Coordinates)
ensures [C19] "polygon": is(g0, geo.Polygon) && encodable(jpolytext(as(g0, geo.Polygon))) ==> carries(whole("Polygon", jpolytext(as(g0, geo.Polygon))), f.GeometryJson.Type, f.GeometryJson.Coordinates)
ensures [C19] "polygonZ": is(g0, geo.PolygonZ) && encodable(jpolytextz(as(g0, geo.PolygonZ))) ==> carries(whole("Polygon", jpolytextz(as(g0, geo.PolygonZ))), f.GeometryJson.Type, f.GeometryJson.Coordinates)

pure bboxof(s []float64) geo.Box = mk(geo.Box, s[0], s[1], s[2], s[3])
func geojson.(*Feature).SetBoundingBox(f)()
requires f != nil
modifies *f
ensures [C19] "four bounds": len(f.BoundingBox) == 4
ensures [C19] @ieee "point": is(f.Geometry, geo.Point) && !isnan(as(f.Geometry, geo.Point).X) && !isnan(as(f.Geometry, geo.Point).Y) ==> f.BoundingBox[0] == as(f.Geometry, geo.Point).X && f.BoundingBox[2] == as(f.Geometry, geo.Point).X && f.BoundingBox[1] == as(f.Geometry, geo.Point).Y && f.BoundingBox[3] == as(f.Geometry, geo.Point).Y
ensures [C19] @ieee "multipoint": is(f.Geometry, geo.MultiPoint) ==> exact(bboxof(f.BoundingBox), as(f.Geometry, geo.MultiPoint))
ensures [C19] @ieee "line": is(f.Geometry, geo.LineString) ==> exact(bboxof(f.BoundingBox), as(f.Geometry, geo.LineString))
ensures [C19] @ieee "polygon": is(f.Geometry, geo.Polygon) && len(as(f.Geometry, geo.Polygon)) > 0 ==> exact(bboxof(f.BoundingBox), as(f.Geometry, geo.Polygon)[0])
ensures [C19] @ieee "multiline: encloses": is(f.Geometry, geo.MultiLineString) && okls(as(f.Geometry, geo.MultiLineString)) ==> allinls(bboxof(f.BoundingBox), as(f.Geometry, geo.MultiLineString))
ensures [C19] @ieee "multipolygon: encloses": is(f.Geometry, geo.MultiPolygon) && okmp(as(f.Geometry, geo.MultiPolygon)) ==> allinmp(bboxof(f.BoundingBox), as(f.Geometry, geo.MultiPolygon))
ensures [C19] "rest of the feature kept": f.ID === old(f.ID) && f.Type === old(f.Type) && f.Properties === old(f.Properties) && f.Geometry === old(f.Geometry) && f.CRS === old(f.CRS) && f.GeometryJson === old(f.GeometryJson)
