package geo

// ---- C08: area, orientation, centroid (over exact arithmetic) ----
// shoelace terms of the first n edges of a ring
pure cross2(a Point, b Point) float = a.X*b.Y - b.X*a.Y
rec shoe(h array[Point], o int, n int) float = n <= 0 ? 0.0 : shoe(h, o, n-1) + cross2(at(h, o, n-1), at(h, o, n))
rec momx(h array[Point], o int, n int) float = n <= 0 ? 0.0 : momx(h, o, n-1) + (at(h, o, n-1).X + at(h, o, n).X) * cross2(at(h, o, n-1), at(h, o, n))
rec momy(h array[Point], o int, n int) float = n <= 0 ? 0.0 : momy(h, o, n-1) + (at(h, o, n-1).Y + at(h, o, n).Y) * cross2(at(h, o, n-1), at(h, o, n))
// signed area of a ring: half the shoelace sum over all its edges
pure ringarea(r []Point) float = shoe(arr(r), off(r), len(r)-1) / 2
pure exclosed(r []Point) bool = len(r) > 0 && r[0] === r[len(r)-1]
pure nice(p []LinearRing) bool = len(p) == 0 || exclosed(p[0])
pure signedarea(p []LinearRing) float = len(p) == 0 ? 0.0 : ringarea(p[0])

func geo.relativeArea(poly)(r)
ensures [C08] @real "signed area": nice(poly) ==> r == signedarea(poly)
local area float, ptCount int
invariant @real nice(poly) && len(poly) > 0 ==> area == shoe(arr(poly[0]), off(poly[0]), _i)
invariant @real len(poly) == 0 ==> area == 0

func geo.polyArea(poly)(r)
ensures [C08] @real "area": nice(poly) ==> r == abs(signedarea(poly))

func geo.(Polygon).IsCCW(poly)(r)
ensures [C08] @real "counter-clockwise": nice(poly) ==> (r <==> signedarea(poly) > 0)

// sum of the areas of the first n polygons
rec areasum(mr array[array[LinearRing]], mp array[array[Point]], h array[Polygon], o int, n int) float = n <= 0 ? 0.0 : areasum(mr, mp, h, o, n-1) + polyarea(mr, mp, at(h, o, n-1))
pure polyarea(mr array[array[LinearRing]], mp array[array[Point]], p []LinearRing) float = len(p) == 0 ? 0.0 : abs(shoe(row(mp, idx(mr, p, 0)), off(idx(mr, p, 0)), len(idx(mr, p, 0))-1) / 2)
pure nicemp(m []Polygon) bool = forall k int :: {m[k]} 0 <= k < len(m) ==> nice(m[k])
pure mparea(m []Polygon) float = areasum(mem(LinearRing), mem(Point), arr(m), off(m), len(m))

func geo.MultiPolyArea(multiPoly)(r)
ensures [C08] @real "sum over the polygons": nicemp(multiPoly) ==> r == mparea(multiPoly)
local areaSum float
invariant @real nicemp(multiPoly) ==> areaSum == areasum(mem(LinearRing), mem(Point), arr(multiPoly), off(multiPoly), _i)

func geo.GetArea(g0)(r)
ensures [C08] @real "polygon": is(g0, Polygon) && nice(as(g0, Polygon)) ==> r == abs(signedarea(as(g0, Polygon)))
ensures [C08] @real "multipolygon": is(g0, MultiPolygon) && nicemp(as(g0, MultiPolygon)) ==> r == mparea(as(g0, MultiPolygon))
ensures [C08] "other kinds": !is(g0, Polygon) && !is(g0, MultiPolygon) ==> r == 0

rec sumx(h array[Point], o int, n int) float = n <= 0 ? 0.0 : sumx(h, o, n-1) + at(h, o, n-1).X
rec sumy(h array[Point], o int, n int) float = n <= 0 ? 0.0 : sumy(h, o, n-1) + at(h, o, n-1).Y
pure polycentroid(p []LinearRing, c Point) bool = len(p) > 0 && signedarea(p) != 0 ? c.X == momx(arr(p[0]), off(p[0]), len(p[0])-1) / (6 * signedarea(p)) && c.Y == momy(arr(p[0]), off(p[0]), len(p[0])-1) / (6 * signedarea(p)) : c.X == nan() && c.Y == nan()
pure mean(s []Point, c Point) bool = c.X == sumx(arr(s), off(s), len(s)) / i2f(len(s)) && c.Y == sumy(arr(s), off(s), len(s)) / i2f(len(s))

func geo.pointsCenteriod(points)(r)
ensures [C08] @real "mean": len(points) > 0 ==> mean(points, r)
local lats, lngs float, pointList []Point
invariant len(pointList) == _i
invariant forall k int :: {pointList[k]} 0 <= k < _i ==> pointList[k] === old(points[k])
invariant len(pointList) == len(points)
invariant @real lats == sumx(arr(points), off(points), _i)
invariant @real lngs == sumy(arr(points), off(points), _i)

func geo.polyCentroid(poly)(r)
ensures [C08] @real "centroid": nice(poly) ==> polycentroid(poly, r)
local centroidX, centroidY, signArea float
invariant @real nice(poly) && len(poly) > 0 ==> signArea == shoe(arr(poly[0]), off(poly[0]), _i)
invariant @real nice(poly) && len(poly) > 0 ==> centroidX == momx(arr(poly[0]), off(poly[0]), _i)
invariant @real nice(poly) && len(poly) > 0 ==> centroidY == momy(arr(poly[0]), off(poly[0]), _i)
invariant @real len(poly) == 0 ==> signArea == 0

func geo.Centroid(g0)(r)
requires is(g0, LineString) ==> len(as(g0, LineString)) >= 2
ensures [C08] "point": is(g0, Point) ==> r === as(g0, Point)
ensures [C08] @real "multipoint": is(g0, MultiPoint) && len(as(g0, MultiPoint)) > 0 ==> mean(as(g0, MultiPoint), r)
ensures [C08] @real "polygon": is(g0, Polygon) && nice(as(g0, Polygon)) ==> polycentroid(as(g0, Polygon), r)
