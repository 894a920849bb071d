package geo

// ---- C07: nearest points ----
pure sqd(a Point, b Point) float = (a.X-b.X)*(a.X-b.X) + (a.Y-b.Y)*(a.Y-b.Y)
// the point of the line through a and b with parameter t (0 at a, 1 at b)
pure online(a Point, b Point, t float) Point = mk(Point, a.X + t*(b.X-a.X), a.Y + t*(b.Y-a.Y))
// the parameter of the foot of q on that line
pure footpar(q Point, a Point, b Point) float = ((q.X-a.X)*(b.X-a.X) + (q.Y-a.Y)*(b.Y-a.Y)) / sqd(b, a)
// always true: names the places at which the lemmas below are needed
rec at2(u float, t float) bool = true
rec seg5(q Point, a Point, b Point, t float) bool = true

lemma @real alg_square(x float, y float, dx float, dy float, u float, t float)
requires u*(dx*dx+dy*dy) == x*dx + y*dy
ensures (x-t*dx)*(x-t*dx) + (y-t*dy)*(y-t*dy) - ((x-u*dx)*(x-u*dx) + (y-u*dy)*(y-u*dy)) == (t-u)*(t-u)*(dx*dx+dy*dy)

lemma @real near_alg(x float, y float, dx float, dy float, u float, t float)
inst alg_square(x, y, dx, dy, u, t)
requires u*(dx*dx+dy*dy) == x*dx + y*dy
ensures (x-u*dx)*(x-u*dx) + (y-u*dy)*(y-u*dy) <= (x-t*dx)*(x-t*dx) + (y-t*dy)*(y-t*dy)

lemma @real near_mid(q Point, a Point, b Point, t float)
requires seg5(q, a, b, t)
requires sqd(b, a) != 0
inst near_alg(q.X-a.X, q.Y-a.Y, b.X-a.X, b.Y-a.Y, footpar(q, a, b), t)
ensures sqd(q, online(a, b, footpar(q, a, b))) <= sqd(q, online(a, b, t))

lemma @real near_a(q Point, a Point, b Point, t float)
requires seg5(q, a, b, t) && 0 <= t && t <= 1
requires sqd(b, a) != 0 && footpar(q, a, b) < 0
ensures sqd(q, a) <= sqd(q, online(a, b, t))

lemma @real near_b(q Point, a Point, b Point, t float)
requires seg5(q, a, b, t) && 0 <= t && t <= 1
requires sqd(b, a) != 0 && footpar(q, a, b) > 1
ensures sqd(q, b) <= sqd(q, online(a, b, t))

func geo.PointToSegmentDistance(point, p1, p2, srid)(d, c)
opt functional
use near_mid, near_a, near_b
ensures [C07] "distance to the closest point": d === pdist(point, c, srid)
ensures [C07] @real "distance to the closest point": d == pdist(point, c, srid)
ensures [C07] @real "on the segment": onseg(p1, p2, c)
ensures [C07] @real "nothing nearer": forall t float :: {seg5(point, p1, p2, t)} seg5(point, p1, p2, t) && 0 <= t && t <= 1 ==> sqd(point, c) <= sqd(point, online(p1, p2, t))

func geo.PointToLineDistance(point, p1, p2, srid)(d, c, u)
ensures [C07] "distance to the foot": d === pdist(point, c, srid)
ensures [C07] @real "distance to the foot": d == pdist(point, c, srid)
ensures [C07] @real "parameter": sqd(p2, p1) != 0 ==> c == online(p1, p2, u)
ensures [C07] @real "perpendicular": sqd(p2, p1) != 0 ==> (point.X-c.X)*(p2.X-p1.X) + (point.Y-c.Y)*(p2.Y-p1.Y) == 0

// distance to and closest point of segment k of a line
pure segdist(q Point, s []Point, k int, srid int) float = ext("geo.PointToSegmentDistance#0", q, s[k], s[k+1], srid)
pure segpt(q Point, s []Point, k int, srid int) Point = ext("geo.PointToSegmentDistance#1", q, s[k], s[k+1], srid)

func geo.PointHitLineString(p, line, srid)(pt, idx, dist)
ensures [C07] "some segment": (exists k int :: {line[k]} 0 <= k < len(line)-1 && segdist(p, line, k, srid) < 2147483648.0) ==> 0 <= idx < len(line)-1 && dist === segdist(p, line, idx, srid) && pt === segpt(p, line, idx, srid)
ensures [C07] "none nearer": forall k int :: {line[k]} 0 <= k < len(line)-1 ==> !(segdist(p, line, k, srid) < dist)
ensures [C07] "first of the nearest": forall k int :: {line[k]} 0 <= k < idx ==> !(segdist(p, line, k, srid) <= dist)
local distance float, nearestIndex int, nearestPt Point
invariant 0 <= nearestIndex && (nearestIndex < _i || _i <= 0)
invariant !isnan(distance)
invariant distance < 2147483648.0 ==> nearestIndex < _i && distance === segdist(p, line, nearestIndex, srid) && nearestPt === segpt(p, line, nearestIndex, srid)
invariant !(distance < 2147483648.0) ==> distance == 2147483648.0 && nearestIndex == 0
invariant forall k int :: {line[k]} 0 <= k < _i ==> !(segdist(p, line, k, srid) < distance)
invariant forall k int :: {line[k]} 0 <= k < nearestIndex ==> !(segdist(p, line, k, srid) <= distance)

func geo.PointPolygonDistance(p, poly, srid)(r)
ensures [C07] "inside or on the boundary": place(poly, p) != 1 ==> r === 0.0
ensures [C07] "some edge": place(poly, p) == 1 && len(poly) > 0 && poly[0][0] === poly[0][len(poly[0])-1] && (exists k int :: {poly[0][k]} 0 <= k < len(poly[0])-1 && segdist(p, poly[0], k, srid) < 2147483648.0) ==> exists k int :: {poly[0][k]} 0 <= k < len(poly[0])-1 && r === segdist(p, poly[0], k, srid)
ensures [C07] "none nearer": place(poly, p) == 1 && len(poly) > 0 && poly[0][0] === poly[0][len(poly[0])-1] ==> forall k int :: {poly[0][k]} 0 <= k < len(poly[0])-1 ==> !(segdist(p, poly[0], k, srid) < r)
local distance float
invariant !isnan(distance)
invariant !(distance < 2147483648.0) ==> distance == 2147483648.0
invariant len(poly) > 0 && poly[0][0] === poly[0][len(poly[0])-1] && distance < 2147483648.0 ==> exists k int :: {poly[0][k]} 0 <= k < _i && distance === segdist(p, poly[0], k, srid)
invariant len(poly) > 0 && poly[0][0] === poly[0][len(poly[0])-1] ==> forall k int :: {poly[0][k]} 0 <= k < _i ==> !(segdist(p, poly[0], k, srid) < distance)
