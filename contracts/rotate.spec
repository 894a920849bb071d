package geo

// ---- C26: rotation and point buffers (over exact arithmetic) ----
pure trunc4(v float) float = trunc(v*10000) / 10000
pure cwx(p Point, c Point, t float) float = (p.X-c.X)*cos(t) + (p.Y-c.Y)*sin(t) + c.X
pure cwy(p Point, c Point, t float) float = (p.Y-c.Y)*cos(t) - (p.X-c.X)*sin(t) + c.Y
// p turned clockwise by t about c
opaque rotpt(p Point, c Point, t float) Point = mk(Point, trunc4(cwx(p, c, t)), trunc4(cwy(p, c, t)))
pure turned(q Point, p Point, c Point, t float) bool = q === rotpt(p, c, t)
// r is the rotated exterior ring of p, closed if need be
pure turnedring(r []Point, s []Point, c Point, t float) bool = len(r) >= len(s) && (forall k int :: {r[k]} 0 <= k < len(s) ==> turned(r[k], old(s[k]), c, t)) && (ptEq(r[0], r[len(s)-1]) ==> len(r) == len(s)) && (!ptEq(r[0], r[len(s)-1]) ==> len(r) == len(s)+1 && r[len(s)] === r[0])
pure turnedpoly(r []LinearRing, p []LinearRing, c Point, t float) bool = (len(p) == 0 || len(p[0]) < 2 ==> len(r) == 0) && (len(p) > 0 && len(p[0]) >= 2 ==> len(r) == 1 && turnedring(r[0], p[0], c, t))
pure rotation(r Geometry, g Geometry, c Point, t float) bool = (is(g, Point) ==> is(r, Point) && turned(as(r, Point), as(g, Point), c, t)) && (is(g, Polygon) ==> is(r, Polygon) && turnedpoly(as(r, Polygon), as(g, Polygon), c, t))

func geo.RotateCW(g0, center, angle)(r)
ensures [C26] "kinds": (is(g0, Point) ==> is(r, Point)) && (is(g0, Polygon) ==> is(r, Polygon))
ensures [C26] "other kinds": !is(g0, Point) && !is(g0, Polygon) ==> r == nil
inst @real rotpt_def(as(g0, Point), center, angle)
ensures [C26] @real "rotated": rotation(r, g0, center, angle)
local pts []Point
invariant len(pts) == _i
invariant len(pts) == 0 || freshslice(pts)
invariant @real is(g0, Polygon) ==> forall k int :: {pts[k]} 0 <= k < _i ==> turned(pts[k], old(as(g0, Polygon)[0][k]), center, angle)

func geo.RotateCCW(g0, center, angle)(r)
ensures [C26] "other kinds": !is(g0, Point) && !is(g0, Polygon) ==> r == nil
ensures [C26] @real "rotated": rotation(r, g0, center, 0-angle)

// vertex k of the circle
opaque circpt(c Point, a float, r float) Point = mk(Point, c.X + r*cos(a), c.Y + r*sin(a))
pure oncircle(q Point, c Point, a float, r float) bool = q === circpt(c, a, r)
pure atradius(q Point, c Point, r float) bool = (q.X-c.X)*(q.X-c.X) + (q.Y-c.Y)*(q.Y-c.Y) == r*r
lemma @real circ_radius(c Point, a float, r float)
use circpt_def
ensures atradius(circpt(c, a, r), c, r)
pure step() float = 0.26179938779914946
func geo.getBufferCoordsByRadian(center, startRadian, endRadian, radius)(r)
use circpt_def
ensures [C26] "negative": radius < 0 ==> len(r) == 0
ensures [C26] @real "on the circle": forall k int :: {r[k]} 0 <= k < len(r) ==> oncircle(r[k], center, startRadian + i2f(k)*step(), radius)
ensures [C26] @real "up to the end": radius >= 0 ==> startRadian + i2f(len(r))*step() > endRadian && (len(r) > 0 ==> startRadian + i2f(len(r)-1)*step() <= endRadian)
ensures len(r) == 0 || freshslice(r)
ensures @ieee !(radius < 0) && startRadian <= endRadian && startRadian + step() <= endRadian ==> len(r) >= 2
local bufferPoints []Point, phi float
invariant @ieee len(bufferPoints) == 0 ==> phi === startRadian
invariant @ieee len(bufferPoints) == 1 ==> phi === startRadian + step()
invariant @real phi == startRadian + i2f(len(bufferPoints))*step()
invariant @real len(bufferPoints) > 0 ==> startRadian + i2f(len(bufferPoints)-1)*step() <= endRadian
invariant @real forall k int :: {bufferPoints[k]} 0 <= k < len(bufferPoints) ==> oncircle(bufferPoints[k], center, startRadian + i2f(k)*step(), radius)
invariant len(bufferPoints) == 0 || freshslice(bufferPoints)

pure circle(p []LinearRing, c Point, r float) bool = len(p) == 1 && 24 <= len(p[0]) && len(p[0]) <= 26 && (forall k int :: {p[0][k]} 0 <= k < 24 ==> oncircle(p[0][k], c, i2f(k)*step(), r) && atradius(p[0][k], c, r)) && ptEq(p[0][0], p[0][len(p[0])-1])

func geo.pointBuffer(p1, dis)(r)
inst @real forall a float :: circ_radius(p1, a, dis)
ensures [C26] "negative": dis < 0 ==> len(r) == 0
ensures [C26] @real "circle": dis >= 0 ==> circle(r, p1, dis)

func geo.(Point).Buffer(p, width)(r)
ensures [C26] "negative": width < 0 ==> len(r) == 0
ensures [C26] @real "circle": width >= 0 ==> circle(r, p, width)
