package geo

// ---- C11: points, segments and polygons ----
pure between(a float, b float, x float) bool = a <= x && x <= b || b <= x && x <= a
// q lies on the segment from a to b
pure onseg(a Point, b Point, q Point) bool = (q.X-a.X)*(b.Y-a.Y) == (b.X-a.X)*(q.Y-a.Y) && between(a.X, b.X, q.X) && between(a.Y, b.Y, q.Y)
// a lies above q by the library's tolerance
pure above(a Point, q Point) bool = a.Y - q.Y >= 0.000001
// the ray from q towards larger X crosses the edge from a to b
pure crosses(a Point, b Point, q Point) bool = above(a, q) != above(b, q) && q.X-(q.Y-a.Y)*(a.X-b.X)/(a.Y-b.Y)-a.X <= -0.000001
// over the first n edges of a ring: one of them carries q / an odd number of them is crossed
rec touches(h array[Point], o int, n int, q Point) bool = n <= 0 ? false : touches(h, o, n-1, q) || onseg(at(h, o, n-1), at(h, o, n), q)
rec oddcross(h array[Point], o int, n int, q Point) bool = n <= 0 ? false : oddcross(h, o, n-1, q) != crosses(at(h, o, n-1), at(h, o, n), q)
pure ringtouch(s []Point, n int, q Point) bool = touches(arr(s), off(s), n, q)
pure ringodd(s []Point, n int, q Point) bool = oddcross(arr(s), off(s), n, q)
// 1 disjoint, 2 contained, 4 touching
pure place(p []LinearRing, q Point) int = len(p) == 0 ? 1 : ringtouch(p[0], len(p[0])-1, q) ? 4 : ringodd(p[0], len(p[0])-1, q) ? 2 : 1

func geo.IsPointOnSegment(p1, p2, point)(r)
ensures [C11] @ieee "on the segment": r <==> onseg(p1, p2, point)

func geo.IsPointInPolygon(point, poly)(r)
ensures [C11] @ieee "no ring": len(poly) == 0 ==> r == RELA_DISJOINT
ensures [C11] @ieee "touch": r == RELA_TOUCH <==> place(poly, point) == 4
ensures [C11] @ieee "contain": r == RELA_CONTAIN <==> place(poly, point) == 2
ensures [C11] @ieee "else disjoint": r == RELA_TOUCH || r == RELA_CONTAIN || r == RELA_DISJOINT
local isIn bool
use touches_at
invariant len(poly) > 0 ==> isIn == ringodd(poly[0], _i, point)
invariant len(poly) > 0 ==> !ringtouch(poly[0], _i, point)
invariant len(poly) == 0 ==> !isIn

lemma touches_at(h array[Point], o int, k int, n int, q Point) induction n
requires 0 <= k < n && onseg(at(h, o, k), at(h, o, k+1), q)
ensures {touches(h, o, n, q), at(h, o, k)} touches(h, o, n, q)
