package geo

// ---- C12: relations of segments, lines and polygons (over exact arithmetic) ----
// cross product of the vectors (ax, ay) and (bx, by)
opaque crs(ax float, ay float, bx float, by float) float = ax*by - ay*bx
// positive when p lies left of the line from a to b
pure orient(a Point, b Point, p Point) float = crs(b.X-a.X, b.Y-a.Y, p.X-a.X, p.Y-a.Y)
// p and q lie strictly on different sides of the line through a and b
pure apart(a Point, b Point, p Point, q Point) bool = orient(a, b, p) > 0 && orient(a, b, q) < 0 || orient(a, b, p) < 0 && orient(a, b, q) > 0
// the segments from a to b and from c to d cross in their interiors
opaque crossing(a Point, b Point, c Point, d Point) bool = apart(a, b, c, d) && apart(c, d, a, b)
// cross product of the directions
pure dircross(a Point, b Point, c Point, d Point) float = crs(b.X-a.X, b.Y-a.Y, d.X-c.X, d.Y-c.Y)
pure parallel(a Point, b Point, c Point, d Point) bool = dircross(a, b, c, d) == 0
pure same(a Point, b Point) bool = a.X == b.X && a.Y == b.Y
pure shareend(a Point, b Point, c Point, d Point) bool = same(a, c) || same(a, d) || same(b, c) || same(b, d)
// what a relation other than a crossing is for two segments of positive length
opaque meeting(a Point, b Point, c Point, d Point) bool = parallel(a, b, c, d) ? orient(a, b, c) == 0 : shareend(a, b, c, d)

// the same with the vector from a to c
lemma @real orients(a Point, b Point, c Point, d Point)
use crs_def
ensures orient(c, d, a) == crs(c.X-a.X, c.Y-a.Y, d.X-c.X, d.Y-c.Y)
ensures orient(c, d, b) == crs(c.X-a.X, c.Y-a.Y, d.X-c.X, d.Y-c.Y) - dircross(a, b, c, d)
ensures orient(a, b, c) == 0 - crs(c.X-a.X, c.Y-a.Y, b.X-a.X, b.Y-a.Y)
ensures orient(a, b, d) == dircross(a, b, c, d) - crs(c.X-a.X, c.Y-a.Y, b.X-a.X, b.Y-a.Y)

lemma @real fraction(n float, d float)
requires d != 0
ensures 0 < n/d && n/d < 1 <==> n > 0 && n < d || n < 0 && n > d
ensures n/d == 0 <==> n == 0
ensures n/d == 1 <==> n == d


// the definition means what it says: crossing segments share the interior point with these parameters, and segments
// that share an interior point and are not parallel cross
// parameter of the common point on the line through a and b, and on the line through c and d
pure par1(a Point, b Point, c Point, d Point) float = crs(c.X-a.X, c.Y-a.Y, d.X-c.X, d.Y-c.Y) / dircross(a, b, c, d)
pure par2(a Point, b Point, c Point, d Point) float = crs(c.X-a.X, c.Y-a.Y, b.X-a.X, b.Y-a.Y) / dircross(a, b, c, d)
lemma @real crossing_sym(a Point, b Point, c Point, d Point)
use crossing_def
ensures {crossing(a, b, c, d)} crossing(a, b, c, d) == crossing(c, d, a, b)

lemma @real par_alg(x float, y float, u float, v float, p float, q float)
requires x*v == y*u && x*q == y*p && (x != 0 || y != 0)
ensures u*q == v*p

lemma @real meeting_sym(a Point, b Point, c Point, d Point)
use crs_def, meeting_def
inst par_alg(b.X-a.X, b.Y-a.Y, d.X-c.X, d.Y-c.Y, c.X-a.X, c.Y-a.Y)
inst par_alg(d.X-c.X, d.Y-c.Y, b.X-a.X, b.Y-a.Y, c.X-a.X, c.Y-a.Y)
requires !same(a, b) && !same(c, d)
ensures {meeting(a, b, c, d)} meeting(a, b, c, d) == meeting(c, d, a, b)

lemma @real crossing_par(a Point, b Point, c Point, d Point)
inst orients(a, b, c, d)
use crossing_def
inst fraction(crs(c.X-a.X, c.Y-a.Y, d.X-c.X, d.Y-c.Y), dircross(a, b, c, d))
inst fraction(crs(c.X-a.X, c.Y-a.Y, b.X-a.X, b.Y-a.Y), dircross(a, b, c, d))
requires crossing(a, b, c, d)
ensures !parallel(a, b, c, d)
ensures 0 < par1(a, b, c, d) && par1(a, b, c, d) < 1 && 0 < par2(a, b, c, d) && par2(a, b, c, d) < 1

lemma @real shareend_par(a Point, b Point, c Point, d Point)
use crs_def
requires !parallel(a, b, c, d)
requires orient(c, d, a) == 0 && orient(a, b, c) == 0
ensures same(a, c)

lemma @real meet_alg(qx float, qy float, rx float, ry float, sx float, sy float, t float, u float)
requires t*(rx*sy-ry*sx) == qx*sy-qy*sx && u*(rx*sy-ry*sx) == qx*ry-qy*rx && rx*sy-ry*sx != 0
ensures (t*rx - u*sx)*(rx*sy-ry*sx) == qx*(rx*sy-ry*sx)
ensures t*rx - u*sx == qx
ensures (t*ry - u*sy)*(rx*sy-ry*sx) == qy*(rx*sy-ry*sx)
ensures t*ry - u*sy == qy

// lines that are not parallel share the point with these parameters
lemma @real crossing_point(a Point, b Point, c Point, d Point, t float, u float)
use crs_def
inst meet_alg(c.X-a.X, c.Y-a.Y, b.X-a.X, b.Y-a.Y, d.X-c.X, d.Y-c.Y, t, u)
requires !parallel(a, b, c, d) && t*dircross(a, b, c, d) == crs(c.X-a.X, c.Y-a.Y, d.X-c.X, d.Y-c.Y) && u*dircross(a, b, c, d) == crs(c.X-a.X, c.Y-a.Y, b.X-a.X, b.Y-a.Y)
ensures a.X + t*(b.X-a.X) == c.X + u*(d.X-c.X) && a.Y + t*(b.Y-a.Y) == c.Y + u*(d.Y-c.Y)

lemma @real point_alg(qx float, qy float, rx float, ry float, sx float, sy float, t float, u float)
requires t*rx == qx + u*sx && t*ry == qy + u*sy
ensures t*(rx*sy-ry*sx) == qx*sy-qy*sx
ensures u*(rx*sy-ry*sx) == qx*ry-qy*rx

lemma @real scale(n float, d float, t float)
requires n == t*d && d != 0 && 0 < t && t < 1
ensures n > 0 && n < d || n < 0 && n > d

// segments that are not parallel and share a point interior to both cross
lemma @real point_crossing(a Point, b Point, c Point, d Point, t float, u float)
inst orients(a, b, c, d)
use crs_def, crossing_def
inst point_alg(c.X-a.X, c.Y-a.Y, b.X-a.X, b.Y-a.Y, d.X-c.X, d.Y-c.Y, t, u)
inst scale(crs(c.X-a.X, c.Y-a.Y, d.X-c.X, d.Y-c.Y), dircross(a, b, c, d), t)
inst scale(crs(c.X-a.X, c.Y-a.Y, b.X-a.X, b.Y-a.Y), dircross(a, b, c, d), u)
requires !parallel(a, b, c, d) && 0 < t && t < 1 && 0 < u && u < 1
requires a.X + t*(b.X-a.X) == c.X + u*(d.X-c.X) && a.Y + t*(b.Y-a.Y) == c.Y + u*(d.Y-c.Y)
ensures crossing(a, b, c, d)

func geo.SegmentRelation(seg1, seg2)(r)
use crossing_def, meeting_def
inst @real orients(seg1.Start, seg1.End, seg2.Start, seg2.End)
inst @real fraction(crs(seg2.Start.X-seg1.Start.X, seg2.Start.Y-seg1.Start.Y, seg2.End.X-seg2.Start.X, seg2.End.Y-seg2.Start.Y), dircross(seg1.Start, seg1.End, seg2.Start, seg2.End))
inst @real fraction(crs(seg2.Start.X-seg1.Start.X, seg2.Start.Y-seg1.Start.Y, seg1.End.X-seg1.Start.X, seg1.End.Y-seg1.Start.Y), dircross(seg1.Start, seg1.End, seg2.Start, seg2.End))
ensures [C12] @real "crossing": r == RELA_INTERSECT <==> crossing(seg1.Start, seg1.End, seg2.Start, seg2.End)
ensures [C12] @real "meeting": !same(seg1.Start, seg1.End) && !same(seg2.Start, seg2.End) ==> (r == RELA_TOUCH <==> meeting(seg1.Start, seg1.End, seg2.Start, seg2.End))
ensures [C12] @real "else disjoint": r == RELA_INTERSECT || r == RELA_TOUCH || r == RELA_DISJOINT

// the two neighbouring points from position k on
pure segof(s []Point, k int, u []Point, j int) bool = crossing(s[k], s[k+1], u[j], u[j+1])
pure nodup(s []Point) bool = forall k int :: {s[k]} 0 <= k < len(s)-1 ==> !same(s[k], s[k+1])
pure notdisjoint(a Point, b Point, c Point, d Point) bool = crossing(a, b, c, d) || meeting(a, b, c, d)
// some segment of s crosses some segment of u
pure crossed(s []Point, u []Point) bool = exists i, j int :: {s[i], u[j]} 0 <= i < len(s)-1 && 0 <= j < len(u)-1 && segof(s, i, u, j)
pure segcrossed(a Point, b Point, u []Point) bool = exists j int :: {u[j]} 0 <= j < len(u)-1 && crossing(a, b, u[j], u[j+1])

func geo.LineRelation(line1, line2)(r)
use crossing_sym, meeting_sym
ensures [C12] @real "some pair": nodup(line1) && nodup(line2) ==> (r == RELA_INTERSECT <==> exists i, j int :: {line1[i], line2[j]} 0 <= i < len(line1)-1 && 0 <= j < len(line2)-1 && notdisjoint(line1[i], line1[i+1], line2[j], line2[j+1]))
ensures [C12] "else disjoint": r == RELA_INTERSECT || r == RELA_DISJOINT
invariant @real @nest1 nodup(line1) && nodup(line2) ==> forall i, j int :: {line1[i], line2[j]} 0 <= i < _i && 0 <= j < len(line2)-1 ==> !notdisjoint(line1[i], line1[i+1], line2[j], line2[j+1])
invariant @real @nest2 nodup(line1) && nodup(line2) ==> forall i, j int :: {line1[i], line2[j]} 0 <= i < _o && 0 <= j < len(line2)-1 ==> !notdisjoint(line1[i], line1[i+1], line2[j], line2[j+1])
invariant @real @nest2 nodup(line1) && nodup(line2) ==> forall j int :: {line2[j]} 0 <= j < _i ==> !notdisjoint(line1[_o], line1[_o+1], line2[j], line2[j+1])

func geo.SegPolyRelation(seg, poly)(r)
use crossing_sym
ensures [C12] @real "crosses an edge": r == RELA_INTERSECT <==> len(poly) > 0 && segcrossed(seg.Start, seg.End, poly[0])
invariant @real len(poly) > 0 ==> forall j int :: {poly[0][j]} 0 <= j < _i ==> !crossing(seg.Start, seg.End, poly[0][j], poly[0][j+1])

func geo.LinePolyRelation(line, poly)(r)
use crossing_sym
ensures [C12] @real "a segment crosses an edge": r == RELA_INTERSECT <==> len(poly) > 0 && crossed(line, poly[0])
local curRelation GeometryRealation
invariant @real curRelation != RELA_INTERSECT
invariant @real len(poly) > 0 ==> forall i, j int :: {line[i], poly[0][j]} 0 <= i < _i && 0 <= j < len(poly[0])-1 ==> !segof(line, i, poly[0], j)

func geo.LinearPolyRelation(line, poly)(r)
use crossing_sym
ensures [C12] @real "a segment crosses an edge": r == RELA_INTERSECT <==> len(poly) > 0 && crossed(line, poly[0])
local curRelation GeometryRealation
invariant @real curRelation != RELA_INTERSECT
invariant @real len(poly) > 0 ==> forall i, j int :: {line[i], poly[0][j]} 0 <= i < _i && 0 <= j < len(poly[0])-1 ==> !segof(line, i, poly[0], j)

func geo.PolyRelation(poly1, poly2)(r)
use crossing_sym
ensures [C12] @real "an edge crosses an edge": r == RELA_INTERSECT <==> len(poly1) > 0 && len(poly2) > 0 && crossed(poly1[0], poly2[0])

func geo.(Polygon).SelfIntersect(poly)(r)
use crossing_sym
ensures [C12] @real "two edges cross": r <==> len(poly) > 0 && exists i, j int :: {poly[0][i], poly[0][j]} 0 <= i < j < len(poly[0])-1 && segof(poly[0], i, poly[0], j)
invariant @real @nest1 len(poly) > 0 ==> forall i, j int :: {poly[0][i], poly[0][j]} 0 <= i < _i && i < j < len(poly[0])-1 ==> !segof(poly[0], i, poly[0], j)
invariant @real @nest2 len(poly) > 0 ==> forall i, j int :: {poly[0][i], poly[0][j]} 0 <= i < _o && i < j < len(poly[0])-1 ==> !segof(poly[0], i, poly[0], j)
invariant @real @nest2 len(poly) > 0 ==> forall j int :: {poly[0][j]} _o < j < _i ==> !segof(poly[0], _o, poly[0], j)
