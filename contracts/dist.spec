package geo

// ---- C06: distances ----
// floating-point Euclidean distance of the coordinates, whatever the order of the operands
pure edist(a Point, b Point) float = sqrt((a.X-b.X)*(a.X-b.X) + (a.Y-b.Y)*(a.Y-b.Y))
pure edistz(a PointZ, b PointZ) float = sqrt((a.X-b.X)*(a.X-b.X) + (a.Y-b.Y)*(a.Y-b.Y) + (a.Z-b.Z)*(a.Z-b.Z))
pure finp(a Point) bool = isfin(a.X) && isfin(a.Y)
pure finpz(a PointZ) bool = isfin(a.X) && isfin(a.Y) && isfin(a.Z)
pure radn(d float) float = d * pi() / 180
// haversine term on X as longitude and Y as latitude
pure hav(p Point, q Point) float = pow(sin((radn(q.Y) - radn(p.Y)) / 2), 2) + cos(radn(p.Y)) * cos(radn(q.Y)) * pow(sin((radn(q.X) - radn(p.X)) / 2), 2)
pure cdist(p Point, q Point) float = 2 * atan2(sqrt(hav(p, q)), sqrt(max(0, 1 - hav(p, q)))) * 6371000
pure pdist(p Point, q Point, srid int) float = srid == 4326 ? cdist(p, q) : edist(p, q)

func geo.EuclideanDis(p1, p2)(r)
ensures [C06] "formula": r === edist(p1, p2)
ensures [C06] "symmetric": r === edist(p2, p1)
ensures [C06] "never negative": !(r < 0)
ensures [C06] "zero for identical points": finp(p1) && p1 === p2 ==> r == 0
ensures [C06] @real "formula": r == edist(p1, p2)

func geo.EuclideanDistance(p1, p2)(r)
ensures [C06] "formula": r === edist(p1, p2)
ensures [C06] "symmetric": r === edist(p2, p1)
ensures [C06] "never negative": !(r < 0)
ensures [C06] "zero for identical points": finp(p1) && p1 === p2 ==> r == 0
ensures [C06] @real "formula": r == edist(p1, p2)

func geo.(Point).Distance(p1, p2)(r)
ensures [C06] "formula": r === edist(p1, p2)
ensures [C06] "symmetric": r === edist(p2, p1)
ensures [C06] "never negative": !(r < 0)
ensures [C06] "zero for identical points": finp(p1) && p1 === p2 ==> r == 0
ensures [C06] @real "formula": r == edist(p1, p2)

func geo.EuclideanDisZ(p1, p2)(r)
ensures [C06] "formula": r === edistz(p1, p2)
ensures [C06] "symmetric": r === edistz(p2, p1)
ensures [C06] "never negative": !(r < 0)
ensures [C06] "zero for identical points": finpz(p1) && p1 === p2 ==> r == 0
ensures [C06] @real "formula": r == edistz(p1, p2)

func geo.CoordDistance(p1, p2)(r)
ensures [C06] @ieee "never negative": !(r < 0)
ensures [C06] "haversine": r === cdist(p1, p2)
ensures [C06] @real "haversine": r == cdist(p1, p2)

func geo.PointDistance(p1, p2, srid)(r)
opt functional
ensures [C06] @ieee @each "never negative": !(r < 0)
ensures [C06] "metric": r === pdist(p1, p2, srid)
ensures [C06] @real "metric": r == pdist(p1, p2, srid)

// sum of the distances of the first n pairs of consecutive points
rec psum(h array[Point], o int, n int) float = n <= 0 ? 0.0 : psum(h, o, n-1) + edist(at(h, o, n-1), at(h, o, n))
pure lensum(s []Point, n int) float = psum(arr(s), off(s), n)

func geo.(LineString).Length(line)(r)
ensures [C06] "zero for fewer than two": len(line) < 2 ==> r == 0
ensures [C06] "sum": len(line) >= 2 ==> r === lensum(line, len(line)-1)
ensures [C06] @real "sum": len(line) >= 2 ==> r == lensum(line, len(line)-1)
local dis float
invariant dis === lensum(line, _i)
invariant @real dis == lensum(line, _i)

// the distance of two points as PointDistance reports it
pure dd(a Point, b Point, srid int) float = ext("geo.PointDistance", a, b, srid)
