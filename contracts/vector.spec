package geo

// ---- C24: vectors, angles, bearings ----
pure veceq(a Vector2, x float, y float) bool = a.X === x && a.Y === y

func geo.NewVector2(x, y)(r)
ensures [C24] "stored": fresh(r) && pidx(r) == 0 && veceq(*r, x, y)

func geo.ConvertPointToVector(p1, p2)(r)
ensures [C24] "difference": fresh(r) && pidx(r) == 0 && veceq(*r, p2.X-p1.X, p2.Y-p1.Y)
ensures [C24] @real "difference": fresh(r) && pidx(r) == 0 && r.X == p2.X-p1.X && r.Y == p2.Y-p1.Y

func geo.ConvertSegToVector(seg)(r)
ensures [C24] "difference": fresh(r) && pidx(r) == 0 && veceq(*r, seg.End.X-seg.Start.X, seg.End.Y-seg.Start.Y)
ensures [C24] @real "difference": fresh(r) && pidx(r) == 0 && r.X == seg.End.X-seg.Start.X && r.Y == seg.End.Y-seg.Start.Y

func geo.(*Vector2).Equal(vec1, vec2)(r)
requires vec1 != nil
ensures [C24] "exact": r <==> vec1.X == vec2.X && vec1.Y == vec2.Y

func geo.(*Vector2).Clone(vec1)(r)
requires vec1 != nil
ensures [C24] "copy": fresh(r) && pidx(r) == 0 && *r === *vec1
ensures [C24] @real "copy": fresh(r) && pidx(r) == 0 && *r === *vec1

func geo.(Vector2).Add(vec1, vec2)(r)
ensures [C24] "sum": veceq(r, vec1.X+vec2.X, vec1.Y+vec2.Y)

func geo.(Vector2).Sub(vec1, vec2)(r)
ensures [C24] "difference": veceq(r, vec1.X-vec2.X, vec1.Y-vec2.Y)

func geo.Add(a, b)(r)
ensures [C24] "sum": veceq(r, a.X+b.X, a.Y+b.Y)

func geo.(*Vector2).Multiply(vec1, scalar)()
requires vec1 != nil
modifies *vec1
ensures [C24] "scaled": vec1.X === old(vec1.X)*scalar && vec1.Y === old(vec1.Y)*scalar
ensures [C24] @real "scaled": vec1.X == old(vec1.X)*scalar && vec1.Y == old(vec1.Y)*scalar

func geo.(*Vector2).Divide(vec1, scalar)()
requires vec1 != nil && scalar != 0
modifies *vec1
ensures [C24] @real "divided": vec1.X == old(vec1.X)/scalar && vec1.Y == old(vec1.Y)/scalar

func geo.(*Vector2).Dot(vec1, vec2)(r)
requires vec1 != nil
ensures [C24] "dot product": r === vec1.X*vec2.X + vec1.Y*vec2.Y

func geo.(*Vector2).Cross(vec1, vec2)(r)
requires vec1 != nil
ensures [C24] "cross product": r === vec1.X*vec2.Y - vec1.Y*vec2.X
ensures [C24] @real "cross product": r == crs(vec1.X, vec1.Y, vec2.X, vec2.Y)
inst @real crs_def(vec1.X, vec1.Y, vec2.X, vec2.Y)

func geo.(*Vector2).Length(vec1)(r)
requires vec1 != nil
ensures [C24] "length": r === sqrt(vec1.X*vec1.X + vec1.Y*vec1.Y)
ensures [C24] @real "length": r == sqrt(vec1.X*vec1.X + vec1.Y*vec1.Y)

func geo.(*Vector2).LengthSq(vec1)(r)
requires vec1 != nil
ensures [C24] "squared length": r === vec1.X*vec1.X + vec1.Y*vec1.Y

pure unitof(u Vector2, a Vector2) bool = u.X*u.X + u.Y*u.Y == 1 && u.X * sqrt(a.X*a.X+a.Y*a.Y) == a.X && u.Y * sqrt(a.X*a.X+a.Y*a.Y) == a.Y

func geo.(*Vector2).Normalize(vec1)()
requires vec1 != nil && sqrt(vec1.X*vec1.X + vec1.Y*vec1.Y) != 0
modifies *vec1
ensures [C24] @real "unit vector": unitof(*vec1, old(*vec1))

func geo.Normalize(a)(r)
requires sqrt(a.X*a.X + a.Y*a.Y) != 0
ensures [C24] @real "unit vector": fresh(r) && pidx(r) == 0 && unitof(*r, a)

pure turn(c Point, p Point, q Point) float = atan2(c.Y-q.Y, c.X-q.X) - atan2(c.Y-p.Y, c.X-p.X)
func geo.CacAngle(point1, centerPoint, point2)(r, err)
ensures [C24] @real "error": err != nil <==> point1 == centerPoint || point2 == centerPoint
ensures [C24] "angle": err == nil ==> r === (turn(centerPoint, point1, point2) < 0 ? turn(centerPoint, point1, point2) + 6.283185307179586 : turn(centerPoint, point1, point2))

pure bry(p Point, q Point) float = sin(radn(q.X)-radn(p.X)) * cos(radn(q.Y))
pure brx(p Point, q Point) float = cos(radn(p.Y))*sin(radn(q.Y)) - sin(radn(p.Y))*cos(radn(q.Y))*cos(radn(q.X)-radn(p.X))
func geo.GetAzimuth(p1, p2, srid)(r)
ensures [C24] "other metrics": srid != 4326 ==> r == 0
ensures [C24] "bearing": srid == 4326 ==> r === mod(atan2(bry(p1, p2), brx(p1, p2))*180/pi() + 360, 360)
