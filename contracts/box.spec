package geo

// ---- C02: boxes ----
pure inbox(b Box, p Point) bool = b.MinX <= p.X && p.X <= b.MaxX && b.MinY <= p.Y && p.Y <= b.MaxY
pure boxok(b Box) bool = !isnan(b.MinX) && !isnan(b.MinY) && !isnan(b.MaxX) && !isnan(b.MaxY)
pure boxeq(a Box, b Box) bool = a.MinX == b.MinX && a.MinY == b.MinY && a.MaxX == b.MaxX && a.MaxY == b.MaxY
// x is the least / greatest of a and b
pure least(x float, a float, b float) bool = x <= a && x <= b && (x == a || x == b)
pure greatest(x float, a float, b float) bool = a <= x && b <= x && (x == a || x == b)
pure isunion(r Box, a Box, b Box) bool = least(r.MinX, a.MinX, b.MinX) && least(r.MinY, a.MinY, b.MinY) && greatest(r.MaxX, a.MaxX, b.MaxX) && greatest(r.MaxY, a.MaxY, b.MaxY)
// the intervals [a,b] and [c,d] share a number
pure share(a float, b float, c float, d float) bool = exists z float :: a <= z && z <= b && c <= z && z <= d
pure encloses(a Box, b Box) bool = a.MinX <= b.MinX && b.MaxX <= a.MaxX && a.MinY <= b.MinY && b.MaxY <= a.MaxY
pure ordered(b Box) bool = b.MinX <= b.MaxX && b.MinY <= b.MaxY

func geo.NewBox(minX, minY, maxX, maxY)(r)
ensures [C02] fresh(r) && pidx(r) == 0
ensures [C02] r.MinX === minX && r.MinY === minY && r.MaxX === maxX && r.MaxY === maxY

func geo.NewRectBox(p, lx, ly)(r)
ensures [C02] fresh(r) && pidx(r) == 0
ensures [C02] @real r.MinX == p.X - lx && r.MinY == p.Y - ly && r.MaxX == p.X + lx && r.MaxY == p.Y + ly

func geo.IsPointInBox(b, p)(r)
requires b != nil
ensures [C02] r <==> inbox(*b, p)

func geo.(*Box).Intersect(b1, b2)(r)
ensures [C02] b1 == nil || b2 == nil ==> !r
ensures [C02] "shared point": b1 != nil && b2 != nil && ordered(*b1) && ordered(*b2) ==> (r <==> (share(b1.MinX, b1.MaxX, b2.MinX, b2.MaxX) && share(b1.MinY, b1.MaxY, b2.MinY, b2.MaxY)))
ensures [C02] "bounds overlap": b1 != nil && b2 != nil && boxok(*b1) && boxok(*b2) ==> (r <==> (b2.MinX <= b1.MaxX && b1.MinX <= b2.MaxX && b2.MinY <= b1.MaxY && b1.MinY <= b2.MaxY))

func geo.(*Box).Contain(b1, b2)(r)
requires b1 != nil && b2 != nil
ensures [C02] boxok(*b1) && boxok(*b2) ==> (r <==> encloses(*b1, *b2))

func geo.(*Box).Size(b1)(r)
requires b1 != nil
ensures [C02] isfin(r) ==> r == (b1.MaxX - b1.MinX) * (b1.MaxY - b1.MinY)
ensures [C02] @real r == (b1.MaxX - b1.MinX) * (b1.MaxY - b1.MinY)

func geo.(*Box).Union(b1, b2)(r)
requires b1 != nil && b2 != nil
ensures [C02] fresh(r) && pidx(r) == 0
ensures [C02] boxok(*b1) && boxok(*b2) ==> isunion(*r, *b1, *b2) && boxok(*r)

func geo.BoxUnion(boxs)(r)
requires "no nil box": forall k int :: {boxs[k]} 0 <= k < len(boxs) ==> boxs[k] != nil
ensures [C02] r != nil
ensures [C02] "no boxes": len(boxs) == 0 ==> r.MinX == 0 && r.MinY == 0 && r.MaxX == 0 && r.MaxY == 0
ensures [C02] "encloses all": (forall k int :: {boxs[k]} 0 <= k < len(boxs) ==> boxok(*boxs[k])) ==> forall k int :: {boxs[k]} 0 <= k < len(boxs) ==> encloses(*r, *boxs[k])
ensures [C02] "least": (forall k int :: {boxs[k]} 0 <= k < len(boxs) ==> boxok(*boxs[k])) && len(boxs) > 0 ==> (exists k int :: {boxs[k]} 0 <= k < len(boxs) && r.MinX == boxs[k].MinX) && (exists k int :: {boxs[k]} 0 <= k < len(boxs) && r.MinY == boxs[k].MinY) && (exists k int :: {boxs[k]} 0 <= k < len(boxs) && r.MaxX == boxs[k].MaxX) && (exists k int :: {boxs[k]} 0 <= k < len(boxs) && r.MaxY == boxs[k].MaxY)
local box *Box
invariant box != nil
invariant (forall k int :: {boxs[k]} 0 <= k < len(boxs) ==> boxok(*boxs[k])) ==> boxok(*box)
invariant (forall k int :: {boxs[k]} 0 <= k < len(boxs) ==> boxok(*boxs[k])) ==> forall k int :: {boxs[k]} 0 <= k < _i + 1 && k < len(boxs) ==> encloses(*box, *boxs[k])
invariant (forall k int :: {boxs[k]} 0 <= k < len(boxs) ==> boxok(*boxs[k])) ==> exists k int :: {boxs[k]} 0 <= k < len(boxs) && box.MinX == boxs[k].MinX
invariant (forall k int :: {boxs[k]} 0 <= k < len(boxs) ==> boxok(*boxs[k])) ==> exists k int :: {boxs[k]} 0 <= k < len(boxs) && box.MinY == boxs[k].MinY
invariant (forall k int :: {boxs[k]} 0 <= k < len(boxs) ==> boxok(*boxs[k])) ==> exists k int :: {boxs[k]} 0 <= k < len(boxs) && box.MaxX == boxs[k].MaxX
invariant (forall k int :: {boxs[k]} 0 <= k < len(boxs) ==> boxok(*boxs[k])) ==> exists k int :: {boxs[k]} 0 <= k < len(boxs) && box.MaxY == boxs[k].MaxY

// ---- C01: bounding boxes ----
pure okpts(s []Point) bool = forall k int :: {s[k]} 0 <= k < len(s) ==> !isnan(s[k].X) && !isnan(s[k].Y)
pure allin(b Box, s []Point) bool = forall k int :: {s[k]} 0 <= k < len(s) ==> inbox(b, s[k])
pure attained(b Box, s []Point) bool = (exists k int :: {s[k]} 0 <= k < len(s) && s[k].X == b.MinX) && (exists k int :: {s[k]} 0 <= k < len(s) && s[k].Y == b.MinY) && (exists k int :: {s[k]} 0 <= k < len(s) && s[k].X == b.MaxX) && (exists k int :: {s[k]} 0 <= k < len(s) && s[k].Y == b.MaxY)
pure exact(b Box, s []Point) bool = okpts(s) && len(s) > 0 ==> allin(b, s) && attained(b, s)

func geo.calBox(points)(r)
ensures fresh(r) && pidx(r) == 0
ensures [C01] @ieee "exact": exact(*r, points)
local minX, minY, maxX, maxY float
invariant okpts(points) ==> forall k int :: {points[k]} 0 <= k < _i ==> minX <= points[k].X && points[k].X <= maxX
invariant okpts(points) ==> forall k int :: {points[k]} 0 <= k < _i ==> minY <= points[k].Y && points[k].Y <= maxY
invariant !isnan(minX) && !isnan(minY) && !isnan(maxX) && !isnan(maxY)
invariant okpts(points) ==> (_i == 0 && minX == inf()) || exists k int :: {points[k]} 0 <= k < _i && points[k].X == minX
invariant okpts(points) ==> (_i == 0 && minY == inf()) || exists k int :: {points[k]} 0 <= k < _i && points[k].Y == minY
invariant okpts(points) ==> (_i == 0 && maxX == ninf()) || exists k int :: {points[k]} 0 <= k < _i && points[k].X == maxX
invariant okpts(points) ==> (_i == 0 && maxY == ninf()) || exists k int :: {points[k]} 0 <= k < _i && points[k].Y == maxY

// lists of lists, flattened
pure okls(s []LineString) bool = forall i, j int :: {old(s[i][j])} 0 <= i < len(s) && 0 <= j < len(old(s[i])) ==> !isnan(old(s[i][j]).X) && !isnan(old(s[i][j]).Y)
pure allinls(b Box, s []LineString) bool = forall i, j int :: {old(s[i][j])} mk2(i, j) && 0 <= i < len(s) && 0 <= j < len(old(s[i])) ==> inbox(b, old(s[i][j]))
pure attls(b Box, s []LineString) bool = (exists i, j int :: {old(s[i][j])} 0 <= i < len(s) && 0 <= j < len(old(s[i])) && old(s[i][j]).X == b.MinX) && (exists i, j int :: {old(s[i][j])} 0 <= i < len(s) && 0 <= j < len(old(s[i])) && old(s[i][j]).Y == b.MinY) && (exists i, j int :: {old(s[i][j])} 0 <= i < len(s) && 0 <= j < len(old(s[i])) && old(s[i][j]).X == b.MaxX) && (exists i, j int :: {old(s[i][j])} 0 <= i < len(s) && 0 <= j < len(old(s[i])) && old(s[i][j]).Y == b.MaxY)
pure okmp(s []Polygon) bool = forall i, j, k int :: {old(s[i][j][k])} 0 <= i < len(s) && 0 <= j < len(old(s[i])) && 0 <= k < len(old(s[i][j])) ==> !isnan(old(s[i][j][k]).X) && !isnan(old(s[i][j][k]).Y)
pure allinmp(b Box, s []Polygon) bool = forall i, j, k int :: {old(s[i][j][k])} mk3(i, j, k) && 0 <= i < len(s) && 0 <= j < len(old(s[i])) && 0 <= k < len(old(s[i][j])) ==> inbox(b, old(s[i][j][k]))
pure attmp(b Box, s []Polygon) bool = (exists i, j, k int :: {old(s[i][j][k])} 0 <= i < len(s) && 0 <= j < len(old(s[i])) && 0 <= k < len(old(s[i][j])) && old(s[i][j][k]).X == b.MinX) && (exists i, j, k int :: {old(s[i][j][k])} 0 <= i < len(s) && 0 <= j < len(old(s[i])) && 0 <= k < len(old(s[i][j])) && old(s[i][j][k]).Y == b.MinY) && (exists i, j, k int :: {old(s[i][j][k])} 0 <= i < len(s) && 0 <= j < len(old(s[i])) && 0 <= k < len(old(s[i][j])) && old(s[i][j][k]).X == b.MaxX) && (exists i, j, k int :: {old(s[i][j][k])} 0 <= i < len(s) && 0 <= j < len(old(s[i])) && 0 <= k < len(old(s[i][j])) && old(s[i][j][k]).Y == b.MaxY)
pure zerobox(b Box) bool = b.MinX == 0 && b.MinY == 0 && b.MaxX == 0 && b.MaxY == 0

func geo.(Polygon).GetExteriorRing(poly)(r)
ensures len(poly) == 0 ==> len(r) == 0
ensures len(poly) > 0 ==> r === poly[0]

func geo.(Polygon).GetExteriorPoints(poly)(r)
ensures len(poly) == 0 ==> len(r) == 0
ensures len(poly) > 0 ==> r === poly[0]

// instantiation markers (always true), they keep the quantifiers of the flattening loops from feeding each other
rec mk1(k int) bool = true
rec mk2(i int, j int) bool = true
rec mk3(i int, j int, k int) bool = true

func geo.BoundingBox(g0)(r)
ensures fresh(r) && pidx(r) == 0
ensures [C01] @ieee "point": is(g0, Point) && !isnan(as(g0, Point).X) && !isnan(as(g0, Point).Y) ==> r.MinX == as(g0, Point).X && r.MaxX == as(g0, Point).X && r.MinY == as(g0, Point).Y && r.MaxY == as(g0, Point).Y
ensures [C01] @ieee "multipoint": is(g0, MultiPoint) ==> exact(*r, as(g0, MultiPoint))
ensures [C01] @ieee "line": is(g0, LineString) ==> exact(*r, as(g0, LineString))
ensures [C01] @ieee "polygon": is(g0, Polygon) && len(as(g0, Polygon)) > 0 ==> exact(*r, as(g0, Polygon)[0])
ensures [C01] @ieee "multiline: encloses": is(g0, MultiLineString) && okls(as(g0, MultiLineString)) ==> allinls(*r, as(g0, MultiLineString))
ensures [C01] @ieee "multiline: attained": is(g0, MultiLineString) && okls(as(g0, MultiLineString)) && (exists i, j int :: 0 <= i < len(as(g0, MultiLineString)) && 0 <= j < len(old(as(g0, MultiLineString)[i]))) ==> attls(*r, as(g0, MultiLineString))
ensures [C01] @ieee "multipolygon: encloses": is(g0, MultiPolygon) && okmp(as(g0, MultiPolygon)) ==> allinmp(*r, as(g0, MultiPolygon))
ensures [C01] @ieee "multipolygon: attained": is(g0, MultiPolygon) && okmp(as(g0, MultiPolygon)) && (exists i, j, k int :: {old(as(g0, MultiPolygon)[i][j][k])} 0 <= i < len(as(g0, MultiPolygon)) && 0 <= j < len(old(as(g0, MultiPolygon)[i])) && 0 <= k < len(old(as(g0, MultiPolygon)[i][j]))) ==> attmp(*r, as(g0, MultiPolygon))
ensures [C01] @ieee "other kinds": !is(g0, Point) && !is(g0, MultiPoint) && !is(g0, LineString) && !is(g0, MultiLineString) && !is(g0, Polygon) && !is(g0, MultiPolygon) ==> zerobox(*r)
local pois []Point
invariant mk1(len(pois))
invariant is(g0, MultiLineString) ==> forall k int :: {pois[k]} 0 <= k < len(pois) ==> exists i, j int :: {old(as(g0, MultiLineString)[i][j])} 0 <= i < len(as(g0, MultiLineString)) && 0 <= j < len(old(as(g0, MultiLineString)[i])) && old(as(g0, MultiLineString)[i][j]) === pois[k]
invariant @nest1 is(g0, MultiLineString) ==> forall i, j int :: {mk2(i, j)} mk2(i, j) && 0 <= i < len(as(g0, MultiLineString)) && i < _i && 0 <= j < len(old(as(g0, MultiLineString)[i])) ==> exists k int :: {mk1(k)} mk1(k) && 0 <= k < len(pois) && old(as(g0, MultiLineString)[i][j]) === pois[k]
invariant @nest2 is(g0, MultiLineString) ==> forall i, j int :: {mk2(i, j)} mk2(i, j) && 0 <= i < len(as(g0, MultiLineString)) && 0 <= j < len(old(as(g0, MultiLineString)[i])) && (i < _o || i == _o && j < _i) ==> exists k int :: {mk1(k)} mk1(k) && 0 <= k < len(pois) && old(as(g0, MultiLineString)[i][j]) === pois[k]
invariant is(g0, MultiPolygon) ==> forall k int :: {pois[k]} 0 <= k < len(pois) ==> exists i, j, m int :: {old(as(g0, MultiPolygon)[i][j][m])} 0 <= i < len(as(g0, MultiPolygon)) && 0 <= j < len(old(as(g0, MultiPolygon)[i])) && 0 <= m < len(old(as(g0, MultiPolygon)[i][j])) && old(as(g0, MultiPolygon)[i][j][m]) === pois[k]
invariant @nest1 is(g0, MultiPolygon) ==> forall i, j, m int :: {mk3(i, j, m)} mk3(i, j, m) && 0 <= i < len(as(g0, MultiPolygon)) && 0 <= j < len(old(as(g0, MultiPolygon)[i])) && 0 <= m < len(old(as(g0, MultiPolygon)[i][j])) && i < _i ==> exists k int :: {mk1(k)} mk1(k) && 0 <= k < len(pois) && old(as(g0, MultiPolygon)[i][j][m]) === pois[k]
invariant @nest2 is(g0, MultiPolygon) ==> forall i, j, m int :: {mk3(i, j, m)} mk3(i, j, m) && 0 <= i < len(as(g0, MultiPolygon)) && 0 <= j < len(old(as(g0, MultiPolygon)[i])) && 0 <= m < len(old(as(g0, MultiPolygon)[i][j])) && (i < _o || i == _o && j < _i) ==> exists k int :: {mk1(k)} mk1(k) && 0 <= k < len(pois) && old(as(g0, MultiPolygon)[i][j][m]) === pois[k]
invariant @nest3 is(g0, MultiPolygon) ==> forall i, j, m int :: {mk3(i, j, m)} mk3(i, j, m) && 0 <= i < len(as(g0, MultiPolygon)) && 0 <= j < len(old(as(g0, MultiPolygon)[i])) && 0 <= m < len(old(as(g0, MultiPolygon)[i][j])) && (i < _oo || i == _oo && j < _o || i == _oo && j == _o && m < _i) ==> exists k int :: {mk1(k)} mk1(k) && 0 <= k < len(pois) && old(as(g0, MultiPolygon)[i][j][m]) === pois[k]
