package geo

// ---- C05: equality ----
pure ptEq(a Point, b Point) bool = abs(a.X - b.X) < 0.000001 && abs(a.Y - b.Y) < 0.000001
pure ptzEq(a PointZ, b PointZ) bool = abs(a.X - b.X) < 0.000001 && abs(a.Y - b.Y) < 0.000001 && abs(a.Z - b.Z) < 0.000001

func geo.(Point).Equal(p1, p2)(r)
ensures [C05] "tolerance on every axis": r <==> ptEq(p1, p2)
ensures [C05] "NaN is never equal": isnan(p1.X) || isnan(p1.Y) || isnan(p2.X) || isnan(p2.Y) ==> !r

func geo.(PointZ).Equal(p1, p2)(r)
ensures [C05] "tolerance on every axis": r <==> ptzEq(p1, p2)
ensures [C05] "NaN is never equal": isnan(p1.X) || isnan(p1.Y) || isnan(p1.Z) || isnan(p2.X) || isnan(p2.Y) || isnan(p2.Z) ==> !r

func geo.(LineString).Equal(line1, line2)(r)
ensures [C05] "same points": r <==> len(line1) == len(line2) && forall k int :: {line1[k]} 0 <= k < len(line1) ==> ptEq(line1[k], line2[k])
invariant forall k int :: {line1[k]} 0 <= k < _i ==> ptEq(line1[k], line2[k])

func geo.(LineStringZ).Equal(line1, line2)(r)
ensures [C05] "same points": r <==> len(line1) == len(line2) && forall k int :: {line1[k]} 0 <= k < len(line1) ==> ptzEq(line1[k], line2[k])
invariant forall k int :: {line1[k]} 0 <= k < _i ==> ptzEq(line1[k], line2[k])

// ---- C03: rings ----
// r is the points of s, closed by a copy of the first one if need be
pure isring(r []Point, s []Point) bool = (forall k int :: {r[k]} 0 <= k < len(s) ==> r[k] === old(s[k])) && (ptEq(old(s[0]), old(s[len(s)-1])) ==> len(r) == len(s)) && (!ptEq(old(s[0]), old(s[len(s)-1])) ==> len(r) == len(s) + 1 && r[len(s)] === old(s[0]))
pure isringz(r []PointZ, s []PointZ) bool = (forall k int :: {r[k]} 0 <= k < len(s) ==> r[k] === old(s[k])) && (ptzEq(old(s[0]), old(s[len(s)-1])) ==> len(r) == len(s)) && (!ptzEq(old(s[0]), old(s[len(s)-1])) ==> len(r) == len(s) + 1 && r[len(s)] === old(s[0]))
pure closed(r []Point) bool = (!isnan(r[0].X) && !isnan(r[0].Y) && isfin(r[0].X) && isfin(r[0].Y)) ==> ptEq(r[0], r[len(r)-1])
pure closedz(r []PointZ) bool = (isfin(r[0].X) && isfin(r[0].Y) && isfin(r[0].Z)) ==> ptzEq(r[0], r[len(r)-1])

func geo.NewRingFromLine(line0)(r)
ensures [C03] "fewer than two points": len(line0) < 2 ==> r == nil
ensures [C03] "points then closing point": len(line0) >= 2 ==> r != nil && isring(*r, line0)
ensures [C03] "closed": len(line0) >= 2 ==> closed(*r)
ensures r != nil ==> fresh(r) && pidx(r) == 0

func geo.NewRingFromLineZ(line0)(r)
requires len(line0) >= 1
ensures [C03] "points then closing point": r != nil && isringz(*r, line0)
ensures [C03] "closed": closedz(*r)
ensures r != nil ==> fresh(r) && pidx(r) == 0

func geo.NewLinearRing(in)(r)
ensures [C03] "fewer than two points": len(in) < 2 ==> r == nil
ensures [C03] "points then closing point": len(in) >= 2 ==> r != nil && isring(*r, in)
ensures [C03] "closed": len(in) >= 2 ==> closed(*r)
ensures r != nil ==> fresh(r) && pidx(r) == 0
local points []Point
invariant len(points) == _i && forall k int :: {points[k]} 0 <= k < _i ==> points[k] === old(in[k])
invariant len(points) == 0 || freshslice(points)

func geo.NewLinearRingZ(in)(r)
requires len(in) >= 1
ensures [C03] "points then closing point": r != nil && isringz(*r, in)
ensures [C03] "closed": closedz(*r)
ensures r != nil ==> fresh(r) && pidx(r) == 0
local points []PointZ
invariant len(points) == _i && forall k int :: {points[k]} 0 <= k < _i ==> points[k] === old(in[k])
invariant len(points) == 0 || freshslice(points)

func geo.NewPolygonFromPois(in)(r)
ensures [C03] r != nil && fresh(r) && pidx(r) == 0
ensures [C03] "fewer than two points": len(in) < 2 ==> len(*r) == 0
ensures [C03] "one ring": len(in) >= 2 ==> len(*r) == 1 && isring((*r)[0], in)
ensures [C03] "closed": len(in) >= 2 ==> closed((*r)[0])

func geo.NewPolygonZFromPois(in)(r)
requires len(in) >= 1
ensures [C03] r != nil && fresh(r) && pidx(r) == 0
ensures [C03] "one ring": len(*r) == 1 && isringz((*r)[0], in)
ensures [C03] "closed": closedz((*r)[0])

func geo.NewPolygon(lrs)(r)
ensures [C03] r != nil && fresh(r) && pidx(r) == 0
ensures [C03] "rings in order": len(*r) == len(lrs) && forall k int :: {(*r)[k]} 0 <= k < len(lrs) ==> (*r)[k] === old(lrs[k])
ensures len(*r) > 0 ==> freshslice(*r)
local rings []LinearRing
invariant len(rings) == _i && forall k int :: {rings[k]} 0 <= k < _i ==> rings[k] === old(lrs[k])
invariant len(rings) == 0 || freshslice(rings)

func geo.NewPolygonZ(lrs)(r)
ensures [C03] r != nil && fresh(r) && pidx(r) == 0
ensures [C03] "rings in order": len(*r) == len(lrs) && forall k int :: {(*r)[k]} 0 <= k < len(lrs) ==> (*r)[k] === old(lrs[k])
ensures len(*r) > 0 ==> freshslice(*r)
local rings []LinearRingZ
invariant len(rings) == _i && forall k int :: {rings[k]} 0 <= k < _i ==> rings[k] === old(lrs[k])
invariant len(rings) == 0 || freshslice(rings)

func geo.(LineString).ToRing(line0)(r)
requires len(line0) >= 2
ensures [C03] "points then closing point": isring(r, line0)
ensures [C03] "closed": closed(r)

func geo.(LineStringZ).ToRing(line0)(r)
requires len(line0) >= 1
ensures [C03] "points then closing point": isringz(r, line0)
ensures [C03] "closed": closedz(r)

func geo.NewLineString(in)(r)
ensures [C03] r != nil && fresh(r) && pidx(r) == 0
ensures [C03] "points in order": len(*r) == len(in) && forall k int :: {(*r)[k]} 0 <= k < len(in) ==> (*r)[k] === old(in[k])
ensures len(*r) > 0 ==> freshslice(*r)
ensures "ends": len(in) > 0 ==> (*r)[0] === old(in[0]) && (*r)[len(in)-1] === old(in[len(in)-1])
local points []Point
invariant len(points) == _i && forall k int :: {points[k]} 0 <= k < _i ==> points[k] === old(in[k])
invariant len(points) == 0 || freshslice(points)

func geo.NewLineStringZ(in)(r)
ensures [C03] r != nil && fresh(r) && pidx(r) == 0
ensures [C03] "points in order": len(*r) == len(in) && forall k int :: {(*r)[k]} 0 <= k < len(in) ==> (*r)[k] === old(in[k])
ensures len(*r) > 0 ==> freshslice(*r)
local points []PointZ
invariant len(points) == _i && forall k int :: {points[k]} 0 <= k < _i ==> points[k] === old(in[k])
invariant len(points) == 0 || freshslice(points)
