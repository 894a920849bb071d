package geo

// ---- C25: Hausdorff distance ----
// m is the least distance from p to a point of s
pure leastto(m float, p Point, s []Point, srid int) bool = (forall j int :: {s[j]} 0 <= j < len(s) ==> m <= dd(p, s[j], srid)) && (exists j int :: {s[j]} 0 <= j < len(s) && m == dd(p, s[j], srid))
pure allnear(s []Point, t []Point, srid int) bool = forall i, j int :: {s[i], t[j]} 0 <= i < len(s) && 0 <= j < len(t) ==> dd(s[i], t[j], srid) < 2147483648.0
// every of the first n points of s has a point of t within m
pure within(m float, s []Point, n int, t []Point, srid int) bool = forall i int :: {s[i]} 0 <= i < n ==> exists j int :: {t[j]} 0 <= j < len(t) && dd(s[i], t[j], srid) <= m
// one of the first n points of s has m as its least distance to t
pure hattained(m float, s []Point, n int, t []Point, srid int) bool = exists i int :: {s[i]} 0 <= i < n && leastto(m, s[i], t, srid)

pure longish(s []Point) bool = len(s) >= 2 && lensum(s, len(s)-1) != 0

func geo.HausdorffDistance(line1, line2, srid)(r)
ensures [C25] "zero length": !longish(line1) || !longish(line2) ==> r == 2147483648.0
ensures [C25] "every point of the first within": longish(line1) && longish(line2) && allnear(line1, line2, srid) && allnear(line2, line1, srid) ==> within(r, line1, len(line1), line2, srid)
ensures [C25] "every point of the second within": longish(line1) && longish(line2) && allnear(line1, line2, srid) && allnear(line2, line1, srid) ==> within(r, line2, len(line2), line1, srid)
ensures [C25] "attained": longish(line1) && longish(line2) && allnear(line1, line2, srid) && allnear(line2, line1, srid) ==> hattained(r, line1, len(line1), line2, srid) || hattained(r, line2, len(line2), line1, srid)
local maxDis, minDis float
invariant 0 <= maxDis && maxDis < 2147483648.0
invariant 0 <= minDis && minDis <= 2147483648.0
invariant minDis < 2147483648.0 ==> exists j int :: {line2[j]} 0 <= j < _i && minDis == dd(line1[_o], line2[j], srid)
invariant minDis < 2147483648.0 ==> exists j int :: {line1[j]} 0 <= j < _i && minDis == dd(line2[_o], line1[j], srid)
invariant forall j int :: {line2[j]} 0 <= j < _i ==> !(dd(line1[_o], line2[j], srid) < minDis)
invariant forall j int :: {line1[j]} 0 <= j < _i ==> !(dd(line2[_o], line1[j], srid) < minDis)
invariant @nest1 allnear(line1, line2, srid) ==> within(maxDis, line1, _i, line2, srid)
invariant @nest1 allnear(line2, line1, srid) ==> within(maxDis, line2, _i, line1, srid)
invariant @nest2 allnear(line1, line2, srid) ==> within(maxDis, line1, _o, line2, srid)
invariant @nest2 allnear(line2, line1, srid) ==> within(maxDis, line2, _o, line1, srid)
invariant allnear(line1, line2, srid) ==> within(maxDis, line1, len(line1), line2, srid)
invariant allnear(line1, line2, srid) && allnear(line2, line1, srid) ==> maxDis == 0 || hattained(maxDis, line1, len(line1), line2, srid) || hattained(maxDis, line2, len(line2), line1, srid)
