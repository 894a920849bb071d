package geo

// ---- C23: geohash and S2 cells ----
func geo.GeohashEncode(pt, Precision, srid)(r)
ensures [C23] "latitude is Y, longitude is X": r === ext("geohash.EncodeWithPrecision", pt.Y, pt.X, Precision)

func geo.GeohashGetCenter(hash, srid)(r)
ensures [C23] "longitude in X, latitude in Y": r.X === ext("geohash.DecodeCenter#1", hash) && r.Y === ext("geohash.DecodeCenter#0", hash)

func geo.GeohashGetBoundary(hash, srid)(r)
ensures [C23] "longitude in X, latitude in Y": r.MinX === ext("geohash.BoundingBox", hash).MinLng && r.MaxX === ext("geohash.BoundingBox", hash).MaxLng && r.MinY === ext("geohash.BoundingBox", hash).MinLat && r.MaxY === ext("geohash.BoundingBox", hash).MaxLat

func geo.GeohashGetAllNeighbors(hash, srid)(r)
ensures [C23] "the library's neighbours": r === ext("geohash.Neighbors", hash)

func geo.S2GetCellID(p, level, srid)(r)
ensures [C23] "other reference systems": srid != 4326 ==> r == 0
ensures [C23] "latitude is Y, longitude is X": srid == 4326 ==> r == ext("s2.(CellID).Parent", ext("s2.CellIDFromLatLng", ext("s2.LatLngFromDegrees", p.Y, p.X)), level)

func geo.S2GetCenter(cellID, srid)(r)
ensures [C23] "other reference systems": srid != 4326 ==> r == nil
ensures [C23] "longitude in X, latitude in Y": srid == 4326 ==> fresh(r) && r.X === ext("s1.(Angle).Degrees", ext("s2.(CellID).LatLng", cellID).Lng) && r.Y === ext("s1.(Angle).Degrees", ext("s2.(CellID).LatLng", cellID).Lat)

// the library's loops and polygons, as far as the code can see them: the vertices of a loop, the first loop of a polygon
ufun nverts(l *s2.Loop) int
ufun vert(l *s2.Loop, k int) s2.Point
ufun cellloop(c s2.Cell) *s2.Loop
ufun firstloop(p *s2.Polygon) *s2.Loop

extern s2.LoopFromCell(c)(l)
ensures l != nil && l === cellloop(c)

extern s2.(*Loop).Vertices(l)(r)
requires l != nil
ensures len(r) == nverts(l) && forall k int :: {r[k]} 0 <= k < len(r) ==> r[k] === vert(l, k)

func geo.S2GetBoundary(cellID, srid)(r)
ensures [C23] "other reference systems": srid != 4326 ==> len(r) == 0
ensures [C23] "every vertex": srid == 4326 ==> len(r) == nverts(cellloop(ext("s2.CellFromCellID", cellID)))
ensures [C23] "longitude in X, latitude in Y": srid == 4326 ==> forall k int :: {r[k]} 0 <= k < len(r) ==> r[k].X === ext("s1.(Angle).Degrees", ext("s2.LatLngFromPoint", vert(cellloop(ext("s2.CellFromCellID", cellID)), k)).Lng) && r[k].Y === ext("s1.(Angle).Degrees", ext("s2.LatLngFromPoint", vert(cellloop(ext("s2.CellFromCellID", cellID)), k)).Lat)
local res []Point
invariant len(res) == _i
invariant forall k int :: {res[k]} 0 <= k < len(res) ==> res[k].X === ext("s1.(Angle).Degrees", ext("s2.LatLngFromPoint", vert(cellloop(ext("s2.CellFromCellID", cellID)), k)).Lng) && res[k].Y === ext("s1.(Angle).Degrees", ext("s2.LatLngFromPoint", vert(cellloop(ext("s2.CellFromCellID", cellID)), k)).Lat)

func geo.S2GetAllNeighbors(cellID, srid)(r)
ensures [C23] "other reference systems": srid != 4326 ==> len(r) == 0
ensures [C23] "every neighbour": srid == 4326 ==> len(r) == len(nbrs(cellID)) && forall k int :: {r[k]} 0 <= k < len(r) ==> r[k] == nbrs(cellID)[k]
local cellIDsInt []uint64
invariant len(cellIDsInt) == _i && forall k int :: {cellIDsInt[k]} 0 <= k < len(cellIDsInt) ==> cellIDsInt[k] == nbrs(cellID)[k]
pure nbrs(c uint64) []s2.CellID = ext("s2.(CellID).AllNeighbors", c, ext("s2.(CellID).Level", c))

extern s2.LoopFromPoints(pts)(l)
ensures l != nil && fresh(l) && pidx(l) == 0
ensures nverts(l) == len(pts) && forall k int :: {vert(l, k)} 0 <= k < len(pts) ==> vert(l, k) === pts[k]

extern s2.PolygonFromLoops(loops)(p)
ensures p != nil && fresh(p) && (len(loops) == 1 ==> firstloop(p) === loops[0])

// the cells the library finds for a polygon of one loop, starting at a point
ufun covering(l *s2.Loop, start s2.Point, level int) []s2.CellID
extern s2.SimpleRegionCovering(region, start, level)(r)
ensures is(region, *s2.Polygon) ==> r === covering(firstloop(as(region, *s2.Polygon)), start, level)

// a point on the sphere: latitude is Y, longitude is X
pure onsphere(p Point) s2.Point = ext("s2.PointFromLatLng", ext("s2.LatLngFromDegrees", p.Y, p.X))
pure loopof(l *s2.Loop, s []Point) bool = nverts(l) == len(s) && forall k int :: {vert(l, k)} 0 <= k < len(s) ==> vert(l, k) === onsphere(s[k])
pure backloop(l *s2.Loop, s []Point) bool = nverts(l) == len(s) && forall k int :: {vert(l, k)} 0 <= k < len(s) ==> vert(l, k) === onsphere(s[len(s)-1-k])

func geo.toLoop(points)(r)
ensures r != nil
ensures [C23] "last vertex first": backloop(r, points)
local pts []s2.Point
invariant len(pts) == 0 || freshslice(pts)
invariant len(pts) == _i
invariant len(pts) == len(points)
invariant forall k int :: {pts[k]} 0 <= k < len(pts) ==> pts[k] === onsphere(points[k])
invariant forall k int :: {pts[k]} 0 <= k < _i || len(pts) - _i <= k < len(pts) ==> pts[k] === onsphere(points[len(points)-1-k])
invariant forall k int :: {pts[k]} _i <= k < len(pts) - _i ==> pts[k] === onsphere(points[k])

// the loop runs through the exterior ring counter-clockwise and the cells are those the library finds for it
pure covers(r []uint64, l *s2.Loop, start s2.Point, level int) bool = len(r) == len(covering(l, start, level)) && forall k int :: {r[k]} 0 <= k < len(r) ==> r[k] == covering(l, start, level)[k]

func geo.S2RegionCoverer(poly, level, srid)(r)
requires len(poly) > 0 && len(poly[0]) >= 2
ensures [C23] @ieee "the library's cells for the ring": exists l *s2.Loop, k int :: {nverts(l), poly[0][k]} 0 <= k < len(poly[0]) && covers(r, l, onsphere(poly[0][k]), level)
ensures [C23] @real "for the ring, counter-clockwise": exclosed(poly[0]) ==> exists l *s2.Loop, k int :: {nverts(l), poly[0][k]} 0 <= k < len(poly[0]) && (signedarea(poly) > 0 ? loopof(l, poly[0]) : backloop(l, poly[0])) && covers(r, l, onsphere(poly[0][k]), level)
local pois []Point, cellIDsInt []uint64, cellIDs []s2.CellID
// turning the ring round
invariant len(pois) == len(old(poly[0])) && freshslice(pois)
invariant forall k int :: {pois[k]} 0 <= k < _i || len(pois) - _i <= k < len(pois) ==> pois[k] === old(poly[0])[len(pois)-1-k]
invariant forall k int :: {pois[k]} _i <= k < len(pois) - _i ==> pois[k] === old(poly[0])[k]
// copying the cells
invariant len(cellIDsInt) == _i && forall k int :: {cellIDsInt[k]} 0 <= k < len(cellIDsInt) ==> cellIDsInt[k] == cellIDs[k]
