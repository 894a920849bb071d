From 3515bcdf5de9177fdeab21b165d93089a58b6664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:07 +0000
Subject: [PATCH 01/34] fix: IsPointOnSegment compares the point with the real
 extent of the segment

---
 relation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/relation.go b/relation.go
index 6657564..8a1f446 100644
--- a/relation.go
+++ b/relation.go
@@ -113,7 +113,7 @@ func IsPointOnLine(point Point, line LineString) bool {
 func IsPointOnSegment(p1, p2, point Point) bool {
 	//保证Q点坐标在p1,p2之间 且叉积为0
 	if (point.X-p1.X)*(p2.Y-p1.Y) == (p2.X-p1.X)*(point.Y-p1.Y) &&
-		IsPointInBox(BoundingBox(NewLineString(p1, p2)), point) {
+		IsPointInBox(BoundingBox(*NewLineString(p1, p2)), point) {
 		return true
 	}
 	return false
-- 
2.43.0


From e084f077e04ee0180b499db134d5cf2fe6b2f3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:08 +0000
Subject: [PATCH 02/34] fix: lines of different length are not equal

---
 lineString.go  | 3 +++
 lineStringZ.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/lineString.go b/lineString.go
index 2d673f9..e1265ec 100644
--- a/lineString.go
+++ b/lineString.go
@@ -109,6 +109,9 @@ func (line LineString) Length() float64 {
 
 //判断两条线是不是相同
 func (line1 LineString) Equal(line2 LineString) bool {
+	if line1.GetPointCount() != line2.GetPointCount() {
+		return false
+	}
 	for i := 0; i < line1.GetPointCount(); i++ {
 		if !line1[i].Equal(line2[i]) {
 			return false
diff --git a/lineStringZ.go b/lineStringZ.go
index dad543b..e0c1b8a 100644
--- a/lineStringZ.go
+++ b/lineStringZ.go
@@ -38,6 +38,9 @@ func (line *LineStringZ) Append(point PointZ) error {
 
 //判断两条线是不是相同
 func (line1 LineStringZ) Equal(line2 LineStringZ) bool {
+	if line1.GetPointCount() != line2.GetPointCount() {
+		return false
+	}
 	for i := 0; i < line1.GetPointCount(); i++ {
 		if !line1[i].Equal(line2[i]) {
 			return false
-- 
2.43.0


From f624fdbd979608cf4e70c18f3d484c8a4a28c3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:08 +0000
Subject: [PATCH 03/34] fix: InsertPoint at the end of a line inserts the point
 once

---
 lineString.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lineString.go b/lineString.go
index e1265ec..5c94c27 100644
--- a/lineString.go
+++ b/lineString.go
@@ -83,7 +83,7 @@ func (line *LineString) InsertPoint(position int, point Point) error {
 		return errors.New("line has no such position")
 	}
 	if line.GetPointCount() == position {
-		line.Append(point)
+		return line.Append(point)
 	}
 	*line = append((*line)[:position+1], (*line)[position:]...)
 	(*line)[position] = point
-- 
2.43.0


From b7d547166a411836d0c44a2aa49a91c245ad4d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:09 +0000
Subject: [PATCH 04/34] fix: negative line positions are errors, not panics

---
 lineString.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lineString.go b/lineString.go
index 5c94c27..4dd2b4e 100644
--- a/lineString.go
+++ b/lineString.go
@@ -54,7 +54,7 @@ func (line LineString) GetEndPoint() *Point {
 
 //取特定点
 func (line LineString) GetPoint(index int) *Point {
-	if index > line.GetPointCount()-1 {
+	if index < 0 || index > line.GetPointCount()-1 {
 		return nil
 	}
 	return &line[index]
@@ -67,7 +67,7 @@ func (line *LineString) Append(point Point) error {
 
 //在指定位置改变linestring的点
 func (line *LineString) SetPoint(position int, point Point) error {
-	if line.GetPointCount() < position {
+	if position < 0 || line.GetPointCount() < position {
 		return errors.New("line has no such position")
 	}
 	if line.GetPointCount() == position {
@@ -79,7 +79,7 @@ func (line *LineString) SetPoint(position int, point Point) error {
 
 //在指定位置插入点
 func (line *LineString) InsertPoint(position int, point Point) error {
-	if line.GetPointCount() < position {
+	if position < 0 || line.GetPointCount() < position {
 		return errors.New("line has no such position")
 	}
 	if line.GetPointCount() == position {
@@ -92,7 +92,7 @@ func (line *LineString) InsertPoint(position int, point Point) error {
 
 //在指定位置删除点
 func (line *LineString) DelPoint(position int) error {
-	if line.GetPointCount() <= position {
+	if position < 0 || line.GetPointCount() <= position {
 		return errors.New("line has no such position")
 	}
 	(*line) = append((*line)[:position], (*line)[position+1:]...)
-- 
2.43.0


From 75bcc1994a9586ab0874b954809aecad89a5f967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:10 +0000
Subject: [PATCH 05/34] fix: SplitByIndex halves do not overwrite each other
 and reject bad positions

---
 lineString.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lineString.go b/lineString.go
index 4dd2b4e..085517f 100644
--- a/lineString.go
+++ b/lineString.go
@@ -138,7 +138,11 @@ func (line LineString) GetPointSet() []Point {
 
 //从指定位置分成两条线
 func (line LineString) SplitByIndex(index int) (LineString, LineString) {
-	line1 := line[:index+1]
+	if index < 0 || index >= line.GetPointCount() {
+		return nil, nil
+	}
+	//限制容量,避免向第一条线追加点时覆盖第二条线
+	line1 := line[: index+1 : index+1]
 	line2 := line[index:]
 	return line1, line2
 }
-- 
2.43.0


From 0106ee7241b495ef84a08bcf4ae59722ad91f74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:11 +0000
Subject: [PATCH 06/34] fix: EuclideanDisZ measures the distance between both
 points

---
 pointZ.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointZ.go b/pointZ.go
index 46ff89b..8884a55 100644
--- a/pointZ.go
+++ b/pointZ.go
@@ -27,7 +27,7 @@ func (p *PointZ) SetZ(z float64) {
 }
 
 func EuclideanDisZ(p1, p2 PointZ) float64 {
-	return math.Sqrt(p1.X*p1.X + p1.Y*p1.Y + p1.Z*p1.Z)
+	return math.Sqrt((p1.X-p2.X)*(p1.X-p2.X) + (p1.Y-p2.Y)*(p1.Y-p2.Y) + (p1.Z-p2.Z)*(p1.Z-p2.Z))
 }
 
 //判断元素是否相等
-- 
2.43.0


From 2b913b937ee99f9799df595b623db1f32b455717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:12 +0000
Subject: [PATCH 07/34] fix: SelfIntersect examines the closing edge

---
 polygon.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polygon.go b/polygon.go
index 273e699..388a4fe 100644
--- a/polygon.go
+++ b/polygon.go
@@ -85,7 +85,7 @@ func (poly Polygon) SelfIntersect() bool {
 	for i := 0; i < pointCount-1; i++ {
 		srcV0 := exRing[i]
 		srcV1 := exRing[(i+1)%pointCount]
-		for j := i + 1; j < pointCount-2; j++ {
+		for j := i + 1; j < pointCount-1; j++ {
 			dstV0 := exRing[j]
 			dstV1 := exRing[j+1]
 			relation := SegmentRelation(LineSegment{srcV0, srcV1}, LineSegment{dstV0, dstV1})
-- 
2.43.0


From c91f60707563335d6366e6943723d4b20da80620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:13 +0000
Subject: [PATCH 08/34] fix: segment and ring relations to a polygon examine
 the closing edge

---
 relation.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/relation.go b/relation.go
index 8a1f446..9481fdd 100644
--- a/relation.go
+++ b/relation.go
@@ -30,7 +30,7 @@ func SegPolyRelation(seg LineSegment, poly Polygon) GeometryRealation {
 	lr := poly.GetExteriorRing()
 	pointCount := lr.GetPointCount()
 	isPointOnBoundary := false
-	for i := 0; i < pointCount-2; i++ {
+	for i := 0; i < pointCount-1; i++ {
 		pntStart := lr[i]
 		pntEnd := lr[i+1]
 		relation := SegmentRelation(LineSegment{pntStart, pntEnd}, seg)
@@ -76,7 +76,7 @@ func LinearPolyRelation(line LinearRing, poly Polygon) GeometryRealation {
 	//对环进行打断，去掉最后一个点
 	pointCount := line.GetPointCount()
 	curRelation := RELA_UNKNOWN
-	for i := 0; i < pointCount-2; i++ {
+	for i := 0; i < pointCount-1; i++ {
 		Start := line[i]
 		End := line[i+1]
 		relation := SegPolyRelation(LineSegment{Start, End}, poly)
-- 
2.43.0


From ddea8acb9bc0ba76221b4b28c9cfde63dc81924d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:13 +0000
Subject: [PATCH 09/34] fix: bounding boxes of coordinates beyond 2^31 are
 exact

---
 box.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/box.go b/box.go
index 1ba1f53..258ca9b 100644
--- a/box.go
+++ b/box.go
@@ -47,7 +47,7 @@ func BoxToGeo(b Box) Geometry {
 }
 
 func calBox(points ...Point) *Box {
-	var minX, minY, maxX, maxY float64 = INF, INF, -INF, -INF
+	var minX, minY, maxX, maxY float64 = math.Inf(1), math.Inf(1), math.Inf(-1), math.Inf(-1)
 	for _, v := range points {
 		if minX > v.X {
 			minX = v.X
-- 
2.43.0


From d28cf732999845aa349ec20feb693e672d27a291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:14 +0000
Subject: [PATCH 10/34] fix: PointToSegmentDistance handles a segment that is a
 single point

---
 calcaulation.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/calcaulation.go b/calcaulation.go
index 1fc39e7..c533f4b 100644
--- a/calcaulation.go
+++ b/calcaulation.go
@@ -128,6 +128,10 @@ func EuclideanDistance(p1 Point, p2 Point) float64 {
 func PointToSegmentDistance(point, p1, p2 Point, srid SRID) (float64, Point) {
 	var xDelta float64 = p2.X - p1.X
 	var yDelta float64 = p2.Y - p1.Y
+	//线段退化为点
+	if xDelta*xDelta+yDelta*yDelta == 0 {
+		return PointDistance(point, p1, srid), p1
+	}
 
 	var u float64 = ((point.X-p1.X)*xDelta + (point.Y-p1.Y)*yDelta) / (xDelta*xDelta + yDelta*yDelta)
 
-- 
2.43.0


From 757ae21b18a22fa5715982f3dc72adc26ff3d8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:15 +0000
Subject: [PATCH 11/34] fix: closing a ring does not write into the spare
 capacity of the line

---
 linearRing.go  | 2 +-
 linearRingZ.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/linearRing.go b/linearRing.go
index 6751f00..4894e52 100644
--- a/linearRing.go
+++ b/linearRing.go
@@ -22,7 +22,7 @@ func NewRingFromLine(line LineString) *LinearRing {
 		linearRing := LinearRing(line)
 		return &linearRing
 	} else {
-		line = append(line, firstPoint)
+		line = append(line[:len(line):len(line)], firstPoint)
 		linearRing := LinearRing(line)
 		return &linearRing
 	}
diff --git a/linearRingZ.go b/linearRingZ.go
index f1575f0..74495f4 100644
--- a/linearRingZ.go
+++ b/linearRingZ.go
@@ -18,7 +18,7 @@ func NewRingFromLineZ(line LineStringZ) *LinearRingZ {
 		LinearRingZ := LinearRingZ(line)
 		return &LinearRingZ
 	} else {
-		line = append(line, firstPoint)
+		line = append(line[:len(line):len(line)], firstPoint)
 		LinearRingZ := LinearRingZ(line)
 		return &LinearRingZ
 	}
-- 
2.43.0


From d99e6505a85348269f8f0c32a044ded72b0d8cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:16 +0000
Subject: [PATCH 12/34] fix: NewPolygonFromPois with fewer than two points
 yields an empty polygon

---
 polygon.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/polygon.go b/polygon.go
index 388a4fe..e5e9a6a 100644
--- a/polygon.go
+++ b/polygon.go
@@ -15,6 +15,9 @@ func NewPolygon(lrs ...LinearRing) *Polygon {
 
 func NewPolygonFromPois(pts ...Point) *Polygon {
 	ring := NewLinearRing(pts...)
+	if ring == nil {
+		return NewPolygon()
+	}
 	return NewPolygon(*ring)
 }
 
-- 
2.43.0


From 43c587ae7fd3df0c90e2c7b0fa63171c41b934d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:17 +0000
Subject: [PATCH 13/34] fix: DouglasPeuckerSimplify leaves the line of the
 caller alone

---
 simplify.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simplify.go b/simplify.go
index 95a300a..edb4445 100644
--- a/simplify.go
+++ b/simplify.go
@@ -6,6 +6,7 @@ import (
 
 //道格拉斯-匹克算法对线简化，参数：简化阈值 参考网站：https://blog.csdn.net/deram_boy/article/details/39177015
 func DouglasPeuckerSimplify(line LineString, threshold float64, srid SRID) LineString {
+	line = append(LineString(nil), line...)
 	///获取需要删除的点的序号
 	delIndexs := dpWorker(line, threshold, srid)
 	//排序，从后往前删
-- 
2.43.0


From aca3dd5d49217799dd377d3eefa6d77c9dfc0e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:18 +0000
Subject: [PATCH 14/34] fix: S2RegionCoverer leaves the polygon of the caller
 alone

---
 googleS2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/googleS2.go b/googleS2.go
index 25499ff..a5f50dd 100644
--- a/googleS2.go
+++ b/googleS2.go
@@ -50,7 +50,7 @@ func S2GetAllNeighbors(cellID uint64, srid SRID) []uint64 {
 
 func S2RegionCoverer(poly Polygon, level int, srid SRID) []uint64 {
 	if poly.IsCCW() {
-		pois := poly.GetExteriorRing().GetPointSet()
+		pois := append([]Point(nil), poly.GetExteriorRing().GetPointSet()...)
 		for i, j := 0, len(pois)-1; i < j; i, j = i+1, j-1 {
 			pois[i], pois[j] = pois[j], pois[i]
 		}
-- 
2.43.0


From 3f5447fd3dc6be0aaa4ba33f290dd21cc04b3fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:47 +0000
Subject: [PATCH 15/34] fix: latitude 84 belongs to UTM band X

---
 utm.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/utm.go b/utm.go
index 30233e8..72d717b 100755
--- a/utm.go
+++ b/utm.go
@@ -46,7 +46,6 @@ func rad(d float64) float64 { return d * x }
 func deg(r float64) float64 { return r / x }
 
 var zoneLetters = []zoneLetter{
-	{84, " "},
 	{72, "X"},
 	{64, "W"},
 	{56, "V"},
-- 
2.43.0


From f820c674b39a8cf787649abd8f672a3d87d4ce01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:48 +0000
Subject: [PATCH 16/34] fix: longitude 180 belongs to UTM zone 60

---
 utm.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utm.go b/utm.go
index 72d717b..cafe881 100755
--- a/utm.go
+++ b/utm.go
@@ -265,6 +265,10 @@ func latLonToZoneNumber(latitude float64, longitude float64) int {
 		}
 	}
 
+	if longitude >= 180 {
+		return 60
+	}
+
 	return int((longitude+180)/6) + 1
 }
 
-- 
2.43.0


From 7285c232db9b0314f910deeac18bc5af35dba063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:48 +0000
Subject: [PATCH 17/34] fix: UTM zone exceptions exclude their upper bounds
 like the standard grid

---
 utm.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/utm.go b/utm.go
index cafe881..737816b 100755
--- a/utm.go
+++ b/utm.go
@@ -249,18 +249,18 @@ func latitudeToZoneLetter(latitude float64) string {
 }
 
 func latLonToZoneNumber(latitude float64, longitude float64) int {
-	if 56 <= latitude && latitude <= 64 && 3 <= longitude && longitude <= 12 {
+	if 56 <= latitude && latitude < 64 && 3 <= longitude && longitude < 12 {
 		return 32
 	}
 
 	if 72 <= latitude && latitude <= 84 && longitude >= 0 {
-		if longitude <= 9 {
+		if longitude < 9 {
 			return 31
-		} else if longitude <= 21 {
+		} else if longitude < 21 {
 			return 33
-		} else if longitude <= 33 {
+		} else if longitude < 33 {
 			return 35
-		} else if longitude <= 42 {
+		} else if longitude < 42 {
 			return 37
 		}
 	}
-- 
2.43.0


From 1a2e689142b410080816aebe3054a2ccf5b7924f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:49 +0000
Subject: [PATCH 18/34] fix: bulk-loaded R-tree leaves do not share spare
 capacity

---
 rtree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtree.go b/rtree.go
index 0282fce..5f43a92 100644
--- a/rtree.go
+++ b/rtree.go
@@ -117,7 +117,7 @@ func walkPartitions(k int, objs []entry, iter func(parts []entry)) {
 	n := (len(objs) + k - 1) / k // ceil(len(objs) / k)
 
 	for i := 1; i < n; i++ {
-		iter(objs[(i-1)*k : i*k])
+		iter(objs[(i-1)*k : i*k : i*k])
 	}
 	iter(objs[(n-1)*k:])
 }
-- 
2.43.0


From face88e1d002d5427a840e160a8f57a90cda573e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:50 +0000
Subject: [PATCH 19/34] fix: Rtree.Delete works for geometries that are slices

---
 rtree.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rtree.go b/rtree.go
index 5f43a92..11598bb 100644
--- a/rtree.go
+++ b/rtree.go
@@ -3,6 +3,7 @@ package geo
 import (
 	"fmt"
 	"math"
+	"reflect"
 	"sort"
 	"time"
 )
@@ -530,7 +531,7 @@ func (tree *Rtree) Delete(obj Spatial) bool {
 		if len(object) != 2 {
 			return false
 		}
-		return object[0] == object[1]
+		return reflect.DeepEqual(object[0], object[1])
 	}
 	return tree.DeleteWithComparator(obj, condition)
 }
-- 
2.43.0


From 666b510fde85dbbc94aa65f466a3b5ecb765f8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:51 +0000
Subject: [PATCH 20/34] fix: DeleteBySpatialID deletes every object with the id

---
 rtree.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rtree.go b/rtree.go
index 11598bb..8e292a7 100644
--- a/rtree.go
+++ b/rtree.go
@@ -547,8 +547,9 @@ func (tree *Rtree) DeleteBySpatialID(id string) bool {
 	if len(sps) == 0 {
 		return false
 	}
-	for _, sp := range sps {
-		tree.DeleteWithComparator(sp, condition)
+	//删除的可能是同ID的另一个对象,需重新查询直到删完
+	for len(sps) > 0 && tree.DeleteWithComparator(sps[0], condition) {
+		sps = tree.SearchBySpatialID(id)
 	}
 	return true
 }
-- 
2.43.0


From ad619d3b7388eb7ac7aeb3882387b2fba344e324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:51 +0000
Subject: [PATCH 21/34] fix: R-tree insert survives box sizes that overflow

---
 rtree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtree.go b/rtree.go
index 8e292a7..138a6ca 100644
--- a/rtree.go
+++ b/rtree.go
@@ -315,7 +315,7 @@ func (tree *Rtree) chooseNode(n *node, e entry, level int) *node {
 
 	// find the entry whose bb needs least enlargement to include obj
 	diff := math.MaxFloat64
-	var chosen entry
+	chosen := n.entries[0]
 	for _, en := range n.entries {
 		bb := en.bb.Union(e.bb)
 		d := bb.Size() - en.bb.Size()
-- 
2.43.0


From 096f1362dee722206bc7ce9703c87f5c419a00df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:52 +0000
Subject: [PATCH 22/34] fix: R-tree keeps a usable root when deletions empty it

---
 rtree.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/rtree.go b/rtree.go
index 138a6ca..da51f97 100644
--- a/rtree.go
+++ b/rtree.go
@@ -601,7 +601,7 @@ func (tree *Rtree) DeleteWithComparator(obj Spatial, cond Condition) bool {
 	tree.condenseTree(n)
 	tree.size--
 
-	if !tree.root.leaf && len(tree.root.entries) == 1 {
+	for !tree.root.leaf && len(tree.root.entries) == 1 {
 		tree.root = tree.root.entries[0].child
 	}
 
@@ -662,6 +662,16 @@ func (tree *Rtree) condenseTree(n *node) {
 		n = n.parent
 	}
 
+	// the root lost its last child, start over from what is left
+	if !tree.root.leaf && len(tree.root.entries) == 0 {
+		tree.root = &node{entries: []entry{}, leaf: true, level: 1}
+		if l := len(deleted); l > 0 {
+			tree.root = deleted[l-1]
+			deleted = deleted[:l-1]
+		}
+		tree.height = tree.root.level
+	}
+
 	for _, n := range deleted {
 		// reinsert entry so that it will remain at the same level as before
 		e := entry{n.computeBoundingBox(), n, Spatial{}}
-- 
2.43.0


From 3a9b2e3ce8f9f41082989445b2085c2aeca7d97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:53 +0000
Subject: [PATCH 23/34] fix: NearestNeighbors accepts any number of neighbours,
 also none

---
 rtree.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rtree.go b/rtree.go
index da51f97..9d2f953 100644
--- a/rtree.go
+++ b/rtree.go
@@ -800,6 +800,12 @@ func (p *Point) minDist(r *Box) float64 {
 
 // NearestNeighbors gets the closest Spatials to the Point.
 func (tree *Rtree) NearestNeighbors(k int, p Point) []Spatial {
+	if k > tree.size {
+		k = tree.size
+	}
+	if k <= 0 {
+		return []Spatial{}
+	}
 	maxBufSize := tree.MaxChildren * tree.Depth()
 	branches := make([]entry, maxBufSize)
 	branchDists := make([]float64, maxBufSize)
-- 
2.43.0


From 8295586db749de215f16a139e5537639968cbd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:53 +0000
Subject: [PATCH 24/34] fix: MarshalGeo encodes 3D polygons

---
 geojson/geojson.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geojson/geojson.go b/geojson/geojson.go
index 9005eb7..ef60a8a 100644
--- a/geojson/geojson.go
+++ b/geojson/geojson.go
@@ -75,7 +75,7 @@ func MarshalGeo(geom geo.Geometry) ([]byte, error) {
 		}
 	case geo.PolygonZ:
 		geoj.Type = "Polygon"
-		geoj.Coordinates, err = ConvertPathSet(geom)
+		geoj.Coordinates, err = ConvertPathZSet(geom)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 90a895cf4cbd54140e3595710b1c1d6e9a33293e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:54 +0000
Subject: [PATCH 25/34] fix: Feature.SetBoundingBox stores the box in the
 feature

---
 geojson/feature.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geojson/feature.go b/geojson/feature.go
index faac598..b8be919 100644
--- a/geojson/feature.go
+++ b/geojson/feature.go
@@ -29,7 +29,7 @@ func NewFeature(geometry geo.Geometry) *Feature {
 	}
 }
 
-func (f Feature) SetBoundingBox() {
+func (f *Feature) SetBoundingBox() {
 	box := geo.BoundingBox(f.Geometry)
 	f.BoundingBox = []float64{box.MinX, box.MinY, box.MaxX, box.MaxY}
 }
-- 
2.43.0


From b544f53668b7da651dd60ac0000521fb252650c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:15 +0000
Subject: [PATCH 26/34] fix: ConvexHull leaves the points of the caller in
 place

---
 convexhull.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/convexhull.go b/convexhull.go
index 7ef65da..799a191 100644
--- a/convexhull.go
+++ b/convexhull.go
@@ -50,7 +50,7 @@ func ConvexHull(pts ...Point) Polygon {
 	if len(pts) < 3 {
 		return nil
 	}
-	points := hullPts(pts)
+	points := append(hullPts(nil), pts...)
 	var stack hullPts
 	points.FindLowestPoint()
 	sort.Sort(&points)
-- 
2.43.0


From 089350c99647f14f161bf15dddcde07b2773cde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:15 +0000
Subject: [PATCH 27/34] fix: ConvexHull sorts around a fixed lowest point

---
 convexhull.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/convexhull.go b/convexhull.go
index 799a191..fe1a85d 100644
--- a/convexhull.go
+++ b/convexhull.go
@@ -53,7 +53,11 @@ func ConvexHull(pts ...Point) Polygon {
 	points := append(hullPts(nil), pts...)
 	var stack hullPts
 	points.FindLowestPoint()
-	sort.Sort(&points)
+	//排序过程中基准点不能移动
+	rest := points[1:]
+	sort.Slice(rest, func(i, j int) bool {
+		return hullPts{points[0], rest[i], rest[j]}.Less(1, 2)
+	})
 	stack = append(stack, points[0])
 	stack = append(stack, points[1])
 	i := 2
-- 
2.43.0


From 5597df9b02f68e31f996dbea1eaf249534f19498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:40 +0000
Subject: [PATCH 28/34] fix: ConvexHull is not confused by repeated points

---
 convexhull.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/convexhull.go b/convexhull.go
index fe1a85d..e5c90c0 100644
--- a/convexhull.go
+++ b/convexhull.go
@@ -66,6 +66,11 @@ func ConvexHull(pts ...Point) Polygon {
 
 		p1 := stack[len(stack)-2]
 		p2 := stack[len(stack)-1]
+		//重复点会掩盖右转
+		if pi == p2 {
+			i++
+			continue
+		}
 
 		if isLeft(p1, p2, pi) {
 			stack = append(stack, pi)
-- 
2.43.0


From 2354a7742081d398e8837850c8759d2cb6ef810d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:14 +0000
Subject: [PATCH 29/34] fix: WKT decoding reads every member and dimension and
 rejects malformed text

---
 wkt/decode.go | 91 ++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 65 insertions(+), 26 deletions(-)

diff --git a/wkt/decode.go b/wkt/decode.go
index 4b0ad79..76c421a 100644
--- a/wkt/decode.go
+++ b/wkt/decode.go
@@ -9,8 +9,28 @@ import (
 	"github.com/hzw456/go-geo"
 )
 
+// 各层级的语法,坐标为2或3个数字
+const (
+	posPattern     = `\s*[^\s(),]+(?:\s+[^\s(),]+){1,2}\s*`
+	pathPattern    = `[(]` + posPattern + `(?:,` + posPattern + `)*[)]`
+	polygonPattern = `[(]\s*` + pathPattern + `(?:\s*,\s*` + pathPattern + `)*\s*[)]`
+)
+
+var (
+	pathRegexp    = regexp.MustCompile(pathPattern)
+	polygonRegexp = regexp.MustCompile(polygonPattern)
+	wktRegexp     = regexp.MustCompile(`^\s*(?:(POINT)\s*[(](` + posPattern + `)[)]` +
+		`|(LINESTRING|MULTIPOINT)\s*(` + pathPattern + `)` +
+		`|(MULTIPOINT)\s*([(]\s*[(]` + posPattern + `[)](?:\s*,\s*[(]` + posPattern + `[)])*\s*[)])` +
+		`|(POLYGON|MULTILINESTRING)\s*(` + polygonPattern + `)` +
+		`|(MULTIPOLYGON)\s*([(]\s*` + polygonPattern + `(?:\s*,\s*` + polygonPattern + `)*\s*[)]))\s*$`)
+)
+
 func PointFromWKT(wkt string) (geo.Geometry, error) {
-	strs := strings.Split(strings.Trim(wkt, " "), " ")
+	strs := strings.Fields(wkt)
+	if len(strs) != 2 && len(strs) != 3 {
+		return geo.Point{}, errors.New("point needs 2 or 3 coordinates")
+	}
 	x, err := strconv.ParseFloat(strs[0], 64)
 	if err != nil {
 		return geo.Point{}, err
@@ -37,7 +57,10 @@ func MultiPointFromWKT(wkt string) (geo.Geometry, error) {
 	var mp geo.MultiPoint
 	var mpz geo.MultiPointZ
 	for _, term := range terms {
-		strs := strings.Split(strings.TrimRight(strings.TrimLeft(term, "("), ")"), " ")
+		strs := strings.Fields(strings.Trim(term, " ()"))
+		if len(strs) != 2 && len(strs) != 3 {
+			return nil, errors.New("point needs 2 or 3 coordinates")
+		}
 		x, err := strconv.ParseFloat(strs[0], 64)
 		if err != nil {
 			return nil, err
@@ -56,7 +79,9 @@ func MultiPointFromWKT(wkt string) (geo.Geometry, error) {
 			mp.Append(geo.Point{x, y})
 		}
 	}
-	if len(mp) != 0 {
+	if len(mp) != 0 && len(mpz) != 0 {
+		return nil, errors.New("multiPoint mixes 2d and 3d points")
+	} else if len(mp) != 0 {
 		return mp, nil
 	} else if len(mpz) != 0 {
 		return mpz, nil
@@ -66,13 +91,17 @@ func MultiPointFromWKT(wkt string) (geo.Geometry, error) {
 }
 
 func LineStringFromWKT(wkt string) (geo.Geometry, error) {
+	wkt = strings.TrimSpace(wkt)
 	wkt = strings.TrimLeft(wkt, "(")
 	wkt = strings.TrimRight(wkt, ")")
 	terms := strings.Split(wkt, ",")
 	var linestring geo.LineString
 	var linestringZ geo.LineStringZ
 	for _, term := range terms {
-		strs := strings.Split(strings.Trim(term, " "), " ")
+		strs := strings.Fields(term)
+		if len(strs) != 2 && len(strs) != 3 {
+			return nil, errors.New("point needs 2 or 3 coordinates")
+		}
 		x, err := strconv.ParseFloat(strs[0], 64)
 		if err != nil {
 			return nil, err
@@ -91,7 +120,9 @@ func LineStringFromWKT(wkt string) (geo.Geometry, error) {
 			linestring.Append(geo.Point{x, y})
 		}
 	}
-	if len(linestring) > 0 {
+	if len(linestring) > 0 && len(linestringZ) > 0 {
+		return nil, errors.New("linestring mixes 2d and 3d points")
+	} else if len(linestring) > 0 {
 		return linestring, nil
 	} else if len(linestringZ) > 0 {
 		return linestringZ, nil
@@ -102,8 +133,7 @@ func LineStringFromWKT(wkt string) (geo.Geometry, error) {
 }
 
 func MultiLineStringFromWKT(wkt string) (geo.Geometry, error) {
-	re := regexp.MustCompile(`(\ *[(]\ *(?:\ *(?:[0-9-.Ee]+[ ]+[0-9-.Ee]+)[, ]*\ *)*\ *[)])[, ]*`)
-	matches := re.FindStringSubmatch(wkt)
+	matches := pathRegexp.FindAllString(wkt, -1)
 	var ml geo.MultiLineString
 	var mlz geo.MultiLineStringZ
 	for _, v := range matches {
@@ -119,7 +149,9 @@ func MultiLineStringFromWKT(wkt string) (geo.Geometry, error) {
 			mlz = append(mlz, lineZ)
 		}
 	}
-	if len(ml) > 0 {
+	if len(ml) > 0 && len(mlz) > 0 {
+		return nil, errors.New("multilineString mixes 2d and 3d lines")
+	} else if len(ml) > 0 {
 		return ml, nil
 	} else if len(mlz) > 0 {
 		return mlz, nil
@@ -129,8 +161,7 @@ func MultiLineStringFromWKT(wkt string) (geo.Geometry, error) {
 }
 
 func PolygonFromWKT(wkt string) (geo.Geometry, error) {
-	re := regexp.MustCompile(`(\ *[(]\ *(?:\ *(?:[0-9-.Ee]+[ ]+[0-9-.Ee]+)[, ]*\ *)*\ *[)])[, ]*`)
-	matches := re.FindStringSubmatch(wkt)
+	matches := pathRegexp.FindAllString(wkt, -1)
 	var poly geo.Polygon
 	var polyz geo.PolygonZ
 	for _, v := range matches {
@@ -140,13 +171,18 @@ func PolygonFromWKT(wkt string) (geo.Geometry, error) {
 		}
 		if linestring.Type() == geo.GEOMETRY_LINESTRING {
 			line := linestring.(geo.LineString)
+			if len(line) < 2 {
+				return nil, errors.New("ring needs at least 2 points")
+			}
 			poly = append(poly, line.ToRing())
 		} else if linestring.Type() == geo.GEOMETRY_LINESTRINGZ {
 			line := linestring.(geo.LineStringZ)
 			polyz = append(polyz, line.ToRing())
 		}
 	}
-	if len(poly) > 0 {
+	if len(poly) > 0 && len(polyz) > 0 {
+		return nil, errors.New("polygon mixes 2d and 3d rings")
+	} else if len(poly) > 0 {
 		return poly, nil
 	} else if len(polyz) > 0 {
 		return polyz, nil
@@ -156,8 +192,7 @@ func PolygonFromWKT(wkt string) (geo.Geometry, error) {
 }
 
 func MultiPolygonFromWKT(wkt string) (geo.Geometry, error) {
-	re := regexp.MustCompile(`([(](?:\ *[(]\ *(?:\ *(?:[0-9-.]+[ ]+[0-9-.]+)[, ]*\ *)*\ *[)][, ]*)*[)])`)
-	matches := re.FindStringSubmatch(wkt)
+	matches := polygonRegexp.FindAllString(wkt, -1)
 	var multiPoly geo.MultiPolygon
 	var multiPolyZ geo.MultiPolygonZ
 	for _, v := range matches {
@@ -174,7 +209,9 @@ func MultiPolygonFromWKT(wkt string) (geo.Geometry, error) {
 		}
 
 	}
-	if len(multiPoly) > 0 {
+	if len(multiPoly) > 0 && len(multiPolyZ) > 0 {
+		return nil, errors.New("multipolygon mixes 2d and 3d polygons")
+	} else if len(multiPoly) > 0 {
 		return multiPoly, nil
 	} else if len(multiPolyZ) > 0 {
 		return multiPolyZ, nil
@@ -184,26 +221,28 @@ func MultiPolygonFromWKT(wkt string) (geo.Geometry, error) {
 }
 
 func Decode(wkt string) (geo.Geometry, error) {
-	wkt = strings.Trim(wkt, " ")
-	wkt = strings.Replace(wkt, ", ", ",", -1)
-	re := regexp.MustCompile(`([A-Z]+)\s*[(]\s*(\(*.+\)*)\s*[)]`)
-	match := re.FindStringSubmatch(wkt)
-	if len(match) != 3 {
+	match := wktRegexp.FindStringSubmatch(wkt)
+	if match == nil {
 		return nil, errors.New("wkt format is error")
 	}
-	switch match[1] {
+	// 只有一个分支匹配
+	keyword, text := "", ""
+	for i := 1; i < len(match); i += 2 {
+		keyword, text = keyword+match[i], text+match[i+1]
+	}
+	switch keyword {
 	case "MULTIPOLYGON":
-		return MultiPolygonFromWKT(match[2])
+		return MultiPolygonFromWKT(text)
 	case "POLYGON":
-		return PolygonFromWKT(match[2])
+		return PolygonFromWKT(text)
 	case "MULTILINESTRING":
-		return MultiLineStringFromWKT(match[2])
+		return MultiLineStringFromWKT(text)
 	case "LINESTRING":
-		return LineStringFromWKT(match[2])
+		return LineStringFromWKT(text)
 	case "MULTIPOINT":
-		return MultiPointFromWKT(match[2])
+		return MultiPointFromWKT(text)
 	case "POINT":
-		return PointFromWKT(match[2])
+		return PointFromWKT(text)
 	}
 	return nil, errors.New("wkt format is error")
 }
-- 
2.43.0


From a720a2b7f6b3fa50e41a03e54d03e83f3ec376f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:36 +0000
Subject: [PATCH 30/34] fix: haversine distance of antipodal points is not NaN

---
 point.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/point.go b/point.go
index 2c0e1e2..add40ed 100644
--- a/point.go
+++ b/point.go
@@ -47,7 +47,7 @@ func CoordDistance(p1, p2 Point) float64 {
 	lat2 := p2.Y * math.Pi / 180.0
 	lng2 := p2.X * math.Pi / 180.0
 	a := math.Pow(math.Sin((lat2-lat1)/2), 2) + math.Cos(lat1)*math.Cos(lat2)*math.Pow(math.Sin((lng2-lng1)/2), 2)
-	return 2 * math.Atan2(math.Sqrt(a), math.Sqrt(1-a)) * EARTHRADIUSMI
+	return 2 * math.Atan2(math.Sqrt(a), math.Sqrt(math.Max(0, 1-a))) * EARTHRADIUSMI
 }
 
 func CoordGreateCircle(p1, p2 Point) float64 {
-- 
2.43.0


From a0b1b74b929d96fab7af30907c9486f17ef9972a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:40 +0000
Subject: [PATCH 31/34] fix: encode empty geometries as empty coordinate arrays

---
 geojson/geojson.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/geojson/geojson.go b/geojson/geojson.go
index ef60a8a..5214594 100644
--- a/geojson/geojson.go
+++ b/geojson/geojson.go
@@ -150,7 +150,7 @@ func ConvertPoiSet(g geo.Geometry) ([][]float64, error) {
 	default:
 		return nil, errors.New("could not parsing geometry besides linesting and multipoint")
 	}
-	var interface2D [][]float64
+	interface2D := [][]float64{}
 	for _, pt := range pts {
 		res, err := ConvertPoi(pt)
 		if err != nil {
@@ -172,7 +172,7 @@ func ConvertPoiZSet(g geo.Geometry) ([][]float64, error) {
 	default:
 		return nil, errors.New("could not parsing geometry besides linesting and multipoint")
 	}
-	var interface2D [][]float64
+	interface2D := [][]float64{}
 	for _, pt := range pts {
 		res, err := ConvertPoiZ(pt)
 		if err != nil {
@@ -198,7 +198,7 @@ func ConvertPathSet(g geo.Geometry) ([][][]float64, error) {
 	default:
 		return nil, errors.New("could not parsing geometry besides multilinestring and polygon")
 	}
-	var interface3D [][][]float64
+	interface3D := [][][]float64{}
 	for _, line := range lines {
 		res, err := ConvertPoiSet(line)
 		if err != nil {
@@ -224,7 +224,7 @@ func ConvertPathZSet(g geo.Geometry) ([][][]float64, error) {
 	default:
 		return nil, errors.New("could not parsing geometry besides multilinestring and polygon")
 	}
-	var interface3D [][][]float64
+	interface3D := [][][]float64{}
 	for _, line := range lines {
 		res, err := ConvertPoiZSet(line)
 		if err != nil {
@@ -246,7 +246,7 @@ func ConvertPolygonSet(g geo.Geometry) ([][][][]float64, error) {
 	default:
 		return nil, errors.New("could not parsing geometry besides multipolygon")
 	}
-	var interface4D [][][][]float64
+	interface4D := [][][][]float64{}
 	for _, poly := range polys {
 		res, err := ConvertPathSet(poly)
 		if err != nil {
@@ -268,7 +268,7 @@ func ConvertPolygonZSet(g geo.Geometry) ([][][][]float64, error) {
 	default:
 		return nil, errors.New("could not parsing geometry besides multipolygon")
 	}
-	var interface4D [][][][]float64
+	interface4D := [][][][]float64{}
 	for _, poly := range polys {
 		res, err := ConvertPathZSet(poly)
 		if err != nil {
-- 
2.43.0


From 79f3f15546747b64c777cd609c07d3bed179e278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:32 +0000
Subject: [PATCH 32/34] fix: longitudes just west of a UTM zone border stay in
 their zone

---
 utm.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/utm.go b/utm.go
index 737816b..04b2285 100755
--- a/utm.go
+++ b/utm.go
@@ -269,7 +269,12 @@ func latLonToZoneNumber(latitude float64, longitude float64) int {
 		return 60
 	}
 
-	return int((longitude+180)/6) + 1
+	zoneNumber := int((longitude+180)/6) + 1
+	//加180时的舍入可能越过带的西边界
+	if longitude < float64(zoneNumberToCentralLongitude(zoneNumber)-3) {
+		zoneNumber--
+	}
+	return zoneNumber
 }
 
 func zoneNumberToCentralLongitude(zoneNumber int) int {
-- 
2.43.0


From f327f42bb84ca0c3178de3b4689a3431af15bba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:15 +0000
Subject: [PATCH 33/34] fix: inverse UTM series uses the second eccentricity
 and scales its last term

---
 utm.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utm.go b/utm.go
index 04b2285..93385aa 100755
--- a/utm.go
+++ b/utm.go
@@ -142,7 +142,7 @@ func ToLatLon(easting, northing float64, zoneNumber int, zoneLetter string, nort
 	n := r / epSinSqrt
 	rad := (1 - e) / epSin
 
-	c := fe * pCos * pCos
+	c := eP2 * pCos * pCos
 	c2 := c * c
 
 	d := x / (n * k0)
@@ -154,8 +154,8 @@ func ToLatLon(easting, northing float64, zoneNumber int, zoneLetter string, nort
 
 	latitude = pRad - (pTan/rad)*
 		(d2/2-
-			d4/24*(5+3*pTan2+10*c-4*c2-9*eP2)) +
-		d6/720*(61+90*pTan2+298*c+45*pTan4-252*eP2-3*c2)
+			d4/24*(5+3*pTan2+10*c-4*c2-9*eP2)+
+			d6/720*(61+90*pTan2+298*c+45*pTan4-252*eP2-3*c2))
 
 	longitude = (d -
 		d3/6*(1+2*pTan2+c) +
-- 
2.43.0


From 5c261ccad444761690e96e4923f45c43b2f20788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:46 +0000
Subject: [PATCH 34/34] fix: rotating nil or a pointer to a geometry yields nil
 instead of panicking

---
 calcaulation.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/calcaulation.go b/calcaulation.go
index c533f4b..97ef6f8 100644
--- a/calcaulation.go
+++ b/calcaulation.go
@@ -257,15 +257,15 @@ func PointHitLineString(p Point, line LineString, srid SRID) (Point, int, float6
 }
 
 func RotateCW(geo Geometry, center Point, angle float64) Geometry {
-	switch geo.Type() {
-	case GEOMETRY_POINT:
-		pt := geo.(Point)
+	switch geo := geo.(type) {
+	case Point:
+		pt := geo
 		//顺时针旋转
 		x := (pt.X-center.X)*math.Cos(angle) + (pt.Y-center.Y)*math.Sin(angle) + center.X
 		y := (center.X-pt.X)*math.Sin(angle) + (pt.Y-center.Y)*math.Cos(angle) + center.Y
 		return Point{math.Trunc(x*10000) / 10000, math.Trunc(y*10000) / 10000}
-	case GEOMETRY_POLYGON:
-		poly := geo.(Polygon)
+	case Polygon:
+		poly := geo
 		var pts []Point
 		for _, v := range poly.GetExteriorRing().GetPointSet() {
 			geo1 := RotateCW(v, center, angle)
-- 
2.43.0

