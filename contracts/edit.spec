package geo

// ---- C04: editing lines ----
pure samepts(a []Point, b []Point) bool = len(a) == len(b) && forall k int :: {a[k]} 0 <= k < len(a) ==> a[k] === old(b[k])

func geo.(LineString).GetPointCount(line)(r)
ensures [C04] r == len(line)

func geo.(LineString).GetPoint(line, index)(r)
ensures [C04] "outside": index < 0 || index >= len(line) ==> r == nil
ensures [C04] "inside": 0 <= index && index < len(line) ==> r != nil && *r === line[index]

func geo.(LineString).GetFirstPoint(line)(r)
ensures [C04] "short line": len(line) < 2 ==> r == nil
ensures [C04] "first": len(line) >= 2 ==> r != nil && *r === line[0]

func geo.(LineString).GetEndPoint(line)(r)
ensures [C04] "short line": len(line) < 2 ==> r == nil
ensures [C04] "last": len(line) >= 2 ==> r != nil && *r === line[len(line)-1]

func geo.(LineStringZ).GetPointCount(line)(r)
ensures [C04] r == len(line)

func geo.(LineStringZ).GetFirstPoint(line)(r)
ensures [C04] "short line": len(line) < 2 ==> r === mk(PointZ, 0, 0, 0)
ensures [C04] "first": len(line) >= 2 ==> r === line[0]

func geo.(LineStringZ).GetEndPoint(line)(r)
ensures [C04] "short line": len(line) < 2 ==> r === mk(PointZ, 0, 0, 0)
ensures [C04] "last": len(line) >= 2 ==> r === line[len(line)-1]

func geo.(LineString).GetPointSet(line)(r)
ensures [C04] r === line

func geo.(LineStringZ).GetPointSet(line)(r)
ensures [C04] r === line

func geo.(*LineString).Append(line, point)(err)
requires line != nil
modifies *line, spare(*line)
ensures [C04] "appended": err == nil && len(*line) == old(len(*line)) + 1 && (*line)[old(len(*line))] === point
ensures [C04] "others kept": forall k int :: {(*line)[k]} 0 <= k < old(len(*line)) ==> (*line)[k] === old((*line)[k])

func geo.(*LineStringZ).Append(line, point)(err)
requires line != nil
modifies *line, spare(*line)
ensures [C04] "appended": err == nil && len(*line) == old(len(*line)) + 1 && (*line)[old(len(*line))] === point
ensures [C04] "others kept": forall k int :: {(*line)[k]} 0 <= k < old(len(*line)) ==> (*line)[k] === old((*line)[k])

func geo.(*LineString).SetPoint(line, position, point)(err)
requires line != nil
modifies *line, spare(*line), elems(*line)
ensures [C04] "outside": position < 0 || position > old(len(*line)) ==> err != nil && *line === old(*line) && forall k int :: {(*line)[k]} 0 <= k < len(*line) ==> (*line)[k] === old((*line)[k])
ensures [C04] "replaced": 0 <= position && position < old(len(*line)) ==> err == nil && len(*line) == old(len(*line)) && (*line)[position] === point
ensures [C04] "appended": position == old(len(*line)) ==> err == nil && len(*line) == old(len(*line)) + 1 && (*line)[position] === point
ensures [C04] "others kept": forall k int :: {(*line)[k]} 0 <= k < old(len(*line)) && k != position ==> (*line)[k] === old((*line)[k])

func geo.(*LineString).InsertPoint(line, position, point)(err)
requires line != nil
modifies *line, spare(*line), elems(*line)
ensures [C04] "outside": position < 0 || position > old(len(*line)) ==> err != nil && *line === old(*line) && forall k int :: {(*line)[k]} 0 <= k < len(*line) ==> (*line)[k] === old((*line)[k])
ensures [C04] "inserted": 0 <= position && position <= old(len(*line)) ==> err == nil && len(*line) == old(len(*line)) + 1 && (*line)[position] === point
ensures [C04] "before kept": 0 <= position && position <= old(len(*line)) ==> forall k int :: {(*line)[k]} 0 <= k < position ==> (*line)[k] === old((*line)[k])
ensures [C04] "after shifted": 0 <= position && position <= old(len(*line)) ==> forall k int :: {(*line)[k]} position < k < old(len(*line)) + 1 ==> (*line)[k] === old((*line)[k-1])

func geo.(*LineString).DelPoint(line, position)(err)
requires line != nil
modifies *line, elems(*line)
ensures [C04] "outside": position < 0 || position >= old(len(*line)) ==> err != nil && *line === old(*line) && forall k int :: {(*line)[k]} 0 <= k < len(*line) ==> (*line)[k] === old((*line)[k])
ensures [C04] "deleted": 0 <= position && position < old(len(*line)) ==> err == nil && len(*line) == old(len(*line)) - 1
ensures [C04] "before kept": 0 <= position && position < old(len(*line)) ==> forall k int :: {(*line)[k]} 0 <= k < position ==> (*line)[k] === old((*line)[k])
ensures [C04] "after shifted": 0 <= position && position < old(len(*line)) ==> forall k int :: {(*line)[k]} position <= k < old(len(*line)) - 1 ==> (*line)[k] === old((*line)[k+1])

func geo.(*LineString).Reverse(line)()
requires line != nil
modifies *line, elems(*line)
ensures [C04] "length": len(*line) == old(len(*line))
ensures [C04] "mirrored": forall k int :: {(*line)[k]} 0 <= k < len(*line) ==> (*line)[k] === old((*line)[len(*line)-1-k])
invariant len(*line) == old(len(*line))
invariant forall k int :: {(*line)[k]} 0 <= k < _i || len(*line) - _i <= k < len(*line) ==> (*line)[k] === old((*line)[len(*line)-1-k])
invariant forall k int :: {(*line)[k]} _i <= k < len(*line) - _i ==> (*line)[k] === old((*line)[k])

func geo.(*LineStringZ).Reverse(line)()
requires line != nil
modifies *line, elems(*line)
ensures [C04] "length": len(*line) == old(len(*line))
ensures [C04] "mirrored": forall k int :: {(*line)[k]} 0 <= k < len(*line) ==> (*line)[k] === old((*line)[len(*line)-1-k])
invariant len(*line) == old(len(*line))
invariant forall k int :: {(*line)[k]} 0 <= k < _i || len(*line) - _i <= k < len(*line) ==> (*line)[k] === old((*line)[len(*line)-1-k])
invariant forall k int :: {(*line)[k]} _i <= k < len(*line) - _i ==> (*line)[k] === old((*line)[k])

func geo.(LineString).SplitByIndex(line, index)(a, b)
ensures [C04] "outside": index < 0 || index >= len(line) ==> len(a) == 0 && len(b) == 0
ensures [C04] "first half": 0 <= index && index < len(line) ==> len(a) == index + 1 && forall k int :: {a[k]} 0 <= k < index + 1 ==> a[k] === line[k]
ensures [C04] "second half": 0 <= index && index < len(line) ==> len(b) == len(line) - index && forall k int :: {b[k]} 0 <= k < len(b) ==> b[k] === line[index+k]
