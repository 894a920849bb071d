package geo

// ---- C10: line simplification ----
pure taken(d array[int], o int, m int, x int) bool = exists u int :: {at(d, o, u)} {posn(u)} posn(u) && 0 <= u < m && at(d, o, u) == x
pure inlist(d []int, n int, x int) bool = taken(arr(d), off(d), n, x)
pure distinct(d []int) bool = forall j, k int :: {d[j], d[k]} 0 <= j < k < len(d) ==> d[j] != d[k]
// point i is not farther than the threshold from the segment between a and b
pure close(h array[Point], o int, a int, i int, b int, thr float, srid int) bool = !(ext("geo.PointToSegmentDistance#0", at(h, o, i), at(h, o, a), at(h, o, b), srid) > thr)
pure closegap(h array[Point], o int, a int, b int, thr float, srid int) bool = forall i int :: {posn(i)} posn(i) && a < i < b ==> close(h, o, a, i, b, thr, srid)
// always true: names pairs of positions
rec gap(a int, b int) bool = true
rec posn(i int) bool = true
// wherever the m positions d take out everything between two kept positions from e on, what they take out is close
pure gapsclose(d array[int], od int, m int, e int, h array[Point], o int, n int, thr float, srid int) bool = forall a, b int :: {gap(a, b)} gap(a, b) && posn(a) && posn(b) && e <= a < b < n && !taken(d, od, m, a) && !taken(d, od, m, b) && (forall i int :: {posn(i)} posn(i) && a < i < b ==> taken(d, od, m, i)) ==> closegap(h, o, a, b, thr, srid)
pure gapsok(d []int, e int, s []Point, thr float, srid int) bool = gapsclose(arr(d), off(d), len(d), e, arr(s), off(s), len(s), thr, srid)

func geo.dpWorker(line, threshold, srid)(r)
requires len(line) >= 2 && !(threshold < 0)
ensures fresh(r)
ensures [C10] "inner positions": forall k int :: {r[k]} 0 <= k < len(r) ==> 0 < r[k] < len(line)-1
ensures [C10] "no position twice": distinct(r)
ensures [C10] "within the threshold": gapsok(r, 0, line, threshold, srid)
local stack []int, delIndexs []int, start int, end int, maxDist float, maxIndex int
// the stack holds intervals, each starting where the one below ends
invariant @nest1 len(stack) % 2 == 0
invariant len(stack) > 0 ==> len(stack) >= 2
invariant forall k int :: {stack[k]} 0 <= k < len(stack) ==> 0 <= stack[k] < len(line)
invariant forall j, k int :: {stack[j], stack[k]} 0 <= j < k < len(stack) ==> stack[j] <= stack[k]
invariant forall j, k int :: {stack[j], stack[k]} 0 <= j && k == j+1 && k < len(stack) && k % 2 == 0 ==> stack[j] == stack[k]
invariant len(stack) > 0 ==> stack[0] == 0
invariant forall k int :: {delIndexs[k]} 0 <= k < len(delIndexs) ==> 0 < delIndexs[k] < len(line)-1
invariant distinct(delIndexs)
invariant ref(stack) != ref(delIndexs)
// everything from the end of the topmost interval on is settled
invariant @nest1 forall k int :: {delIndexs[k]} 0 <= k < len(delIndexs) ==> delIndexs[k] > (len(stack) == 0 ? 0 : stack[len(stack)-1])
invariant @nest1 gapsok(delIndexs, len(stack) == 0 ? 0 : stack[len(stack)-1], line, threshold, srid)
invariant @nest2 stack[len(stack)-2] == start && stack[len(stack)-1] == end && posn(end)
// looking for the farthest position
invariant @nest2 !isnan(maxDist) && maxDist >= 0
invariant @nest2 maxDist > 0 ==> start < maxIndex < end
invariant @nest2 forall j int :: {at(arr(line), off(line), j)} start < j < _i ==> close(arr(line), off(line), start, j, end, maxDist, srid)
// taking positions out
invariant @nest2 forall j int :: {posn(j)} posn(j) && start < j < _i ==> _i-j <= len(delIndexs) && delIndexs[len(delIndexs)-(_i-j)] == j
invariant @nest2 forall k int :: {delIndexs[k]} 0 <= k < len(delIndexs) ==> delIndexs[k] > end || start < delIndexs[k] < _i
invariant @nest2 gapsok(delIndexs, end, line, threshold, srid)

// sorting in descending order (library): the same values, largest first
extern sort.Sort.Reverse.sort_IntSlice(d)()
modifies elems(d)
ensures forall j, k int :: {d[j], d[k]} 0 <= j < k < len(d) ==> d[j] >= d[k]
ensures forall x int :: {posn(x)} inlist(d, len(d), x) <==> old(inlist(d, len(d), x))
ensures forall k int :: {d[k]} 0 <= k < len(d) ==> posn(d[k])
ensures old(distinct(d)) ==> distinct(d)

// d: positions, strictly descending, all inside 1..n-2
rec downlist(d array[int], o int, m int, n int) bool = (forall j, k int :: {at(d, o, j), at(d, o, k)} 0 <= j < k < m ==> at(d, o, j) > at(d, o, k)) && (forall k int :: {at(d, o, k)} 0 <= k < m ==> 0 < at(d, o, k) < n-1)
// where the element now at k was before the first t positions of d were taken out
rec origin(d array[int], o int, t int, k int) int = t <= 0 ? k : origin(d, o, t-1, k < at(d, o, t-1) ? k : k+1)

lemma origin_ge(d array[int], o int, t int, k int) induction t
inst origin_ge(d, o, t-1, k)
inst origin_ge(d, o, t-1, k+1)
ensures {origin(d, o, t, k)} origin(d, o, t, k) >= k

lemma down_low(d array[int], o int, m int, n int, k int) induction k
requires downlist(d, o, m, n) && 0 <= k < m
ensures {downlist(d, o, m, n), at(d, o, k)} at(d, o, k) <= n-2-k

lemma origin_low(d array[int], o int, m int, n int, t int, k int) induction t
inst origin_low(d, o, m, n, t-1, k)
requires downlist(d, o, m, n) && 0 <= t <= m && (t > 0 ==> k < at(d, o, t-1))
ensures origin(d, o, t, k) == k

// what remains was not taken out
lemma origin_kept(d array[int], o int, m int, n int, t int, k int, u int) induction t
use origin_ge
inst origin_kept(d, o, m, n, t-1, k, u)
inst origin_kept(d, o, m, n, t-1, k+1, u)
inst origin_low(d, o, m, n, t, k)
requires downlist(d, o, m, n) && 0 <= u < t <= m
ensures origin(d, o, t, k) != at(d, o, u)

// what lies between neighbours that remain was taken out
lemma origin_gap(d array[int], o int, m int, n int, t int, k int, x int) induction t
inst origin_gap(d, o, m, n, t-1, k, x)
inst origin_gap(d, o, m, n, t-1, k+1, x)
inst origin_low(d, o, m, n, t, k)
inst origin_low(d, o, m, n, t-1, k)
inst origin_low(d, o, m, n, t-1, k+1)
requires downlist(d, o, m, n) && 0 <= t <= m && origin(d, o, t, k) < x < origin(d, o, t, k+1)
ensures taken(d, o, t, x)

lemma origin_up(d array[int], o int, m int, n int, t int, k int) induction t
inst origin_up(d, o, m, n, t-1, k)
inst origin_up(d, o, m, n, t-1, k+1)
inst origin_low(d, o, m, n, t, k)
use origin_ge
requires downlist(d, o, m, n) && 0 <= t <= m
ensures origin(d, o, t, k) < origin(d, o, t, k+1)

lemma origin_last(d array[int], o int, m int, n int, t int) induction t
inst origin_last(d, o, m, n, t-1)
inst down_low(d, o, m, n, t-1)
requires downlist(d, o, m, n) && 0 <= t <= m && n >= 2
ensures origin(d, o, t, n-1-t) == n-1

// the first k+1 points of r are a simplification of the first j+1 points of h: the last of them is the last of h,
// and so are the k before it of the points up to some earlier position, from which on everything is close
rec thin(rh array[Point], ro int, k int, h array[Point], o int, j int, thr float, srid int) bool = k <= 0 ? j == 0 && at(rh, ro, 0) === at(h, o, 0) : at(rh, ro, k) === at(h, o, j) && exists i int :: {posn(i)} posn(i) && 0 <= i < j && thin(rh, ro, k-1, h, o, i, thr, srid) && closegap(h, o, i, j, thr, srid)

lemma thin_all(d array[int], od int, m int, n int, rh array[Point], ro int, k int, h array[Point], o int, thr float, srid int) induction k
inst thin_all(d, od, m, n, rh, ro, k-1, h, o, thr, srid)
inst forall u int :: {at(d, od, u)} origin_kept(d, od, m, n, m, k, u)
inst forall u int :: {at(d, od, u)} origin_kept(d, od, m, n, m, k-1, u)
inst forall x int :: {posn(x)} origin_gap(d, od, m, n, m, k-1, x)
inst origin_up(d, od, m, n, m, k-1)
inst origin_low(d, od, m, n, m, 0)
inst forall j int :: {origin(d, od, m, j)} origin_ge(d, od, m, j)
requires downlist(d, od, m, n) && 0 <= m && n >= 2 && 0 <= k
requires origin(d, od, m, k) < n && gap(origin(d, od, m, k-1), origin(d, od, m, k))
requires gapsclose(d, od, m, 0, h, o, n, thr, srid)
requires forall j int :: {at(rh, ro, j)} 0 <= j <= k ==> at(rh, ro, j) === at(h, o, origin(d, od, m, j))
ensures thin(rh, ro, k, h, o, origin(d, od, m, k), thr, srid)

func geo.DouglasPeuckerSimplify(line, threshold, srid)(r)
requires len(line) >= 2 && !(threshold < 0)
ensures [C10] "not more points": 2 <= len(r) <= len(line)
ensures [C10] "first point kept": r[0] === line[0]
ensures [C10] "last point kept": r[len(r)-1] === line[len(line)-1]
ensures [C10] "order and tolerance": thin(arr(r), off(r), len(r)-1, arr(line), off(line), len(line)-1, threshold, srid)
local delIndexs []int
invariant len(line) == len(old(line)) - _i
invariant downlist(arr(delIndexs), off(delIndexs), len(delIndexs), len(old(line)))
invariant gapsok(delIndexs, 0, old(line), threshold, srid)
invariant forall k int :: {line[k]} 0 <= k < len(line) ==> line[k] === at(old(arr(line)), old(off(line)), origin(arr(delIndexs), off(delIndexs), _i, k))
inst thin_all(arr(delIndexs), off(delIndexs), len(delIndexs), len(line), arr(r), off(r), len(r)-1, arr(line), off(line), threshold, srid)
inst origin_last(arr(delIndexs), off(delIndexs), len(delIndexs), len(line), len(delIndexs))
inst origin_low(arr(delIndexs), off(delIndexs), len(delIndexs), len(line), len(delIndexs), 0)
use down_low
