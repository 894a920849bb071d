package geo

// ---- C13: window search ----
pure ent(mn array[array[node]], me array[array[entry]], n *node, k int) entry = at(row(me, cell(mn, n).entries), off(cell(mn, n).entries), k)
pure proper(b Box) bool = b.MinX <= b.MaxX && b.MinY <= b.MaxY
pure meets(a Box, b Box) bool = b.MinX <= a.MaxX && a.MinX <= b.MaxX && b.MinY <= a.MaxY && a.MinY <= b.MaxY
pure sat(c Condition, o Spatial) bool = c == nil || c(o)

// how often the first k entries of n (a node of level d) hold object o below a box that meets the window
rec hits(mn array[array[node]], me array[array[entry]], mb array[array[Box]], d int, n *node, k int, w Box, c Condition, o Spatial) int = d <= 0 || k <= 0 ? 0 : hits(mn, me, mb, d, n, k-1, w, c, o) + (cell(mn, n).leaf ? (meets(cell(mb, ent(mn, me, n, k-1).bb), w) && sat(c, ent(mn, me, n, k-1).obj) && ent(mn, me, n, k-1).obj === o ? 1 : 0) : hits(mn, me, mb, d-1, ent(mn, me, n, k-1).child, len(cell(mn, ent(mn, me, n, k-1).child).entries), w, c, o))
// how often a list holds an object
rec cnt(h array[Spatial], o int, n int, x Spatial) int = n <= 0 ? 0 : cnt(h, o, n-1, x) + (at(h, o, n-1) === x ? 1 : 0)
pure times(s []Spatial, x Spatial) int = cnt(arr(s), off(s), len(s), x)

ufun mark(o Spatial) bool

// the nodes of a well-formed tree: levels count down to the leaves, boxes enclose what lies below
ufun intree(n *node) bool
opaque treeok(mn array[array[node]], me array[array[entry]], mb array[array[Box]]) bool = forall n *node :: {intree(n)} intree(n) ==> n != nil && cell(mn, n).level >= 1 && (cell(mn, n).leaf <==> cell(mn, n).level == 1) && (forall k int :: {ent(mn, me, n, k)} 0 <= k < len(cell(mn, n).entries) ==> ent(mn, me, n, k).bb != nil && proper(cell(mb, ent(mn, me, n, k).bb)) && (!cell(mn, n).leaf ==> intree(ent(mn, me, n, k).child) && cell(mn, ent(mn, me, n, k).child).level == cell(mn, n).level - 1 && (forall j int :: {ent(mn, me, ent(mn, me, n, k).child, j)} 0 <= j < len(cell(mn, ent(mn, me, n, k).child).entries) ==> encloses(cell(mb, ent(mn, me, n, k).bb), cell(mb, ent(mn, me, ent(mn, me, n, k).child, j).bb)))))

lemma cnt_same(h array[Spatial], o int, g array[Spatial], p int, n int, x Spatial) induction n limited
requires forall k int :: {at(h, o, k)} {at(g, p, k)} 0 <= k < n ==> at(h, o, k) === at(g, p, k)
ensures {cnt(h, o, n, x), cnt(g, p, n, x)} cnt(h, o, n, x) === cnt(g, p, n, x)

lemma none_prefix(mn array[array[node]], me array[array[entry]], mb array[array[Box]], d int, n *node, k int, w Box, c Condition, o Spatial) induction k
requires d > 0
requires forall j int :: {ent(mn, me, n, j)} 0 <= j < k ==> (cell(mn, n).leaf ? !meets(cell(mb, ent(mn, me, n, j).bb), w) : hits(mn, me, mb, d-1, ent(mn, me, n, j).child, len(cell(mn, ent(mn, me, n, j).child).entries), w, c, o) == 0)
ensures {hits(mn, me, mb, d, n, k, w, c, o)} hits(mn, me, mb, d, n, k, w, c, o) == 0

lemma none(mn array[array[node]], me array[array[entry]], mb array[array[Box]], d int, n *node, k int, w Box, c Condition, o Spatial) induction all d limited
use none_prefix, treeok_def
requires treeok(mn, me, mb) && intree(n) && cell(mn, n).level == d && k <= len(cell(mn, n).entries)
requires forall j int :: {ent(mn, me, n, j)} 0 <= j < k ==> !meets(cell(mb, ent(mn, me, n, j).bb), w)
ensures {hits(mn, me, mb, d, n, k, w, c, o)} hits(mn, me, mb, d, n, k, w, c, o) == 0

pure grown(s []Spatial, t []Spatial) bool = len(s) >= len(t) && (fresh(s) || (ref(s) == ref(t) && off(s) == off(t) && cap(s) == cap(t)))
func geo.(*Rtree).searchIntersectWithCond(tree, results0, n, bb, cond)(r)
use none, cnt_same, treeok_def
requires intree(n) && treeok(mem(node), mem(entry), mem(Box))
requires bb != nil && boxok(*bb)
modifies spare(results0)
ensures "the list is extended": grown(r, results0)
ensures [C13] "every match as often as it is stored": forall o Spatial :: {mark(o)} times(r, o) == old(times(results0, o)) + hits(mem(node), mem(entry), mem(Box), n.level, n, len(n.entries), *bb, cond, o)
local results []Spatial
invariant grown(results, results0)
invariant forall o Spatial :: {mark(o)} times(results, o) == old(times(results0, o)) + hits(mem(node), mem(entry), mem(Box), n.level, n, _i, *bb, cond, o)

func geo.(*Rtree).SearchIntersectWithCond(tree, bb, cond)(r)
requires tree != nil && intree(tree.root) && treeok(mem(node), mem(entry), mem(Box)) && bb != nil && boxok(*bb)
ensures [C13] "every match as often as it is stored": forall o Spatial :: {mark(o)} times(r, o) == hits(mem(node), mem(entry), mem(Box), tree.root.level, tree.root, len(tree.root.entries), *bb, cond, o)

func geo.(*Rtree).SearchIntersect(tree, bb)(r)
requires tree != nil && intree(tree.root) && treeok(mem(node), mem(entry), mem(Box)) && bb != nil && boxok(*bb)
ensures [C13] "every match as often as it is stored": forall o Spatial :: {mark(o)} times(r, o) == hits(mem(node), mem(entry), mem(Box), tree.root.level, tree.root, len(tree.root.entries), *bb, nil, o)

// ---- C15: nearest neighbours ----
// rounding to nearest is monotone
axiom @ieee sub_mono(x float, y float, c float): x <= y && isfin(c) ==> c - y <= c - x
axiom @ieee sq_mono(x float, y float): (0.0 <= x && x <= y) || (y <= x && x <= 0.0) ==> x*x <= y*y
axiom @ieee add_mono2(x float, y float, a float, b float): 0.0 <= x && x <= y && 0.0 <= a && a <= b ==> x + a <= y + b

pure axgap(x float, lo float, hi float) float = x < lo ? (x-lo)*(x-lo) : x > hi ? (x-hi)*(x-hi) : 0.0
opaque boxdist(p Point, b Box) float = (0.0 + axgap(p.X, b.MinX, b.MaxX)) + axgap(p.Y, b.MinY, b.MaxY)
pure pfin(p Point) bool = isfin(p.X) && isfin(p.Y)

lemma @ieee axgap_mono(x float, lo float, hi float, a float, b float)
inst sub_mono(lo, a, x)
inst sub_mono(b, hi, x)
inst sq_mono(x-lo, x-a)
inst sq_mono(x-hi, x-b)
requires isfin(x) && lo <= a && b <= hi && a <= b
ensures 0.0 <= axgap(x, lo, hi) && axgap(x, lo, hi) <= axgap(x, a, b)

lemma @ieee boxdist_mono(p Point, a Box, b Box)
use boxdist_def
inst axgap_mono(p.X, a.MinX, a.MaxX, b.MinX, b.MaxX)
inst axgap_mono(p.Y, a.MinY, a.MaxY, b.MinY, b.MaxY)
inst add_mono2(0.0, 0.0, axgap(p.X, a.MinX, a.MaxX), axgap(p.X, b.MinX, b.MaxX))
inst add_mono2(0.0 + axgap(p.X, a.MinX, a.MaxX), 0.0 + axgap(p.X, b.MinX, b.MaxX), axgap(p.Y, a.MinY, a.MaxY), axgap(p.Y, b.MinY, b.MaxY))
requires pfin(p) && proper(b) && encloses(a, b)
ensures {boxdist(p, a), boxdist(p, b)} boxdist(p, a) <= boxdist(p, b)

lemma @ieee boxdist_num(p Point, a Box)
use boxdist_def
inst axgap_mono(p.X, a.MinX, a.MaxX, a.MinX, a.MaxX)
inst axgap_mono(p.Y, a.MinY, a.MaxY, a.MinY, a.MaxY)
requires pfin(p) && proper(a)
ensures {boxdist(p, a)} !isnan(boxdist(p, a)) && 0.0 <= boxdist(p, a)

func geo.(*Point).minDist(p, r)(d)
use boxdist_def
requires p != nil && r != nil
ensures [C15] @ieee "distance to the box": d === boxdist(*p, *r)

// how often the first n results are object x at distance t
rec rcnt(hs array[Spatial], so int, hd array[float], do int, n int, x Spatial, t float) int = n <= 0 ? 0 : rcnt(hs, so, hd, do, n-1, x, t) + (at(hs, so, n-1) === x && at(hd, do, n-1) === t ? 1 : 0)
pure found(nearest []Spatial, dists []float, x Spatial, t float) int = rcnt(arr(nearest), off(nearest), arr(dists), off(dists), len(dists), x, t)
pure ascending(d []float) bool = (forall j int :: {d[j]} 0 <= j < len(d) ==> !isnan(d[j])) && (forall i, j int :: {d[i], d[j]} 0 <= i < j < len(d) ==> d[i] <= d[j])
pure results(k int, dists []float, nearest []Spatial) bool = len(dists) == len(nearest) && len(dists) <= k && ascending(dists)
ufun mark2(x Spatial, t float) bool
pure fgrown(s []float, t []float) bool = len(s) >= len(t) && (freshslice(s) || (ref(s) == ref(t) && off(s) == off(t) && cap(s) == cap(t)))

lemma rcnt_same(hs array[Spatial], so int, hd array[float], do int, gs array[Spatial], sp int, gd array[float], dp int, n int, x Spatial, t float) induction n limited
requires forall j int :: {at(hs, so, j)} {at(gs, sp, j)} 0 <= j < n ==> at(hs, so, j) === at(gs, sp, j)
requires forall j int :: {at(hd, do, j)} {at(gd, dp, j)} 0 <= j < n ==> at(hd, do, j) === at(gd, dp, j)
ensures {rcnt(hs, so, hd, do, n, x, t), rcnt(gs, sp, gd, dp, n, x, t)} rcnt(hs, so, hd, do, n, x, t) === rcnt(gs, sp, gd, dp, n, x, t)

// one more result at position i
rec slot(i int) int = i <= 0 ? 0 : 0
lemma rcnt_ins(hs array[Spatial], so int, hd array[float], do int, gs array[Spatial], sp int, gd array[float], dp int, i int, n int, m int, x Spatial, t float) induction n limited
use rcnt_same
inst rcnt_ins(hs, so, hd, do, gs, sp, gd, dp, i, n-1, m-1, x, t)
requires 0 <= i <= n && m == n+1
requires forall j int :: {at(gs, sp, j)} 0 <= j < i ==> at(hs, so, j) === at(gs, sp, j) && at(hd, do, j) === at(gd, dp, j)
requires forall j int :: {at(gs, sp, j)} {at(gd, dp, j)} i < j <= n ==> at(hs, so, j-1) === at(gs, sp, j) && at(hd, do, j-1) === at(gd, dp, j)
ensures {rcnt(hs, so, hd, do, n, x, t), rcnt(gs, sp, gd, dp, m, x, t), slot(i)} rcnt(gs, sp, gd, dp, m, x, t) == rcnt(hs, so, hd, do, n, x, t) + (at(gs, sp, i) === x && at(gd, dp, i) === t ? 1 : 0)

extern sort.SearchFloat64s(a, x)(r)
ensures 0 <= r && r <= len(a)
ensures ascending(a) ==> forall j int :: {a[j]} 0 <= j < r ==> a[j] < x
ensures ascending(a) ==> forall j int :: {a[j]} r <= j < len(a) ==> !(a[j] < x)

func geo.insertNearest(k, dists0, nearest0, dist, obj)(rd, rn, abort)
use rcnt_ins
requires k >= 1 && results(k, dists0, nearest0) && !isnan(dist)
modifies elems(dists0), spare(dists0), elems(nearest0), spare(nearest0)
ensures "goes on": !abort
ensures "lists grow": grown(rn, nearest0) && fgrown(rd, dists0)
ensures [C15] "ordered": results(k, rd, rn)
ensures [C15] "one more up to k": len(rd) == (len(dists0) < k ? len(dists0) + 1 : len(dists0))
ensures [C15] "never farther": len(dists0) == k ==> rd[k-1] <= old(dists0[k-1])
ensures [C15] "stored ones only": forall x Spatial, t float :: {mark2(x, t)} found(rn, rd, x, t) <= old(found(nearest0, dists0, x, t)) + (x === obj && t === dist ? 1 : 0)
ensures [C15] "nearest ones stay": forall x Spatial, t float :: {mark2(x, t)} len(rd) < k || t < rd[len(rd)-1] ==> found(rn, rd, x, t) == old(found(nearest0, dists0, x, t)) + (x === obj && t === dist ? 1 : 0)
local dists []float
local nearest []Spatial
local i int
assert i < k ==> rd[i] === dist && rn[i] === obj
assert i < k ==> forall j int :: {rd[j]} 0 <= j < i ==> rd[j] === old(at(arr(dists0), off(dists0), j))
assert i < k ==> forall j int :: {rn[j]} 0 <= j < i ==> rn[j] === old(at(arr(nearest0), off(nearest0), j))
assert i < k ==> forall j int :: {rd[j]} i < j < len(rd) ==> rd[j] === old(at(arr(dists0), off(dists0), j-1))
assert i < k ==> forall j int :: {rn[j]} i < j < len(rd) ==> rn[j] === old(at(arr(nearest0), off(nearest0), j-1))
invariant slot(i) == 0 && 0 <= i && i <= len(nearest) && (forall j int :: {dists[j]} 0 <= j < i ==> dists[j] <= dist)

// ---- sums over the leaf entries below a list of entries (of a node of level d) ----
pure kid(mn array[array[node]], h array[entry], o int, j int) node = cell(mn, at(h, o, j).child)
// how often object x is stored below the first k entries at distance t from p
rec near(mn array[array[node]], me array[array[entry]], mb array[array[Box]], d int, h array[entry], o int, k int, p Point, x Spatial, t float) int = d <= 0 || k <= 0 ? 0 : near(mn, me, mb, d, h, o, k-1, p, x, t) + (d == 1 ? (at(h, o, k-1).obj === x && boxdist(p, cell(mb, at(h, o, k-1).bb)) === t ? 1 : 0) : near(mn, me, mb, d-1, row(me, kid(mn, h, o, k-1).entries), off(kid(mn, h, o, k-1).entries), len(kid(mn, h, o, k-1).entries), p, x, t))
// how many objects are stored below the first k entries
rec stored(mn array[array[node]], me array[array[entry]], d int, h array[entry], o int, k int) int = d <= 0 || k <= 0 ? 0 : stored(mn, me, d, h, o, k-1) + (d == 1 ? 1 : stored(mn, me, d-1, row(me, kid(mn, h, o, k-1).entries), off(kid(mn, h, o, k-1).entries), len(kid(mn, h, o, k-1).entries)))

// entries of a node of level d of a well-formed tree
opaque goodlist(mn array[array[node]], me array[array[entry]], mb array[array[Box]], d int, h array[entry], o int, n int) bool = forall j int :: {at(h, o, j)} 0 <= j < n ==> at(h, o, j).bb != nil && proper(cell(mb, at(h, o, j).bb)) && (d > 1 ==> intree(at(h, o, j).child) && kid(mn, h, o, j).level == d - 1 && (forall i int :: {ent(mn, me, at(h, o, j).child, i)} 0 <= i < len(kid(mn, h, o, j).entries) ==> encloses(cell(mb, at(h, o, j).bb), cell(mb, ent(mn, me, at(h, o, j).child, i).bb))))

lemma tree_list(mn array[array[node]], me array[array[entry]], mb array[array[Box]], n *node)
use treeok_def, goodlist_def
requires treeok(mn, me, mb) && intree(n)
ensures {treeok(mn, me, mb), intree(n)} goodlist(mn, me, mb, cell(mn, n).level, row(me, cell(mn, n).entries), off(cell(mn, n).entries), len(cell(mn, n).entries))

opaque sametree(mn array[array[node]], me array[array[entry]], nu array[array[entry]]) bool = forall m *node :: {intree(m)} intree(m) ==> row(me, cell(mn, m).entries) === row(nu, cell(mn, m).entries)

lemma near_frame(mn array[array[node]], me array[array[entry]], nu array[array[entry]], mb array[array[Box]], d int, h array[entry], o int, k int, p Point, x Spatial, t float) induction all d then k limited
use tree_list, sametree_def, goodlist_def
requires treeok(mn, me, mb) && goodlist(mn, me, mb, d, h, o, k) && sametree(mn, me, nu)
ensures {near(mn, me, mb, d, h, o, k, p, x, t), near(mn, nu, mb, d, h, o, k, p, x, t)} near(mn, me, mb, d, h, o, k, p, x, t) == near(mn, nu, mb, d, h, o, k, p, x, t)

lemma stored_frame(mn array[array[node]], me array[array[entry]], nu array[array[entry]], mb array[array[Box]], d int, h array[entry], o int, k int) induction all d then k limited
use tree_list, sametree_def, goodlist_def
requires treeok(mn, me, mb) && goodlist(mn, me, mb, d, h, o, k) && sametree(mn, me, nu)
ensures {stored(mn, me, d, h, o, k), stored(mn, nu, d, h, o, k), treeok(mn, me, mb)} stored(mn, me, d, h, o, k) == stored(mn, nu, d, h, o, k)

lemma near_pos(mn array[array[node]], me array[array[entry]], mb array[array[Box]], d int, h array[entry], o int, k int, p Point, x Spatial, t float) induction all d then k limited
ensures {near(mn, me, mb, d, h, o, k, p, x, t)} near(mn, me, mb, d, h, o, k, p, x, t) >= 0

lemma near_mono(mn array[array[node]], me array[array[entry]], mb array[array[Box]], d int, h array[entry], o int, m int, n int, p Point, x Spatial, t float) induction n limited
use near_pos
requires m <= n
ensures {near(mn, me, mb, d, h, o, m, p, x, t), near(mn, me, mb, d, h, o, n, p, x, t)} near(mn, me, mb, d, h, o, m, p, x, t) <= near(mn, me, mb, d, h, o, n, p, x, t)

lemma stored_pos(mn array[array[node]], me array[array[entry]], d int, h array[entry], o int, k int) induction all d then k limited
ensures {stored(mn, me, d, h, o, k)} stored(mn, me, d, h, o, k) >= 0

lemma treeok_frame(mn array[array[node]], me array[array[entry]], nu array[array[entry]], mb array[array[Box]])
use treeok_def, sametree_def
requires treeok(mn, me, mb) && sametree(mn, me, nu)
ensures {treeok(mn, me, mb), treeok(mn, nu, mb)} treeok(mn, nu, mb)

// only the entries themselves count, not where the list is kept
lemma near_same(mn array[array[node]], me array[array[entry]], mb array[array[Box]], d int, h array[entry], o int, g array[entry], q int, k int, p Point, x Spatial, t float) induction k limited
requires forall j int :: {at(h, o, j)} {at(g, q, j)} 0 <= j < k ==> at(h, o, j) === at(g, q, j)
ensures {near(mn, me, mb, d, h, o, k, p, x, t), near(mn, me, mb, d, g, q, k, p, x, t)} near(mn, me, mb, d, h, o, k, p, x, t) === near(mn, me, mb, d, g, q, k, p, x, t)

lemma stored_same(mn array[array[node]], me array[array[entry]], d int, h array[entry], o int, g array[entry], q int, k int) induction k limited
requires forall j int :: {at(h, o, j)} {at(g, q, j)} 0 <= j < k ==> at(h, o, j) === at(g, q, j)
ensures {stored(mn, me, d, h, o, k), stored(mn, me, d, g, q, k)} stored(mn, me, d, h, o, k) === stored(mn, me, d, g, q, k)

// nothing is stored nearer than the box around it
lemma @ieee near_none(mn array[array[node]], me array[array[entry]], mb array[array[Box]], d int, h array[entry], o int, n int, p Point, x Spatial, t float) induction all d then n limited
use tree_list, goodlist_def, boxdist_mono, boxdist_num
requires treeok(mn, me, mb) && goodlist(mn, me, mb, d, h, o, n) && pfin(p)
requires forall j int :: {at(h, o, j)} 0 <= j < n ==> t < boxdist(p, cell(mb, at(h, o, j).bb))
ensures {near(mn, me, mb, d, h, o, n, p, x, t)} near(mn, me, mb, d, h, o, n, p, x, t) == 0

lemma @ieee near_far(mn array[array[node]], me array[array[entry]], mb array[array[Box]], d int, h array[entry], o int, m int, n int, p Point, x Spatial, t float) induction n limited
use tree_list, goodlist_def, boxdist_mono, boxdist_num, near_none
requires treeok(mn, me, mb) && goodlist(mn, me, mb, d, h, o, n) && pfin(p) && 0 <= m <= n
requires forall j int :: {at(h, o, j)} m <= j < n ==> t < boxdist(p, cell(mb, at(h, o, j).bb))
ensures {near(mn, me, mb, d, h, o, m, p, x, t), near(mn, me, mb, d, h, o, n, p, x, t)} near(mn, me, mb, d, h, o, n, p, x, t) == near(mn, me, mb, d, h, o, m, p, x, t)

// sorting a list of entries by distance (library, with the contracts of Less and Swap below): a permutation, so sums stay
func geo.(entrySlice).Less(s, i, j)(r)
requires 0 <= i < len(s.dists) && 0 <= j < len(s.dists)
ensures [C15] "by distance": r <==> s.dists[i] < s.dists[j]
func geo.(entrySlice).Len(s)(r)
ensures [C15] r == len(s.entries)
func geo.(entrySlice).Swap(s, i, j)()
requires 0 <= i < len(s.dists) && 0 <= j < len(s.dists) && len(s.dists) == len(s.entries)
modifies elems(s.entries), elems(s.dists)
ensures [C15] "both lists": s.dists[i] === old(s.dists[j]) && s.dists[j] === old(s.dists[i]) && s.entries[i] === old(s.entries[j]) && s.entries[j] === old(s.entries[i])
ensures [C15] "others stay": forall k int :: {s.dists[k]} 0 <= k < len(s.dists) && k != i && k != j ==> s.dists[k] === old(s.dists[k])
ensures [C15] "others stay": forall k int :: {s.entries[k]} 0 <= k < len(s.entries) && k != i && k != j ==> s.entries[k] === old(s.entries[k])

extern sort.Sort.geo_entrySlice(d)()
opt ghost=from
requires len(d.entries) == len(d.dists) && (forall k int :: {d.dists[k]} 0 <= k < len(d.dists) ==> !isnan(d.dists[k]))
modifies elems(d.entries), elems(d.dists)
ensures forall i, j int :: {d.dists[i], d.dists[j]} 0 <= i < j < len(d.dists) ==> d.dists[i] <= d.dists[j]
ensures forall k int :: {d.entries[k]} {d.dists[k]} 0 <= k < len(d.entries) ==> 0 <= ghost("from", k) < len(d.entries) && d.entries[k] === old(at(arr(d.entries), off(d.entries), ghost("from", k))) && d.dists[k] === old(at(arr(d.dists), off(d.dists), ghost("from", k)))
ensures forall mn array[array[node]], me array[array[entry]], mb array[array[Box]], e int, p Point, x Spatial, t float :: {near(mn, me, mb, e, arr(d.entries), off(d.entries), len(d.entries), p, x, t)} near(mn, me, mb, e, arr(d.entries), off(d.entries), len(d.entries), p, x, t) == old(near(mn, me, mb, e, arr(d.entries), off(d.entries), len(d.entries), p, x, t))
ensures forall mn array[array[node]], me array[array[entry]], e int :: {stored(mn, me, e, arr(d.entries), off(d.entries), len(d.entries))} stored(mn, me, e, arr(d.entries), off(d.entries), len(d.entries)) == old(stored(mn, me, e, arr(d.entries), off(d.entries), len(d.entries)))

pure boxes(s []entry) bool = forall j int :: {s[j]} 0 <= j < len(s) ==> s[j].bb != nil && proper(*s[j].bb)
func geo.sortPreallocEntries(p, entries, sorted0, dists0)(re, rd)
use boxdist_num, near_same, stored_same, goodlist_def
requires pfin(p) && boxes(entries) && ref(entries) != ref(sorted0) && len(entries) <= cap(sorted0) && len(entries) <= cap(dists0)
modifies elems(sorted0), spare(sorted0), elems(dists0), spare(dists0)
ensures ref(re) == ref(sorted0) && off(re) == off(sorted0) && len(re) == len(entries) && ref(rd) == ref(dists0) && off(rd) == off(dists0) && len(rd) == len(entries)
ensures [C15] "sorted by distance": ascending(rd)
ensures [C15] "distances of the boxes": forall k int :: {re[k]} {rd[k]} 0 <= k < len(re) ==> rd[k] === boxdist(p, *re[k].bb)
ensures "boxes": boxes(re)
ensures [C15] "same entries": forall mn array[array[node]], me array[array[entry]], mb array[array[Box]], e int :: {goodlist(mn, me, mb, e, arr(re), off(re), len(re))} old(goodlist(mn, me, mb, e, arr(entries), off(entries), len(entries))) ==> goodlist(mn, me, mb, e, arr(re), off(re), len(re))
ensures [C15] "same objects": forall mn array[array[node]], me array[array[entry]], mb array[array[Box]], e int, x Spatial, t float :: {near(mn, me, mb, e, arr(re), off(re), len(re), p, x, t)} near(mn, me, mb, e, arr(re), off(re), len(re), p, x, t) == old(near(mn, me, mb, e, arr(entries), off(entries), len(entries), p, x, t))
ensures [C15] "same objects": forall mn array[array[node]], me array[array[entry]], e int :: {stored(mn, me, e, arr(re), off(re), len(re))} stored(mn, me, e, arr(re), off(re), len(re)) == old(stored(mn, me, e, arr(entries), off(entries), len(entries)))
local sorted []entry
local dists []float
invariant forall k int :: {sorted[k]} {dists[k]} 0 <= k < i ==> sorted[k] === entries[k] && dists[k] === boxdist(p, *entries[k].bb)

func geo.pruneEntriesMinDist(d, entries, minDists)(r)
requires len(minDists) >= len(entries) && (forall j int :: {minDists[j]} 0 <= j < len(minDists) ==> !isnan(minDists[j])) && !isnan(d)
ensures "prefix": ref(r) == ref(entries) && off(r) == off(entries) && len(r) <= len(entries) && cap(r) == cap(entries)
ensures [C15] "keeps what may be nearer": len(r) == len(entries) || minDists[len(r)] > d
ensures [C15] "cuts off the farther ones": forall j int :: {minDists[j]} 0 <= j < len(r) ==> !(minDists[j] > d)
invariant forall j int :: {minDists[j]} 0 <= j < i ==> !(minDists[j] > d)

opaque offtree(mn array[array[node]], b int) bool = forall m *node :: {intree(m)} intree(m) ==> ref(cell(mn, m).entries) != b
opaque fits(mn array[array[node]], m int) bool = forall n *node :: {intree(n)} intree(n) ==> len(cell(mn, n).entries) <= m

opaque bufsize(m int, level int) int = m * level
lemma buf_step(m int, l int, q int)
use bufsize_def
requires m >= 0 && l == q + 1
ensures {bufsize(m, l), bufsize(m, q)} bufsize(m, l) == bufsize(m, q) + m
lemma buf_pos(m int, l int)
use bufsize_def
requires m >= 0 && l >= 1
ensures {bufsize(m, l)} bufsize(m, l) >= m

func geo.(*Rtree).nearestNeighbors(tree, k, p, n, dists0, nearest0, b, bd)(rn, rd, stop)
opt patient=1
use buf_step, buf_pos, near_mono, near_same, near_far, near_frame, stored_same, stored_frame, stored_pos, treeok_frame, treeok_def, tree_list, goodlist_def, sametree_def, offtree_def, fits_def, boxdist_num
requires intree(n)
requires forall m *node :: {intree(m)} intree(m) ==> allocated(m)
requires treeok(mem(node), mem(entry), mem(Box))
requires pfin(p) && k >= 1 && tree != nil
requires results(k, dists0, nearest0)
requires offtree(mem(node), ref(b))
requires ref(bd) != ref(dists0)
requires fits(mem(node), tree.MaxChildren) && tree.MaxChildren >= 1
requires len(b) == len(bd) && len(b) >= bufsize(tree.MaxChildren, n.level)
modifies elems(dists0), spare(dists0), elems(nearest0), spare(nearest0), elems(b), elems(bd), spare(b), spare(bd)
ensures "goes on": !stop
ensures "lists grow": grown(rn, nearest0) && fgrown(rd, dists0)
ensures [C15] "ordered": results(k, rd, rn)
ensures wit(arr(rd), off(rd)) == 0
ensures [C15] "up to k": len(rd) == (len(dists0) + old(stored(mem(node), mem(entry), n.level, arr(n.entries), off(n.entries), len(n.entries))) < k ? len(dists0) + old(stored(mem(node), mem(entry), n.level, arr(n.entries), off(n.entries), len(n.entries))) : k)
ensures [C15] "never farther": len(dists0) == k ==> rd[k-1] <= old(dists0[k-1])
ensures [C15] "stored ones only": forall x Spatial, t float :: {mark2(x, t)} found(rn, rd, x, t) <= old(found(nearest0, dists0, x, t)) + old(near(mem(node), mem(entry), mem(Box), n.level, arr(n.entries), off(n.entries), len(n.entries), p, x, t))
ensures [C15] "nearest ones stay": forall x Spatial, t float :: {mark2(x, t)} len(rd) < k || t < rd[len(rd)-1] ==> found(rn, rd, x, t) == old(found(nearest0, dists0, x, t)) + old(near(mem(node), mem(entry), mem(Box), n.level, arr(n.entries), off(n.entries), len(n.entries), p, x, t))
local dists []float
local nearest []Spatial
local branches []entry
local abort bool
invariant !abort
invariant grown(nearest, nearest0) && fgrown(dists, dists0) && results(k, dists, nearest) && (len(dists0) == k ==> len(dists) == k && dists[k-1] <= old(dists0[k-1]))
invariant n.leaf ==> len(dists) == (len(dists0) + old(stored(mem(node), mem(entry), n.level, arr(n.entries), off(n.entries), _i)) < k ? len(dists0) + old(stored(mem(node), mem(entry), n.level, arr(n.entries), off(n.entries), _i)) : k)
invariant n.leaf ==> forall x Spatial, t float :: {mark2(x, t)} found(nearest, dists, x, t) <= old(found(nearest0, dists0, x, t)) + old(near(mem(node), mem(entry), mem(Box), n.level, arr(n.entries), off(n.entries), _i, p, x, t))
invariant n.leaf ==> forall x Spatial, t float :: {mark2(x, t)} len(dists) < k || t < dists[len(dists)-1] ==> found(nearest, dists, x, t) == old(found(nearest0, dists0, x, t)) + old(near(mem(node), mem(entry), mem(Box), n.level, arr(n.entries), off(n.entries), _i, p, x, t))
invariant !n.leaf ==> ref(branches) == ref(b) && off(branches) == off(b) && len(branches) <= len(n.entries)
invariant !n.leaf ==> goodlist(old(mem(node)), old(mem(entry)), old(mem(Box)), n.level, arr(branches), off(branches), len(n.entries))
invariant !n.leaf ==> stored(old(mem(node)), old(mem(entry)), n.level, arr(branches), off(branches), len(n.entries)) == old(stored(mem(node), mem(entry), n.level, arr(n.entries), off(n.entries), len(n.entries)))
invariant !n.leaf ==> forall x Spatial, t float :: {mark2(x, t)} near(old(mem(node)), old(mem(entry)), old(mem(Box)), n.level, arr(branches), off(branches), len(n.entries), p, x, t) == old(near(mem(node), mem(entry), mem(Box), n.level, arr(n.entries), off(n.entries), len(n.entries), p, x, t))
invariant !n.leaf && len(branches) < len(n.entries) ==> len(dists) == k && len(dists0) == k && forall j int :: {at(arr(branches), off(branches), j)} len(branches) <= j < len(n.entries) ==> dists[k-1] < boxdist(p, *at(arr(branches), off(branches), j).bb)
invariant sametree(mem(node), old(mem(entry)), mem(entry))
invariant treeok(mem(node), mem(entry), mem(Box))
invariant !n.leaf ==> len(dists) == (len(dists0) + stored(old(mem(node)), old(mem(entry)), n.level, arr(branches), off(branches), _i) < k ? len(dists0) + stored(old(mem(node)), old(mem(entry)), n.level, arr(branches), off(branches), _i) : k)
invariant !n.leaf ==> forall x Spatial, t float :: {mark2(x, t)} found(nearest, dists, x, t) <= old(found(nearest0, dists0, x, t)) + near(old(mem(node)), old(mem(entry)), old(mem(Box)), n.level, arr(branches), off(branches), _i, p, x, t)
invariant !n.leaf ==> forall x Spatial, t float :: {mark2(x, t)} len(dists) < k || t < dists[len(dists)-1] ==> found(nearest, dists, x, t) == old(found(nearest0, dists0, x, t)) + near(old(mem(node)), old(mem(entry)), old(mem(Box)), n.level, arr(branches), off(branches), _i, p, x, t)

// counting results at their distances
rec wit(h array[float], o int) int = o <= 0 ? 0 : 0
pure treesize(mn array[array[node]], me array[array[entry]], n *node) int = stored(mn, me, cell(mn, n).level, row(me, cell(mn, n).entries), off(cell(mn, n).entries), len(cell(mn, n).entries))
pure treenear(mn array[array[node]], me array[array[entry]], mb array[array[Box]], n *node, p Point, x Spatial, t float) int = near(mn, me, mb, cell(mn, n).level, row(me, cell(mn, n).entries), off(cell(mn, n).entries), len(cell(mn, n).entries), p, x, t)
func geo.(*Rtree).NearestNeighbors(tree, k, p)(r)
use bufsize_def, buf_pos, offtree_def, stored_pos, near_frame, stored_frame, tree_list, treeok_frame, sametree_def
requires tree != nil && intree(tree.root) && pfin(p) && tree.MaxChildren >= 1
requires forall m *node :: {intree(m)} intree(m) ==> allocated(m)
requires treeok(mem(node), mem(entry), mem(Box)) && fits(mem(node), tree.MaxChildren)
requires bufsize(tree.MaxChildren, tree.height) <= 1000000000000 && tree.size <= 1000000000000
requires tree.height == tree.root.level && tree.size == treesize(mem(node), mem(entry), tree.root)
ensures [C15] "as many as asked for and stored": len(r) == (k <= 0 ? 0 : old(treesize(mem(node), mem(entry), tree.root)) < k ? old(treesize(mem(node), mem(entry), tree.root)) : k)
ensures [C15] "nearest ones in order": len(r) > 0 ==> exists d array[float], o int :: {wit(d, o)} (forall i, j int :: {at(d, o, i), at(d, o, j)} 0 <= i < j < len(r) ==> at(d, o, i) <= at(d, o, j)) && (forall x Spatial, t float :: {mark2(x, t)} mark2(x, t) ==> rcnt(arr(r), off(r), d, o, len(r), x, t) <= old(treenear(mem(node), mem(entry), mem(Box), tree.root, p, x, t)) && (t < at(d, o, len(r)-1) ==> rcnt(arr(r), off(r), d, o, len(r), x, t) == old(treenear(mem(node), mem(entry), mem(Box), tree.root, p, x, t))))

// ---- C13/C14: parts of insertion ----
func geo.(*node).computeBoundingBox(n)(bb)
requires n != nil && boxes(n.entries)
ensures bb != nil
ensures [C13] "encloses every entry": forall k int :: {n.entries[k]} 0 <= k < len(n.entries) ==> encloses(*bb, *n.entries[k].bb)
ensures "proper": len(n.entries) > 0 ==> proper(*bb)
local childBoxes []*Box
invariant forall k int :: {childBoxes[k]} 0 <= k < _i ==> childBoxes[k] == n.entries[k].bb
assert forall k int :: {n.entries[k]} 0 <= k < len(n.entries) ==> childBoxes[k] == n.entries[k].bb

func geo.(*node).getEntry(n)(e)
requires n != nil && n.parent != nil
ensures [C13] "the entry of the node": e == nil ? (forall k int :: {n.parent.entries[k]} 0 <= k < len(n.parent.entries) ==> n.parent.entries[k].child != n) : e.child == n && ref(e) == ref(n.parent.entries) && 0 <= pidx(e) - off(n.parent.entries) && pidx(e) - off(n.parent.entries) < len(n.parent.entries)
local e *entry
invariant e == nil
invariant forall k int :: {n.parent.entries[k]} 0 <= k < _i ==> n.parent.entries[k].child != n

opaque filled(mn array[array[node]]) bool = forall n *node :: {intree(n)} intree(n) ==> len(cell(mn, n).entries) > 0 || cell(mn, n).level == 1
opaque sameboxes(mn array[array[node]], me array[array[entry]], mb array[array[Box]], nb array[array[Box]]) bool = forall n *node, k int :: {intree(n), ent(mn, me, n, k)} intree(n) && 0 <= k < len(cell(mn, n).entries) ==> cell(mb, ent(mn, me, n, k).bb) === cell(nb, ent(mn, me, n, k).bb)
lemma treeok_boxes(mn array[array[node]], me array[array[entry]], mb array[array[Box]], nb array[array[Box]])
use treeok_def, sameboxes_def
requires treeok(mn, me, mb) && sameboxes(mn, me, mb, nb)
ensures {treeok(mn, me, mb), treeok(mn, me, nb)} treeok(mn, me, nb)
func geo.(*Rtree).chooseNode(tree, n, e, level)(r)
use treeok_def, filled_def, treeok_boxes, sameboxes_def
requires intree(n)
requires forall m *node, k int :: {intree(m), ent(mem(node), mem(entry), m, k)} intree(m) && 0 <= k < len(m.entries) ==> allocated(ent(mem(node), mem(entry), m, k).bb)
requires treeok(mem(node), mem(entry), mem(Box))
requires filled(mem(node))
requires e.bb != nil && proper(*e.bb) && 1 <= level && level <= n.level
ensures [C13] "a node of the level": intree(r) && r.level == level
decreases n.level
local chosen entry
invariant "a child": intree(chosen.child)
invariant "its level": chosen.child.level == n.level - 1
invariant "its box": chosen.bb != nil && proper(*chosen.bb)

func geo.(*node).pickSeeds(n)(l, r)
requires n != nil && len(n.entries) >= 2 && boxes(n.entries)
ensures [C13] "two entries": 0 <= l && l < r && r < len(n.entries)
local left, right int
invariant 0 <= left && left < right && right < len(n.entries)

func geo.pickNext(left, right, entries)(next)
requires left != nil && right != nil && boxes(left.entries) && boxes(right.entries) && boxes(entries) && len(entries) > 0
ensures [C13] "one of the entries": 0 <= next && next < len(entries)
local next int
invariant 0 <= next && (next < _i || next == 0)

func geo.assign(e, group)()
requires group != nil && e.child != group
modifies *group, *e.child, spare(group.entries)
ensures [C13] "the last entry": len(group.entries) == old(len(group.entries)) + 1 && group.entries[len(group.entries)-1] === e
ensures [C13] "the others stay": forall k int :: {group.entries[k]} 0 <= k < old(len(group.entries)) ==> group.entries[k] === old(at(arr(group.entries), off(group.entries), k))
ensures "storage": freshslice(group.entries) || (ref(group.entries) == old(ref(group.entries)) && off(group.entries) == old(off(group.entries)) && cap(group.entries) == old(cap(group.entries)))
ensures "same node": group.leaf == old(group.leaf) && group.level == old(group.level) && group.parent == old(group.parent)
ensures [C13] "knows its parent": e.child != nil ==> e.child.parent == group && e.child.entries === old(e.child.entries) && e.child.leaf == old(e.child.leaf) && e.child.level == old(e.child.level)


// one of the two groups takes the entry, the other one does not change
func geo.assignGroup(e, left, right)()
requires left != nil && right != nil && left != right && e.child != left && e.child != right
requires boxes(left.entries) && boxes(right.entries) && e.bb != nil
requires ref(left.entries) != ref(right.entries)
ensures ref(left.entries) != ref(right.entries)
modifies *left, *right, *e.child, spare(left.entries), spare(right.entries)
ensures [C13] "one more in one of them": (len(left.entries) == old(len(left.entries)) + 1 && len(right.entries) == old(len(right.entries))) || (len(left.entries) == old(len(left.entries)) && len(right.entries) == old(len(right.entries)) + 1)
ensures [C13] "the last entry": len(left.entries) > old(len(left.entries)) ? left.entries[len(left.entries)-1] === e : right.entries[len(right.entries)-1] === e
ensures [C13] "the left ones stay": forall k int :: {left.entries[k]} 0 <= k < old(len(left.entries)) ==> left.entries[k] === old(at(arr(left.entries), off(left.entries), k))
ensures [C13] "the right ones stay": forall k int :: {right.entries[k]} 0 <= k < old(len(right.entries)) ==> right.entries[k] === old(at(arr(right.entries), off(right.entries), k))
ensures "storage": freshslice(left.entries) || (ref(left.entries) == old(ref(left.entries)) && off(left.entries) == old(off(left.entries)) && cap(left.entries) == old(cap(left.entries)))
ensures "right storage": freshslice(right.entries) || (ref(right.entries) == old(ref(right.entries)) && off(right.entries) == old(off(right.entries)) && cap(right.entries) == old(cap(right.entries)))
ensures "same nodes": left.leaf == old(left.leaf) && left.level == old(left.level) && left.parent == old(left.parent) && right.leaf == old(right.leaf) && right.level == old(right.level) && right.parent == old(right.parent)
ensures [C13] "knows its parent": e.child != nil ==> e.child.parent == (len(left.entries) > old(len(left.entries)) ? left : right) && e.child.entries === old(e.child.entries) && e.child.leaf == old(e.child.leaf) && e.child.level == old(e.child.level)

func geo.(*node).split(n, minGroupSize)(left, right)
opt patient=1
requires n != nil && len(n.entries) >= 2 && boxes(n.entries)
requires forall k int :: {n.entries[k]} 0 <= k < len(n.entries) ==> n.entries[k].child != n && allocated(n.entries[k].child) && allocated(n.entries[k].bb)
modifies all(node), store(n.entries)
ensures [C13] "two nodes": left == n && right != nil && right != n
ensures [C13] "none empty": len(left.entries) >= 1 && len(right.entries) >= 1 && len(left.entries) + len(right.entries) == old(len(n.entries))
ensures [C13] "same level": left.leaf == old(n.leaf) && right.leaf == old(n.leaf) && left.level == old(n.level) && right.level == old(n.level) && left.parent == old(n.parent) && right.parent == old(n.parent)
ensures [C13] "boxes": boxes(left.entries) && boxes(right.entries)
local remaining []entry
invariant left == n && right != nil && right != n && fresh(right) && freshslice(left.entries) && freshslice(right.entries) && ref(left.entries) != ref(right.entries)
invariant ref(remaining) == old(ref(n.entries)) && off(remaining) == old(off(n.entries)) && cap(remaining) == old(cap(n.entries))
invariant len(left.entries) >= 1 && len(right.entries) >= 1 && len(left.entries) + len(right.entries) + len(remaining) == old(len(n.entries))
invariant boxes(left.entries)
invariant boxes(right.entries)
invariant boxes(remaining)
invariant left.leaf == old(n.leaf) && right.leaf == old(n.leaf) && left.level == old(n.level) && right.level == old(n.level) && left.parent == old(n.parent) && right.parent == old(n.parent)
invariant forall k int :: {remaining[k]} 0 <= k < len(remaining) ==> remaining[k].child != n && remaining[k].child != right

// ---- C14: parts of deletion ----
func geo.(*Rtree).findLeaf(tree, n, obj, cmp)(r)
use treeok_def, treeok_boxes, sameboxes_def
requires forall m *node, k int :: {intree(m), ent(mem(node), mem(entry), m, k)} intree(m) && 0 <= k < len(m.entries) ==> allocated(ent(mem(node), mem(entry), m, k).bb)
requires intree(n)
requires treeok(mem(node), mem(entry), mem(Box))
requires cmp != nil
ensures [C14] "nothing or a leaf of the tree": r == nil || (intree(r) && r.leaf)
ensures [C14] "a leaf that holds the object": r == nil || n.leaf || (exists k int :: {r.entries[k]} 0 <= k < len(r.entries) && cmp(r.entries[k].obj, obj))
decreases n.level
