package verifharness

import (
	"fmt"
	"math"
	"math/big"
	"reflect"
	"sort"
	"strings"
	"testing"

	geo "github.com/hzw456/go-geo"
)

// mbr is the bounding box of the property statement: min and max over the coordinates of kinds with box
// support, the zero box otherwise.
func mbr(g geo.Geometry) (b geo.Box) {
	var ps []geo.Point
	switch g := g.(type) {
	case geo.Point:
		ps = []geo.Point{g}
	case geo.MultiPoint:
		ps = g
	case geo.LineString:
		ps = g
	case geo.MultiLineString:
		for _, l := range g {
			ps = append(ps, l...)
		}
	case geo.Polygon:
		ps = g[0]
	case geo.MultiPolygon:
		for _, l := range g {
			for _, r := range l {
				ps = append(ps, r...)
			}
		}
	}
	for i, p := range ps {
		if i == 0 {
			b = geo.Box{MinX: p.X, MinY: p.Y, MaxX: p.X, MaxY: p.Y}
			continue
		}
		b.MinX, b.MinY = math.Min(b.MinX, p.X), math.Min(b.MinY, p.Y)
		b.MaxX, b.MaxY = math.Max(b.MaxX, p.X), math.Max(b.MaxY, p.Y)
	}
	return b
}

func meets(a, b geo.Box) bool {
	return a.MinX <= b.MaxX && b.MinX <= a.MaxX && a.MinY <= b.MaxY && b.MinY <= a.MaxY
}

// rhist is a tree with its model: the list of stored objects.
type rhist struct {
	*H
	tree   *geo.Rtree
	objs   []geo.Spatial
	serial int
	g      gen
	ids    int
	kinds  int
	steps  []string
}

func (h *rhist) obj() geo.Spatial {
	if len(h.objs) > 0 && h.Intn(12) == 0 { // an equal object (a duplicate)
		o := h.objs[h.Intn(len(h.objs))]
		o.Geom = clone(o.Geom)
		return o
	}
	h.serial++
	var gm geo.Geometry
	switch r := h.Intn(20); {
	case r < 12 || h.kinds == 1:
		gm = geo.Point{X: h.g(), Y: h.g()}
	case r < 15:
		x, y, w, v := h.g(), h.g(), float64(h.Intn(4)), float64(h.Intn(4))
		gm = geo.Polygon{geo.LinearRing{{X: x, Y: y}, {X: x + w, Y: y}, {X: x + w, Y: y + v}, {X: x, Y: y}}}
	case r == 19 && h.Intn(4) == 0:
		gm = nil
	default:
		gm = h.small(h.Intn(nKinds))
	}
	var props interface{} = h.serial
	if h.Intn(6) == 0 {
		props = map[string]interface{}{"n": h.serial}
	}
	return geo.Spatial{ID: fmt.Sprint("id", h.Intn(h.ids)), Properties: props, Geom: gm}
}

// small is a geometry of a few coordinates.
func (h *rhist) small(k int) geo.Geometry {
	n := 1 + h.Intn(4)
	switch k {
	case 1:
		return geo.MultiPoint(h.pts(n, h.g))
	case 2:
		return geo.LineString(h.pts(n, h.g))
	case 3:
		return geo.MultiLineString{h.pts(n, h.g), h.pts(1+h.Intn(3), h.g)}
	case 4:
		return geo.Polygon{h.closed(n, h.g)}
	case 5:
		return geo.MultiPolygon{{h.closed(n, h.g)}, {h.closed(n, h.g)}}
	case 6:
		return geo.PointZ{X: h.g(), Y: h.g(), Z: h.g()}
	case 7:
		return geo.MultiPointZ(h.ptsZ(n, h.g))
	case 8:
		return geo.LineStringZ(h.ptsZ(n, h.g))
	case 9:
		return geo.MultiLineStringZ{h.ptsZ(n, h.g)}
	case 10:
		return geo.PolygonZ{h.closedZ(n, h.g)}
	case 11:
		return geo.MultiPolygonZ{{h.closedZ(n, h.g)}}
	}
	return geo.Point{X: h.g(), Y: h.g()}
}

func clone(g geo.Geometry) geo.Geometry {
	switch g := g.(type) {
	case geo.MultiPoint:
		return append(geo.MultiPoint(nil), g...)
	case geo.LineString:
		return append(geo.LineString(nil), g...)
	case geo.LineStringZ:
		return append(geo.LineStringZ(nil), g...)
	case geo.MultiPointZ:
		return append(geo.MultiPointZ(nil), g...)
	case geo.Polygon:
		r := make(geo.Polygon, len(g))
		for i := range g {
			r[i] = append(geo.LinearRing(nil), g[i]...)
		}
		return r
	}
	return g
}

func (h *rhist) step(s string, a ...interface{}) {
	if h.verbose {
		h.In(fmt.Sprintf("step%d", len(h.steps)), fmt.Sprintf(s, a...))
		h.steps = append(h.steps, "")
	}
}

func spStr(s geo.Spatial) string {
	return fmt.Sprintf("%s/%v/%T%v", s.ID, s.Properties, s.Geom, s.Geom)
}

func keys(l []geo.Spatial) string {
	k := make([]string, len(l))
	for i, s := range l {
		k[i] = spStr(s)
	}
	sort.Strings(k)
	return strings.Join(k, "\n")
}

func (h *rhist) sameSet(got, want []geo.Spatial, what string) {
	if len(got) == len(want) && keys(got) == keys(want) {
		return
	}
	h.Fail("%s returns %d objects:\n%s\nwant %d:\n%s\nstored: %d", what, len(got), keys(got), len(want), keys(want), len(h.objs))
}

func (h *rhist) build() {
	var init []geo.Spatial
	n := 0
	switch h.Intn(8) {
	case 0, 1, 2:
	case 3, 4:
		n = h.Intn(12)
	case 5, 6:
		n = h.Intn(60)
	default:
		n = h.N(0, 300)
	}
	for i := 0; i < n; i++ {
		o := h.obj()
		init = append(init, o)
		h.objs = append(h.objs, o)
	}
	given := append([]geo.Spatial(nil), init...)
	if h.Intn(5) == 0 {
		h.step("NewTree(%d objects: %s)", n, keys(init))
		if h.bool() {
			h.tree = geo.NewTree(init...)
		} else {
			h.tree = geo.NewTreeWith(init...)
		}
	} else {
		mx := 2 + h.Intn(3)
		if h.Intn(3) == 0 {
			mx = 2 + h.Intn(12)
		}
		mn := 1 + h.Intn(mx/2)
		h.step("NewMinMaxTree(%d, %d, %d objects: %s)", mn, mx, n, keys(init))
		h.tree = geo.NewMinMaxTree(mn, mx, init...)
	}
	h.Check(reflect.DeepEqual(given, init), "building the tree changed the given objects")
	h.mix(uint64(n))
}

// rtree drives a history; after each step check is called.
func rtree(h *H, intCoords bool, check func(h *rhist, last string)) {
	r := &rhist{H: h, ids: 1 + h.Intn(40), kinds: h.Intn(3)}
	switch h.Intn(4) {
	case 0:
		r.g = func() float64 { return h.I(3) }
	case 1:
		r.g = func() float64 { return h.I(20) }
	default:
		if intCoords {
			r.g = func() float64 { return h.I(500) }
		} else {
			r.g = h.coords()
		}
	}
	r.build()
	check(r, "build")
	steps := h.N(1, 60)
	if h.Intn(12) == 0 {
		steps = 50 + h.Intn(150)
	}
	pDel := []int{1, 3, 5, 7}[h.Intn(4)]
	drain := h.Intn(3) == 0
	for i := 0; i < steps || drain && len(r.objs) > 0; i++ {
		last := ""
		switch op := h.Intn(10); {
		case op < pDel || i >= steps: // delete
			switch h.Intn(6) {
			case 0, 1, 2:
				if len(r.objs) == 0 {
					continue
				}
				at := h.Intn(len(r.objs))
				o := r.objs[at]
				o.Geom = clone(o.Geom)
				r.step("Delete(%s)", spStr(o))
				ok := r.tree.Delete(o)
				h.Check(ok, "Delete of the stored object %s returns false", spStr(o))
				r.remove(at)
				last = "delete"
			case 3: // absent: a stored one changed in one field, or a fresh one
				o := r.obj()
				if len(r.objs) > 0 && h.bool() {
					o = r.objs[h.Intn(len(r.objs))]
					switch h.Intn(3) {
					case 0:
						o.ID += "x"
					case 1:
						o.Properties = -1
					default:
						o.Geom = geo.Point{X: r.g(), Y: r.g()}
					}
				}
				at := -1
				for j := range r.objs {
					if reflect.DeepEqual(r.objs[j], o) {
						at = j
					}
				}
				r.step("Delete(%s)", spStr(o))
				ok := r.tree.Delete(o)
				h.Check(ok == (at >= 0), "Delete of %s returns %v; stored: %v", spStr(o), ok, at >= 0)
				if at >= 0 {
					r.remove(at)
				}
				last = "delete"
			default:
				id := fmt.Sprint("id", h.Intn(r.ids+1))
				if len(r.objs) > 0 && h.bool() {
					id = r.objs[h.Intn(len(r.objs))].ID
				}
				had := r.removeID(id)
				r.step("DeleteBySpatialID(%q)", id)
				ok := r.tree.DeleteBySpatialID(id)
				h.Check(ok == had, "DeleteBySpatialID(%q) returns %v, want %v", id, ok, had)
				last = "deleteid"
			}
		case op < 9:
			o := r.obj()
			r.step("Insert(%s)", spStr(o))
			r.tree.Insert(o)
			r.objs = append(r.objs, o)
			last = "insert"
		default:
			var os []geo.Spatial
			for k := 1 + h.Intn(2); k > 0; k-- {
				os = append(os, r.obj())
			}
			r.step("UpsertBySpatialID(%s)", keys(os))
			r.tree.UpsertBySpatialID(os...)
			for _, o := range os {
				r.removeID(o.ID)
				r.objs = append(r.objs, o)
			}
			last = "upsert"
		}
		check(r, last)
	}
	if len(r.objs) > 0 || r.serial > 3 {
		h.NonTrivial()
	}
	h.mix(uint64(r.serial*1000 + len(r.objs)))
}

func (h *rhist) remove(at int) {
	h.objs = append(h.objs[:at:at], h.objs[at+1:]...)
}

func (h *rhist) removeID(id string) bool {
	var keep []geo.Spatial
	for _, o := range h.objs {
		if o.ID != id {
			keep = append(keep, o)
		}
	}
	had := len(keep) < len(h.objs)
	h.objs = keep
	return had
}

func (h *rhist) window() geo.Box {
	switch h.Intn(5) {
	case 0:
		return geo.Box{MinX: -math.MaxFloat64, MinY: -math.MaxFloat64, MaxX: math.MaxFloat64, MaxY: math.MaxFloat64}
	case 1:
		if len(h.objs) > 0 { // touching a stored object
			b := mbr(h.objs[h.Intn(len(h.objs))].Geom)
			switch h.Intn(4) {
			case 0:
				return geo.Box{MinX: b.MaxX, MinY: b.MinY, MaxX: b.MaxX + 1, MaxY: b.MaxY}
			case 1:
				return geo.Box{MinX: b.MinX, MinY: b.MaxY, MaxX: b.MaxX, MaxY: b.MaxY + 1}
			case 2:
				return geo.Box{MinX: b.MinX - 1, MinY: b.MinY - 1, MaxX: b.MinX, MaxY: b.MinY}
			}
			return b
		}
	}
	x, y, w, v := h.g(), h.g(), h.g(), h.g()
	return geo.Box{MinX: math.Min(x, w), MaxX: math.Max(x, w), MinY: math.Min(y, v), MaxY: math.Max(y, v)}
}

func TestC13(t *testing.T) {
	drive(t, "C13", "histories with at least one stored object", 16000, 400000, func(h *H) {
		rtree(h, false, func(r *rhist, last string) {
			for k := 0; k < 1+h.Intn(2); k++ {
				w := r.window()
				var want, wantC []geo.Spatial
				mod := 2 + h.Intn(3)
				even := func(o geo.Spatial) bool { return len(spStr(o))%mod == 0 }
				for _, o := range r.objs {
					if meets(mbr(o.Geom), w) {
						want = append(want, o)
						if even(o) {
							wantC = append(wantC, o)
						}
					}
				}
				arg := w
				r.step("SearchIntersect(%v)", w)
				r.sameSet(r.tree.SearchIntersect(&arg), want, fmt.Sprintf("SearchIntersect(%v)", w))
				cond := func(os ...geo.Spatial) bool { return len(os) == 1 && even(os[0]) }
				r.sameSet(r.tree.SearchIntersectWithCond(&arg, cond), wantC, fmt.Sprintf("SearchIntersectWithCond(%v)", w))
				h.Check(arg == w, "a search changed its window")
				if h.Intn(3) == 0 {
					h.Check(len(r.tree.SearchIntersect(nil)) == 0, "a nil window intersects nothing")
				}
			}
			id := fmt.Sprint("id", h.Intn(r.ids))
			var want []geo.Spatial
			for _, o := range r.objs {
				if o.ID == id {
					want = append(want, o)
				}
			}
			r.sameSet(r.tree.SearchBySpatialID(id), want, fmt.Sprintf("SearchBySpatialID(%q)", id))
			if h.Intn(4) == 0 {
				h.Check(r.tree.Size() == len(r.objs), "size %d after a search, stored %d", r.tree.Size(), len(r.objs))
			}
		})
	})
}

func TestC14(t *testing.T) {
	all := geo.Box{MinX: -math.MaxFloat64, MinY: -math.MaxFloat64, MaxX: math.MaxFloat64, MaxY: math.MaxFloat64}
	drive(t, "C14", "histories with at least one stored object", 16000, 400000, func(h *H) {
		rtree(h, false, func(r *rhist, last string) {
			h.Check(r.tree.Size() == len(r.objs), "Size() = %d after %s, stored %d", r.tree.Size(), last, len(r.objs))
			w := all
			if last != "insert" || h.Intn(4) == 0 {
				r.sameSet(r.tree.SearchIntersect(&w), r.objs, "a search of the whole plane after "+last)
			}
			if len(r.objs) > 0 { // reachable through its own box and id
				o := r.objs[h.Intn(len(r.objs))]
				b := mbr(o.Geom)
				found, foundID := false, false
				for _, s := range r.tree.SearchIntersect(&b) {
					found = found || reflect.DeepEqual(s, o)
				}
				for _, s := range r.tree.SearchBySpatialID(o.ID) {
					foundID = foundID || reflect.DeepEqual(s, o)
				}
				h.Check(found && foundID, "stored object %s is found by window: %v, by id: %v", spStr(o), found, foundID)
			}
		})
	})
}

func boxDist(p geo.Point, b geo.Box) *big.Float {
	d := func(v, lo, hi float64) *big.Float {
		r := new(big.Float).SetPrec(2000)
		if v < lo {
			r.Sub(new(big.Float).SetPrec(2000).SetFloat64(lo), new(big.Float).SetPrec(2000).SetFloat64(v))
		} else if v > hi {
			r.Sub(new(big.Float).SetPrec(2000).SetFloat64(v), new(big.Float).SetPrec(2000).SetFloat64(hi))
		}
		return r.Mul(r, r)
	}
	x, y := d(p.X, b.MinX, b.MaxX), d(p.Y, b.MinY, b.MaxY)
	return x.Add(x, y)
}

func TestC15(t *testing.T) {
	drive(t, "C15", "histories with at least one stored object", 10000, 200000, func(h *H) {
		rtree(h, true, func(r *rhist, last string) {
			if h.Intn(3) != 0 {
				return
			}
			p := geo.Point{X: r.g(), Y: r.g()}
			if h.Intn(4) == 0 {
				p.X += 0.5
			}
			n := len(r.objs)
			k := []int{0, 1, 2, n / 2, n, n + 1, n + 50, h.Intn(n + 2)}[h.Intn(8)]
			r.step("NearestNeighbors(%d, %v)", k, p)
			got := r.tree.NearestNeighbors(k, p)
			h.Check(len(got) == min(k, n), "NearestNeighbors(%d, %v) returns %d of %d objects", k, p, len(got), n)
			// exact integer coordinates: distances are exact
			d := func(o geo.Spatial) float64 {
				f, _ := boxDist(p, mbr(o.Geom)).Float64()
				return f
			}
			stored := map[string]int{}
			var ds []float64
			for _, o := range r.objs {
				stored[spStr(o)]++
				ds = append(ds, d(o))
			}
			sort.Float64s(ds)
			for i, o := range got {
				s := spStr(o)
				stored[s]--
				h.Check(stored[s] >= 0, "NearestNeighbors(%d, %v) result %d (%s) is not stored (that often)", k, p, i, s)
				h.Check(d(o) == ds[i], "NearestNeighbors(%d, %v): result %d has squared distance %v, the %d. nearest stored object has %v", k, p, i, d(o), i, ds[i])
			}
			h.Check(r.tree.Size() == n, "the query changed the size from %d to %d", n, r.tree.Size())
			if h.Intn(3) == 0 {
				w := geo.Box{MinX: -math.MaxFloat64, MinY: -math.MaxFloat64, MaxX: math.MaxFloat64, MaxY: math.MaxFloat64}
				r.sameSet(r.tree.SearchIntersect(&w), r.objs, "a search after the query")
			}
		})
	})
}
