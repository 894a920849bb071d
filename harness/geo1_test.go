package verifharness

import (
	"math"
	"testing"

	geo "github.com/hzw456/go-geo"
)

type otherGeom struct{ X, Y float64 }

func (otherGeom) Type() geo.GeometryType { return geo.GEOMETRY_POLYGON }

func (h *H) anyCoord() gen {
	g := h.coords()
	if h.Intn(5) == 0 {
		return func() float64 {
			if h.Intn(4) == 0 {
				return h.note([]float64{math.MaxFloat64, -math.MaxFloat64, 1e300, -1e300, 5e-324, 1 << 31, -(1 << 31), math.Inf(1), math.Inf(-1), 1e15}[h.Intn(10)])
			}
			return g()
		}
	}
	if h.Intn(4) == 0 {
		o := []float64{1e10, -1e10, 1e100, -1e100, 1 << 40}[h.Intn(5)]
		return func() float64 { return h.note(o * (1 + h.Float64())) }
	}
	return g
}

func TestC01(t *testing.T) {
	drive(t, "C01", "random geometries of every kind (coordinates of any magnitude incl. infinities, duplicates, literals of the code); box compared with the minimum and maximum over the flattened coordinates, and the geometry compared with a copy; non-trivial: a kind with box support with at least two different positions",
		600000, 30000000, func(h *H) {
			g := h.anyCoord()
			k := h.Intn(nKinds)
			gm := h.geom(k, g)
			if ml, ok := gm.(geo.MultiLineString); ok && h.bool() {
				i := h.Intn(len(ml) + 1)
				ml = append(ml[:i:i], append(geo.MultiLineString{geo.LineString{}}, ml[i:]...)...)
				gm = ml
			}
			if mp, ok := gm.(geo.MultiPolygon); ok && h.Intn(4) == 0 {
				gm = append(mp, geo.Polygon{})
			}
			h.In("geometry", gm)
			before := nest(gm)
			box := geo.BoundingBox(gm)
			h.Check(same(before, nest(gm), false), "BoundingBox modified the geometry")
			h.Check(box != nil, "nil box")
			if k >= 6 {
				h.Check(*box == geo.Box{}, "kind without box support has box %v", *box)
				return
			}
			var ref interface{} = before
			if p, ok := gm.(geo.Polygon); ok {
				ref = nest(geo.LineString(p[0]))
			}
			mn := []float64{math.Inf(1), math.Inf(1)}
			mx := []float64{math.Inf(-1), math.Inf(-1)}
			i := 0
			flat(ref, func(f float64) {
				mn[i%2] = math.Min(mn[i%2], f)
				mx[i%2] = math.Max(mx[i%2], f)
				i++
			})
			if i > 2 {
				h.NonTrivial()
			}
			h.Check(box.MinX == mn[0] && box.MinY == mn[1] && box.MaxX == mx[0] && box.MaxY == mx[1],
				"box %v, smallest and largest coordinates are %v %v", *box, mn, mx)
			if h.Intn(20) == 0 {
				h.Check(*geo.BoundingBox(nil) == geo.Box{}, "nil geometry has a box")
				h.Check(*geo.BoundingBox(otherGeom{1, 2}) == geo.Box{}, "unsupported geometry has a box")
			}
		})
}

func (h *H) box(g gen, ordered bool) geo.Box {
	b := geo.Box{MinX: g(), MinY: g(), MaxX: g(), MaxY: g()}
	if ordered {
		if b.MinX > b.MaxX {
			b.MinX, b.MaxX = b.MaxX, b.MinX
		}
		if b.MinY > b.MaxY {
			b.MinY, b.MaxY = b.MaxY, b.MinY
		}
	}
	return b
}

func TestC02(t *testing.T) {
	drive(t, "C02", "random boxes on small grids and of any magnitude (touching, nested, degenerate, unordered for the purely arithmetic operations), lists of 0..100 boxes; oracle: interval arithmetic written independently; non-trivial: ordered boxes",
		2000000, 60000000, func(h *H) {
			g := h.coords()
			if h.Intn(3) == 0 {
				g = h.anyCoord()
			}
			ordered := h.Intn(4) > 0
			a, b := h.box(g, ordered), h.box(g, ordered)
			p := geo.Point{X: g(), Y: g()}
			if h.Intn(4) == 0 {
				b.MinX = a.MaxX
				if b.MaxX < b.MinX {
					b.MaxX = b.MinX
				}
			}
			if h.Intn(4) == 0 {
				p.X = a.MinX
			}
			if h.Intn(4) == 0 {
				p.Y = a.MaxY
			}
			h.In("a", a)
			h.In("b", b)
			h.In("p", p)
			a0, b0 := a, b
			inter := func(l1, u1, l2, u2 float64) bool { return math.Max(l1, l2) <= math.Min(u1, u2) }
			if ordered {
				h.NonTrivial()
				want := inter(a.MinX, a.MaxX, b.MinX, b.MaxX) && inter(a.MinY, a.MaxY, b.MinY, b.MaxY)
				h.Check(a.Intersect(&b) == want, "Intersect = %v, boxes share a point: %v", !want, want)
				h.Check(b.Intersect(&a) == want, "Intersect (swapped) = %v, boxes share a point: %v", !want, want)
			}
			var nb *geo.Box
			h.Check(!nb.Intersect(&a) && !a.Intersect(nil) && !nb.Intersect(nil), "a nil box intersects")
			want := a.MinX <= b.MinX && a.MinY <= b.MinY && b.MaxX <= a.MaxX && b.MaxY <= a.MaxY
			h.Check(a.Contain(&b) == want, "Contain = %v", !want)
			h.Check(a.Contain(&a), "a box does not contain itself")
			want = a.MinX <= p.X && p.X <= a.MaxX && a.MinY <= p.Y && p.Y <= a.MaxY
			h.Check(geo.IsPointInBox(&a, p) == want, "IsPointInBox = %v", !want)
			u := a.Union(&b)
			h.Check(u.MinX == math.Min(a.MinX, b.MinX) && u.MinY == math.Min(a.MinY, b.MinY) &&
				u.MaxX == math.Max(a.MaxX, b.MaxX) && u.MaxY == math.Max(a.MaxY, b.MaxY), "Union = %v", *u)
			s, ws := a.Size(), (a.MaxX-a.MinX)*(a.MaxY-a.MinY)
			h.Check(near(s, ws, 1e-12, 0), "Size = %v want %v", s, ws)
			n := h.N(0, 100)
			boxes := make([]*geo.Box, n)
			ptrs := make([]*geo.Box, n)
			vals := make([]geo.Box, n)
			w := geo.Box{MinX: math.Inf(1), MinY: math.Inf(1), MaxX: math.Inf(-1), MaxY: math.Inf(-1)}
			for i := range boxes {
				c := h.box(g, ordered)
				boxes[i], ptrs[i], vals[i] = &c, &c, c
				if i > 0 && h.Intn(8) == 0 {
					boxes[i] = boxes[h.Intn(i)]
					ptrs[i], vals[i] = boxes[i], *boxes[i]
				}
				c = *boxes[i]
				w.MinX, w.MinY = math.Min(w.MinX, c.MinX), math.Min(w.MinY, c.MinY)
				w.MaxX, w.MaxY = math.Max(w.MaxX, c.MaxX), math.Max(w.MaxY, c.MaxY)
			}
			if n == 0 {
				w = geo.Box{}
			}
			h.In("boxes", vals)
			bu := geo.BoxUnion(boxes...)
			h.Check(*bu == w, "BoxUnion = %v want %v", *bu, w)
			for i := range boxes {
				h.Check(boxes[i] == ptrs[i] && *boxes[i] == vals[i], "BoxUnion modified operand %d", i)
			}
			h.Check(a == a0 && b == b0, "an operation modified its operand")
			nbx := geo.NewBox(a.MinX, a.MinY, a.MaxX, a.MaxY)
			h.Check(*nbx == a, "NewBox = %v", *nbx)
			rb := geo.NewRectBox(p, b.MaxX, b.MaxY)
			h.Check(eqN(rb.MinX, p.X-b.MaxX) && eqN(rb.MaxX, p.X+b.MaxX) && eqN(rb.MinY, p.Y-b.MaxY) && eqN(rb.MaxY, p.Y+b.MaxY), "NewRectBox = %v", *rb)
		})
}

func eqN(a, b float64) bool { return a == b || a != a && b != b }

const tol6 = 1e-6

func eq2(a, b geo.Point) bool { return math.Abs(a.X-b.X) < tol6 && math.Abs(a.Y-b.Y) < tol6 }
func eq3(a, b geo.PointZ) bool {
	return math.Abs(a.X-b.X) < tol6 && math.Abs(a.Y-b.Y) < tol6 && math.Abs(a.Z-b.Z) < tol6
}

// nudge moves a coordinate by about the tolerance.
func (h *H) nudge(f float64) float64 {
	d := []float64{0, 1e-6, 0.5e-6, 0.999e-6, 1.001e-6, 2e-6, 1e-5, 1e-7, 1, 0.1}[h.Intn(10)]
	if h.bool() {
		d = -d
	}
	f += d
	if h.Intn(4) == 0 {
		f = math.Nextafter(f, math.Inf(h.Intn(2)*2-1))
	}
	return h.note(f)
}

func TestC03(t *testing.T) {
	drive(t, "C03", "point lists of 0..400 (2D and 3D) whose last point is the first, the first moved by about the tolerance, or unrelated, in slices with spare capacity; oracle: the list plus the first point when the ends differ; storage including spare capacity compared with a copy; non-trivial: at least two points",
		600000, 30000000, func(h *H) {
			g := h.coords()
			if h.bool() {
				n := h.N(0, 400)
				ps := h.pts(n, g)
				if n >= 2 {
					h.NonTrivial()
					switch h.Intn(4) {
					case 0:
						ps[n-1] = ps[0]
					case 1:
						ps[n-1] = geo.Point{X: h.nudge(ps[0].X), Y: h.nudge(ps[0].Y)}
					case 2:
						ps[n-1] = geo.Point{X: ps[0].X, Y: h.nudge(ps[0].Y)}
					}
				}
				h.In("points", ps)
				s := snap(ps)
				how := h.Intn(4)
				h.In("constructor", how)
				var r []geo.Point
				switch how {
				case 0:
					x := geo.NewLinearRing(ps...)
					if n < 2 {
						h.Check(x == nil, "ring from %d points", n)
						return
					}
					h.Check(x != nil, "no ring from %d points", n)
					r = *x
				case 1:
					x := geo.NewRingFromLine(ps)
					if n < 2 {
						h.Check(x == nil, "ring from %d points", n)
						return
					}
					h.Check(x != nil, "no ring from %d points", n)
					r = *x
				case 2:
					if n < 2 {
						return
					}
					r = geo.LineString(ps).ToRing()
				case 3:
					x := geo.NewPolygonFromPois(ps...)
					h.Check(x != nil, "no polygon")
					if n < 2 {
						h.Check(len(*x) == 0, "polygon with a ring from %d points", n)
						return
					}
					h.Check(len(*x) == 1, "%d rings", len(*x))
					r = (*x)[0]
				}
				want := append([]geo.Point(nil), s[:n]...)
				if !eq2(want[0], want[n-1]) {
					want = append(want, want[0])
				}
				h.Check(samePts(r, want), "ring %v want %v", r, want)
				h.Check(eq2(r[0], r[len(r)-1]), "ring is not closed: %v", r)
				h.Check(unchanged(ps, s), "the points of the caller changed to %v", ps[:cap(ps)])
				// polygons built from several rings keep them in order
				if h.Intn(4) == 0 {
					q := geo.NewPolygon(geo.LinearRing(r), geo.LinearRing(ps))
					h.Check(len(*q) == 2 && samePts((*q)[0], want) && samePts((*q)[1], s[:n]), "NewPolygon = %v", *q)
				}
				return
			}
			n := h.N(2, 400)
			h.NonTrivial()
			ps := h.ptsZ(n, g)
			switch h.Intn(5) {
			case 0:
				ps[n-1] = ps[0]
			case 1:
				ps[n-1] = geo.PointZ{X: h.nudge(ps[0].X), Y: h.nudge(ps[0].Y), Z: h.nudge(ps[0].Z)}
			case 2:
				ps[n-1] = geo.PointZ{X: ps[0].X, Y: ps[0].Y, Z: h.nudge(ps[0].Z)}
			case 3:
				ps[n-1] = geo.PointZ{X: ps[0].X, Y: h.nudge(ps[0].Y), Z: ps[0].Z}
			}
			h.In("points", ps)
			s := snapZ(ps)
			how := h.Intn(4)
			h.In("constructor", how)
			var r []geo.PointZ
			switch how {
			case 0:
				r = *geo.NewLinearRingZ(ps...)
			case 1:
				r = *geo.NewRingFromLineZ(ps)
			case 2:
				r = geo.LineStringZ(ps).ToRing()
			case 3:
				x := geo.NewPolygonZFromPois(ps...)
				h.Check(len(*x) == 1, "%d rings", len(*x))
				r = (*x)[0]
			}
			want := append([]geo.PointZ(nil), s[:n]...)
			if !eq3(want[0], want[n-1]) {
				want = append(want, want[0])
			}
			h.Check(samePtsZ(r, want), "ring %v want %v", r, want)
			h.Check(samePtsZ(ps[:cap(ps)], s), "the points of the caller changed to %v", ps[:cap(ps)])
		})
}

func TestC04(t *testing.T) {
	drive(t, "C04", "histories of up to 30 edits (append, set, insert, delete, reverse, split, lookups; positions inside, at the end and outside) on lines of 0..300 points, 2D and 3D; oracle: a list model; non-trivial: at least one edit of a line with two or more points",
		600000, 40000000, func(h *H) {
			g := h.coords()
			n := h.N(0, 300)
			if h.Intn(4) == 0 {
				ps := h.ptsZ(n, g)
				m := append([]geo.PointZ(nil), ps...)
				h.In("line", ps)
				line := geo.LineStringZ(ps)
				for i := h.Intn(6); i >= 0; i-- {
					if h.bool() {
						p := geo.PointZ{X: g(), Y: g(), Z: g()}
						h.In("append", p)
						h.Check(line.Append(p) == nil, "Append failed")
						m = append(m[:len(m):len(m)], p)
					} else {
						h.In("reverse", nil)
						line.Reverse()
						for a, b := 0, len(m)-1; a < b; a, b = a+1, b-1 {
							m[a], m[b] = m[b], m[a]
						}
					}
					if len(m) > 1 {
						h.NonTrivial()
					}
					h.Check(samePtsZ(line, m), "line is %v want %v", line, m)
					f, e := line.GetFirstPoint(), line.GetEndPoint()
					if len(m) < 2 {
						h.Check(f == geo.PointZ{} && e == geo.PointZ{}, "end points of a short line: %v %v", f, e)
					} else {
						h.Check(samePtsZ([]geo.PointZ{f, e}, []geo.PointZ{m[0], m[len(m)-1]}), "end points %v %v of %v", f, e, m)
					}
				}
				return
			}
			ps := h.pts(n, g)
			m := append([]geo.Point(nil), ps...)
			h.In("line", ps)
			line := geo.LineString(ps)
			if h.bool() {
				line = *geo.NewLineString(ps...)
				h.Check(samePts(line, m), "NewLineString = %v", line)
			}
			for i := 1 + h.Intn(30); i > 0; i-- {
				pos := h.Intn(len(m)+3) - 1
				switch h.Intn(12) {
				case 0:
					pos = len(m)
				case 1:
					pos = len(m) - 1
				case 2:
					pos = 0
				case 3:
					pos = []int{-1, -2, len(m) + 1, len(m) + 7, math.MinInt, math.MaxInt, -1000}[h.Intn(7)]
				}
				p := geo.Point{X: g(), Y: g()}
				if len(m) > 1 {
					h.NonTrivial()
				}
				op := h.Intn(8)
				if h.verbose {
					h.In("op", []interface{}{[]string{"append", "set", "insert", "delete", "reverse", "split", "get", "ends"}[op], pos, p})
				}
				switch op {
				case 0:
					h.Check(line.Append(p) == nil, "Append failed")
					m = append(m[:len(m):len(m)], p)
				case 1:
					err := line.SetPoint(pos, p)
					if pos < 0 || pos > len(m) {
						h.Check(err != nil, "SetPoint outside the line succeeded")
					} else {
						h.Check(err == nil, "SetPoint failed")
						if pos == len(m) {
							m = append(m[:len(m):len(m)], p)
						} else {
							m[pos] = p
						}
					}
				case 2:
					err := line.InsertPoint(pos, p)
					if pos < 0 || pos > len(m) {
						h.Check(err != nil, "InsertPoint outside the line succeeded")
					} else {
						h.Check(err == nil, "InsertPoint failed")
						m = append(append(append([]geo.Point(nil), m[:pos]...), p), m[pos:]...)
					}
				case 3:
					err := line.DelPoint(pos)
					if pos < 0 || pos >= len(m) {
						h.Check(err != nil, "DelPoint outside the line succeeded")
					} else {
						h.Check(err == nil, "DelPoint failed")
						m = append(append([]geo.Point(nil), m[:pos]...), m[pos+1:]...)
					}
				case 4:
					line.Reverse()
					for a, b := 0, len(m)-1; a < b; a, b = a+1, b-1 {
						m[a], m[b] = m[b], m[a]
					}
				case 5:
					a, b := line.SplitByIndex(pos)
					if pos < 0 || pos >= len(m) {
						h.Check(len(a) == 0 && len(b) == 0, "split outside the line: %v %v", a, b)
						break
					}
					h.Check(samePts(a, m[:pos+1]) && samePts(b, m[pos:]), "split of %v at %d: %v %v", m, pos, a, b)
					b0 := append([]geo.Point(nil), b...)
					a.Append(p)
					h.Check(samePts(a, append(append([]geo.Point(nil), m[:pos+1]...), p)), "append after split: %v", a)
					h.Check(samePts(b, b0), "appending to the first half changed the second: %v want %v", b, b0)
					h.Check(samePts(line, m), "appending to the first half changed the line: %v want %v", line, m)
					if h.bool() {
						line, m = b, append([]geo.Point(nil), b...)
					}
				case 6:
					q := line.GetPoint(pos)
					if pos < 0 || pos >= len(m) {
						h.Check(q == nil, "GetPoint outside the line: %v", q)
					} else {
						h.Check(q != nil && samePts([]geo.Point{*q}, m[pos:pos+1]), "GetPoint(%d) of %v: %v", pos, m, q)
					}
				case 7:
					f, e := line.GetFirstPoint(), line.GetEndPoint()
					if len(m) < 2 {
						h.Check(f == nil && e == nil, "end points of a short line: %v %v", f, e)
					} else {
						h.Check(f != nil && e != nil && samePts([]geo.Point{*f, *e}, []geo.Point{m[0], m[len(m)-1]}), "end points %v %v of %v", f, e, m)
					}
				}
				h.Check(samePts(line, m), "line is %v want %v", line, m)
			}
		})
}

func (h *H) tolPoint(p geo.PointZ) geo.PointZ {
	switch h.Intn(6) {
	case 0:
		return p
	case 1:
		return geo.PointZ{X: h.nudge(p.X), Y: h.nudge(p.Y), Z: h.nudge(p.Z)}
	case 2:
		return geo.PointZ{X: h.nudge(p.X), Y: p.Y, Z: p.Z}
	case 3:
		return geo.PointZ{X: p.X, Y: h.nudge(p.Y), Z: p.Z}
	case 4:
		return geo.PointZ{X: p.X, Y: p.Y, Z: h.nudge(p.Z)}
	}
	if h.Intn(3) == 0 {
		p.X = h.note(math.NaN())
	}
	if h.Intn(3) == 0 {
		p.Y = h.note(math.NaN())
	}
	if h.Intn(3) == 0 {
		p.Z = h.note(math.NaN())
	}
	return p
}

func TestC05(t *testing.T) {
	drive(t, "C05", "pairs of points and lines differing by multiples of about the tolerance per axis, NaN coordinates, lines of different lengths; oracle: |difference| < 1e-6 on every axis; non-trivial: neither identical nor differing by more than 1",
		1500000, 60000000, func(h *H) {
			g := h.coords()
			z := func(p geo.PointZ) geo.Point { return geo.Point{X: p.X, Y: p.Y} }
			a := geo.PointZ{X: g(), Y: g(), Z: g()}
			b := h.tolPoint(a)
			if h.Intn(6) == 0 {
				a, b = b, a
			}
			h.In("a", a)
			h.In("b", b)
			if d := math.Max(math.Max(math.Abs(a.X-b.X), math.Abs(a.Y-b.Y)), math.Abs(a.Z-b.Z)); d > 0 && d < 0.01 {
				h.NonTrivial()
			}
			h.Check(a.Equal(b) == eq3(a, b), "PointZ.Equal = %v", !eq3(a, b))
			h.Check(b.Equal(a) == eq3(a, b), "PointZ.Equal (swapped) = %v", !eq3(a, b))
			h.Check(z(a).Equal(z(b)) == eq2(z(a), z(b)), "Point.Equal = %v", !eq2(z(a), z(b)))
			h.Check(z(b).Equal(z(a)) == eq2(z(a), z(b)), "Point.Equal (swapped) = %v", !eq2(z(a), z(b)))
			n := h.N(0, 300)
			l1 := h.ptsZ(n, g)
			l2 := append([]geo.PointZ(nil), l1...)
			for k := h.Intn(3); k > 0 && n > 0; k-- {
				i := h.Intn(n)
				if h.Intn(3) == 0 {
					i = n - 1
				}
				l2[i] = h.tolPoint(l2[i])
			}
			switch h.Intn(6) {
			case 0:
				l2 = append(l2, geo.PointZ{X: g(), Y: g(), Z: g()})
			case 1:
				if n > 0 {
					l2 = l2[:n-1]
				}
			case 2:
				l2 = l2[:h.Intn(n+1)]
			}
			h.In("l1", l1)
			h.In("l2", l2)
			w2, w3 := len(l1) == len(l2), len(l1) == len(l2)
			var p1, p2 geo.LineString
			for i := range l1 {
				p1 = append(p1, z(l1[i]))
				if w3 && !eq3(l1[i], l2[i]) {
					w3 = false
				}
				if w2 && !eq2(z(l1[i]), z(l2[i])) {
					w2 = false
				}
			}
			for i := range l2 {
				p2 = append(p2, z(l2[i]))
			}
			h.Check(geo.LineStringZ(l1).Equal(l2) == w3, "LineStringZ.Equal = %v", !w3)
			h.Check(geo.LineStringZ(l2).Equal(l1) == w3, "LineStringZ.Equal (swapped) = %v", !w3)
			h.Check(p1.Equal(p2) == w2, "LineString.Equal = %v", !w2)
			h.Check(p2.Equal(p1) == w2, "LineString.Equal (swapped) = %v", !w2)
		})
}

func euclid(a, b geo.Point) float64 { return math.Hypot(a.X-b.X, a.Y-b.Y) }

func haversine(a, b geo.Point) float64 {
	r := math.Pi / 180
	sa, sb := math.Sin((b.Y-a.Y)*r/2), math.Sin((b.X-a.X)*r/2)
	x := sa*sa + math.Cos(a.Y*r)*math.Cos(b.Y*r)*sb*sb
	return 2 * math.Atan2(math.Sqrt(x), math.Sqrt(math.Max(0, 1-x))) * 6371000
}

func dist(a, b geo.Point, s geo.SRID) float64 {
	if s == 4326 {
		return haversine(a, b)
	}
	return euclid(a, b)
}

func TestC06(t *testing.T) {
	drive(t, "C06", "pairs of points (lon/lat pairs incl. poles, antimeridian, antipodes; planar of any magnitude), every SRID class, lines of 0..300 points; oracle: haversine / hypot / sums with relative tolerance 1e-9 (1e-7 near the antipode); non-trivial: different points",
		1000000, 60000000, func(h *H) {
			g := h.coords()
			s := h.srid()
			h.In("srid", s)
			var a, b geo.Point
			if h.bool() {
				a = geo.Point{X: h.Range(-180, 180), Y: h.Range(-90, 90)}
				b = geo.Point{X: h.Range(-180, 180), Y: h.Range(-90, 90)}
				switch h.Intn(8) {
				case 0:
					b = geo.Point{X: a.X - 180, Y: -a.Y}
				case 1:
					b = geo.Point{X: h.nudge(a.X), Y: h.nudge(a.Y)}
				case 2:
					b.X = a.X
				case 3:
					b.Y = a.Y
				}
			} else {
				a, b = geo.Point{X: g(), Y: g()}, geo.Point{X: g(), Y: g()}
			}
			if h.Intn(10) == 0 {
				b = a
			}
			h.In("a", a)
			h.In("b", b)
			if a != b {
				h.NonTrivial()
			}
			// planar, squares must not overflow
			if math.Abs(a.X)+math.Abs(a.Y)+math.Abs(b.X)+math.Abs(b.Y) < 1e150 {
				w := euclid(a, b)
				for i, d := range []float64{a.Distance(b), b.Distance(a), geo.EuclideanDis(a, b), geo.EuclideanDistance(a, b)} {
					h.Check(near(d, w, 1e-9, 1e-150), "Euclidean distance %d is %v want %v", i, d, w)
					h.Check(d >= 0, "negative distance %v", d)
				}
				h.Check(geo.EuclideanDis(a, b) == geo.EuclideanDis(b, a), "EuclideanDis is not symmetric")
				h.Check(geo.EuclideanDistance(a, b) == geo.EuclideanDistance(b, a), "EuclideanDistance is not symmetric")
				h.Check(geo.EuclideanDis(a, a) == 0 && geo.EuclideanDistance(b, b) == 0, "distance to itself is not zero")
				if s != 4326 {
					d := geo.PointDistance(a, b, s)
					h.Check(near(d, w, 1e-9, 1e-150), "PointDistance = %v want %v", d, w)
				}
				az, bz := geo.PointZ{X: a.X, Y: a.Y, Z: g()}, geo.PointZ{X: b.X, Y: b.Y, Z: g()}
				h.In("z", []float64{az.Z, bz.Z})
				if math.Abs(az.Z)+math.Abs(bz.Z) < 1e150 {
					w, d := math.Hypot(w, az.Z-bz.Z), geo.EuclideanDisZ(az, bz)
					h.Check(near(d, w, 1e-9, 1e-150), "EuclideanDisZ = %v want %v", d, w)
					h.Check(d == geo.EuclideanDisZ(bz, az), "EuclideanDisZ is not symmetric")
					h.Check(geo.EuclideanDisZ(az, az) == 0, "EuclideanDisZ to itself is not zero")
				}
			}
			if math.Abs(a.X)+math.Abs(a.Y)+math.Abs(b.X)+math.Abs(b.Y) < 1000 {
				w := haversine(a, b)
				for i, d := range []float64{geo.CoordDistance(a, b), geo.PointDistance(a, b, 4326)} {
					h.Check(near(d, w, 1e-7, 10), "haversine distance %d is %v want %v", i, d, w)
				}
			}
			n := h.N(0, 300)
			l := h.pts(n, func() float64 {
				for {
					if f := g(); math.Abs(f) < 1e100 {
						return f
					}
				}
			})
			w := 0.0
			for i := 1; i < n; i++ {
				w += euclid(l[i-1], l[i])
			}
			sn := snap(l)
			h.In("line", l)
			d := geo.LineString(l).Length()
			h.Check(near(d, w, 1e-9, 1e-150), "Length = %v want %v", d, w)
			h.Check(unchanged(l, sn), "Length changed the line")
		})
}
