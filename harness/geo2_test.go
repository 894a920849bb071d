package verifharness

import (
	"math"
	"math/big"
	"testing"

	geo "github.com/hzw456/go-geo"
)

func cross(a, b, c geo.Point) float64 { return (b.X-a.X)*(c.Y-a.Y) - (c.X-a.X)*(b.Y-a.Y) }

// grid returns a source of exactly representable coordinates on which products stay exact.
func (h *H) grid() gen {
	r := []int{1, 2, 3, 5, 8, 20, 100}[h.Intn(7)]
	s := []float64{1, 1, 1, 0.5, 8, 64, 1024}[h.Intn(7)]
	o := []float64{0, 0, 0, 100, -1000, 4096}[h.Intn(6)]
	return func() float64 { return h.note(o + s*float64(h.Intn(2*r+1)-r)) }
}

// clampSeg is the closest point of the segment a-b to p, computed in high precision.
func clampSeg(p, a, b geo.Point) (x, y float64) {
	f := func(v float64) *big.Float { return new(big.Float).SetPrec(400).SetFloat64(v) }
	sub := func(u, v *big.Float) *big.Float { return new(big.Float).SetPrec(400).Sub(u, v) }
	mul := func(u, v *big.Float) *big.Float { return new(big.Float).SetPrec(400).Mul(u, v) }
	add := func(u, v *big.Float) *big.Float { return new(big.Float).SetPrec(400).Add(u, v) }
	dx, dy := sub(f(b.X), f(a.X)), sub(f(b.Y), f(a.Y))
	l := add(mul(dx, dx), mul(dy, dy))
	if l.Sign() == 0 {
		return a.X, a.Y
	}
	u := add(mul(sub(f(p.X), f(a.X)), dx), mul(sub(f(p.Y), f(a.Y)), dy))
	u.Quo(u, l)
	if u.Sign() < 0 {
		return a.X, a.Y
	}
	if u.Cmp(f(1)) > 0 {
		return b.X, b.Y
	}
	x, _ = add(f(a.X), mul(u, dx)).Float64()
	y, _ = add(f(a.Y), mul(u, dy)).Float64()
	return
}

func maxAbs(ps ...geo.Point) float64 {
	m := 0.0
	for _, p := range ps {
		m = math.Max(m, math.Max(math.Abs(p.X), math.Abs(p.Y)))
	}
	return m
}

// mid is a coordinate source of moderate magnitude.
func (h *H) mid() gen {
	if h.Intn(3) == 0 {
		return h.grid()
	}
	g := h.coords()
	return func() float64 {
		for {
			if f := g(); math.Abs(f) < 1e7 {
				return f
			}
		}
	}
}

func (h *H) lonlat() gen {
	i := 0
	return func() float64 {
		i++
		if i%2 == 1 {
			return h.Range(-180, 180)
		}
		return h.Range(-90, 90)
	}
}

func TestC07(t *testing.T) {
	drive(t, "C07", "query points with segments, lines of 0..60 points and polygons on exact grids and of moderate magnitude, also degenerate segments, points on segments and at ends; oracle: closest point by clamped projection in 400-bit arithmetic, distances recomputed under the SRID, argmin over segments; non-trivial: a segment with different ends",
		250000, 12000000, func(h *H) {
			g := h.mid()
			s := h.srid()
			if s == 4326 {
				g = h.lonlat()
				if h.bool() {
					o := geo.Point{X: h.Range(-179, 179), Y: h.Range(-89, 89)}
					i := 0
					g = func() float64 {
						i++
						if i%2 == 1 {
							return h.note(o.X + h.Float64()*0.01)
						}
						return h.note(o.Y + h.Float64()*0.01)
					}
				}
			}
			p, a, b := geo.Point{X: g(), Y: g()}, geo.Point{X: g(), Y: g()}, geo.Point{X: g(), Y: g()}
			switch h.Intn(10) {
			case 0:
				b = a
			case 1:
				p = a
			case 2:
				p = b
			case 3:
				p = geo.Point{X: a.X + (b.X-a.X)/2, Y: a.Y + (b.Y-a.Y)/2}
			case 4:
				b.X = a.X
			case 5:
				b.Y = a.Y
			}
			h.In("srid", s)
			h.In("point", p)
			h.In("a", a)
			h.In("b", b)
			m := maxAbs(p, a, b)
			if a != b {
				h.NonTrivial()
			}
			cx, cy := clampSeg(p, a, b)
			d, c := geo.PointToSegmentDistance(p, a, b, s)
			best := euclid(p, geo.Point{X: cx, Y: cy})
			l := euclid(a, b)
			// rounding of the foot grows with the distance over the length of the segment
			eps := 1e-9 * (m + best + 1e-9)
			cond := l > 1e-6*(m+best)
			if cond || l == 0 {
				onx, ony := clampSeg(c, a, b)
				h.Check(euclid(c, geo.Point{X: onx, Y: ony}) <= eps, "closest point %v is not on the segment", c)
				h.Check(euclid(p, c) <= best+eps, "closest point %v is at %v, the segment has a point at %v", c, euclid(p, c), best)
				w := dist(p, c, s)
				h.Check(near(d, w, 1e-7, 10*boolF(s == 4326)+1e-9*m), "reported distance %v, closest point %v is at %v", d, c, w)
			}
			if l > 0 && cond {
				d, f, u := geo.PointToLineDistance(p, a, b, s)
				lx, ly := a.X+u*(b.X-a.X), a.Y+u*(b.Y-a.Y)
				k := eps * (1 + math.Abs(u))
				h.Check(math.Abs(f.X-lx) <= k && math.Abs(f.Y-ly) <= k, "foot %v is not at parameter %v", f, u)
				dot := ((p.X-f.X)*(b.X-a.X) + (p.Y-f.Y)*(b.Y-a.Y)) / l
				h.Check(math.Abs(dot) <= 1e-7*(m+best)*(1+math.Abs(u)), "foot %v is not perpendicular (%v)", f, dot)
				w := dist(p, f, s)
				h.Check(near(d, w, 1e-7, 10*boolF(s == 4326)+1e-9*m), "distance to the line %v, foot %v is at %v", d, f, w)
			}
			n := h.N(0, 60)
			ln := h.pts(n, g)
			h.In("line", ln)
			sn := snap(ln)
			ct, idx, ds := geo.PointHitLineString(p, ln, s)
			bd, bi := math.Inf(1), -1
			var bc geo.Point
			for i := 0; i+1 < n; i++ {
				if d, c := geo.PointToSegmentDistance(p, ln[i], ln[i+1], s); d < bd {
					bd, bi, bc = d, i, c
				}
			}
			if bi >= 0 && bd < 1<<31 {
				h.Check(ds == bd && idx == bi && ct == bc, "nearest hit %v at %d, %v; first nearest segment is %d with %v at %v", ct, idx, ds, bi, bc, bd)
			}
			h.Check(unchanged(ln, sn), "line changed")
			if n >= 3 {
				r := geo.Polygon{append(ln[:n:n], ln[0])}
				if h.Intn(3) == 0 {
					r = append(r, h.closed(3, g))
				}
				h.In("polygon", r)
				d := geo.PointPolygonDistance(p, r, s)
				in := geo.IsPointInPolygon(p, r)
				w := 0.0
				if in != geo.RELA_CONTAIN && in != geo.RELA_TOUCH {
					w = math.Inf(1)
					for i := 0; i+1 < len(r[0]); i++ {
						x, _ := geo.PointToSegmentDistance(p, r[0][i], r[0][i+1], s)
						w = math.Min(w, x)
					}
				}
				if w < 1<<31 {
					h.Check(near(d, w, 1e-9, 0), "distance to the polygon %v want %v", d, w)
				}
			}
		})
}

func boolF(b bool) float64 {
	if b {
		return 1
	}
	return 0
}

func ratShoelace(r []geo.Point) *big.Rat {
	s := new(big.Rat)
	R := func(f float64) *big.Rat { return new(big.Rat).SetFloat64(f) }
	for i := 0; i+1 < len(r); i++ {
		s.Add(s, new(big.Rat).Mul(R(r[i].X), R(r[i+1].Y)))
		s.Sub(s, new(big.Rat).Mul(R(r[i].Y), R(r[i+1].X)))
	}
	return s
}

func TestC08(t *testing.T) {
	drive(t, "C08", "closed rings of 1..60 points on exact integer grids (exact comparison with rational shoelace sums) and of moderate magnitude (tolerance), multipolygons, multipoints; non-trivial: a ring with non-zero area",
		250000, 12000000, func(h *H) {
			exact := h.bool()
			g := h.grid()
			if !exact {
				g = h.mid()
			}
			mk := func() (geo.Polygon, *big.Rat) {
				p := geo.Polygon{h.closed(h.N(1, 60), g)}
				if h.Intn(5) == 0 {
					n := 3 + h.Intn(30) // star-shaped, regular
					var c []geo.Point
					for i := 0; i < n; i++ {
						a := 2 * math.Pi * float64(i) / float64(n)
						k := float64(1+h.Intn(50)) / 4
						c = append(c, geo.Point{X: math.Round(k * 64 * math.Cos(a)), Y: math.Round(k * 64 * math.Sin(a))})
						h.note(c[i].X)
						h.note(c[i].Y)
					}
					if h.bool() {
						for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
							c[i], c[j] = c[j], c[i]
						}
					}
					p[0] = append(c, c[0])
				}
				for i := h.Intn(3); i > 1; i-- {
					p = append(p, h.closed(3, g))
				}
				return p, ratShoelace(p[0])
			}
			p, sum := mk()
			h.In("polygon", p)
			before := nest(p)
			f, _ := sum.Float64()
			m := maxAbs(p[0]...)
			scale := m * m * float64(len(p[0]))
			tol := 1e-11
			if exact {
				tol = 0
			}
			if sum.Sign() != 0 {
				h.NonTrivial()
			}
			ar := geo.GetArea(p)
			h.Check(ar == math.Abs(f/2) || math.Abs(ar-math.Abs(f/2)) <= tol*scale, "area %v want %v", ar, math.Abs(f/2))
			if exact || math.Abs(f) > 1e-9*scale {
				h.Check(p.IsCCW() == (sum.Sign() > 0), "IsCCW = %v, shoelace sum %v", p.IsCCW(), f)
			}
			if exact && sum.Sign() == 0 {
				c := geo.Centroid(p)
				h.Check(math.IsNaN(c.X) && math.IsNaN(c.Y), "centroid %v of a zero-area polygon", c)
			}
			if math.Abs(f) > 1e-6*scale {
				var cx, cy float64
				R := func(f float64) *big.Rat { return new(big.Rat).SetFloat64(f) }
				sx, sy := new(big.Rat), new(big.Rat)
				r := p[0]
				for i := 0; i+1 < len(r); i++ {
					w := new(big.Rat).Sub(new(big.Rat).Mul(R(r[i].X), R(r[i+1].Y)), new(big.Rat).Mul(R(r[i+1].X), R(r[i].Y)))
					sx.Add(sx, new(big.Rat).Mul(w, new(big.Rat).Add(R(r[i].X), R(r[i+1].X))))
					sy.Add(sy, new(big.Rat).Mul(w, new(big.Rat).Add(R(r[i].Y), R(r[i+1].Y))))
				}
				k := new(big.Rat).Mul(sum, big.NewRat(3, 1))
				cx, _ = new(big.Rat).Quo(sx, k).Float64()
				cy, _ = new(big.Rat).Quo(sy, k).Float64()
				c := geo.Centroid(p)
				tc := 1e-11 * m * scale / math.Abs(f)
				h.Check(math.Abs(c.X-cx) <= tc && math.Abs(c.Y-cy) <= tc, "centroid %v want %v %v", c, cx, cy)
				c = geo.LinearCentroid(p[0])
				h.Check(math.Abs(c.X-cx) <= tc && math.Abs(c.Y-cy) <= tc, "ring centroid %v want %v %v", c, cx, cy)
			}
			var mp geo.MultiPolygon
			w, ms := 0.0, 0.0
			for i := h.N(0, 20); i > 0; i-- {
				q, s := mk()
				x, _ := s.Float64()
				w += math.Abs(x / 2)
				ms += maxAbs(q[0]...) * maxAbs(q[0]...) * float64(len(q[0]))
				mp = append(mp, q)
			}
			h.In("multipolygon", mp)
			ar = geo.GetArea(mp)
			h.Check(math.Abs(ar-w) <= 1e-11*ms, "multipolygon area %v want %v", ar, w)
			h.Check(near(geo.MultiPolyArea(mp), ar, 1e-12, 0), "MultiPolyArea differs from GetArea")
			h.Check(same(before, nest(p), false), "polygon modified")
			if h.Intn(4) == 0 {
				e := geo.Centroid(geo.Polygon{})
				h.Check(math.IsNaN(e.X) && math.IsNaN(e.Y), "centroid of the empty polygon %v", e)
				h.Check(geo.GetArea(geo.Polygon{}) == 0 && !geo.Polygon{}.IsCCW(), "area of the empty polygon")
				k := h.Intn(nKinds)
				if k != 4 && k != 5 {
					h.Check(geo.GetArea(h.geom(k, g)) == 0, "area of kind %d is not zero", k)
				}
			}
			n := h.N(1, 100)
			mpt := geo.MultiPoint(h.pts(n, g))
			h.In("multipoint", mpt)
			sx, sy := 0.0, 0.0
			for _, q := range mpt {
				sx += q.X
				sy += q.Y
			}
			c := geo.Centroid(mpt)
			mm := maxAbs(mpt...)
			h.Check(math.Abs(c.X-sx/float64(n)) <= 1e-11*mm && math.Abs(c.Y-sy/float64(n)) <= 1e-11*mm, "centroid of the points %v", c)
			q := geo.Centroid(mpt[0])
			h.Check(samePts([]geo.Point{q}, []geo.Point{mpt[0]}), "centroid of a point %v", q)
		})
}

func TestC09(t *testing.T) {
	drive(t, "C09", "3..200 points on integer grids (many duplicates and collinear points), on circles, and fewer than 3; exact orientation tests; non-trivial: a hull of at least three different points",
		300000, 15000000, func(h *H) {
			g := h.grid()
			n := h.N(0, 200)
			if h.Intn(3) == 0 {
				n = h.N(3, 25)
			}
			ps := make([]geo.Point, n, n+2)
			for i := range ps {
				ps[i] = geo.Point{X: g(), Y: g()}
			}
			if h.Intn(6) == 0 {
				for i := range ps {
					a := h.Float64() * 2 * math.Pi
					ps[i] = geo.Point{X: math.Round(1000 * math.Cos(a)), Y: math.Round(1000 * math.Sin(a))}
				}
			}
			if h.Intn(8) == 0 && n > 0 { // all on a line
				dx, dy := g(), g()
				for i := range ps {
					k := float64(h.Intn(9) - 4)
					ps[i] = geo.Point{X: ps[0].X + k*dx, Y: ps[0].Y + k*dy}
				}
			}
			if h.Intn(4) == 0 { // a power of two keeps the orientation tests exact
				sc := math.Ldexp(1, []int{-10, -16, -24, -40, 30}[h.Intn(5)])
				for i := range ps {
					ps[i].X *= sc
					ps[i].Y *= sc
				}
			}
			h.In("points", ps)
			s := snap(ps)
			hull := geo.ConvexHull(ps...)
			h.Check(unchanged(ps, s), "the points of the caller were changed to %v", ps)
			if n < 3 {
				h.Check(len(hull) == 0, "hull of %d points: %v", n, hull)
				return
			}
			wide := false
			for i := 1; i < n && !wide; i++ {
				for j := i + 1; j < n; j++ {
					if cross(ps[0], ps[i], ps[j]) != 0 {
						wide = true
						break
					}
				}
			}
			if len(hull) == 0 {
				h.Check(!wide, "no hull although three points are not on a line")
				return
			}
			h.NonTrivial()
			h.Check(len(hull) == 1, "%d rings", len(hull))
			r := hull[0]
			l := r[len(r)-1]
			if r[0] != l { // rings narrower than their closing tolerance
				h.Check(math.Abs(r[0].X-l.X) < 1e-6 && math.Abs(r[0].Y-l.Y) < 1e-6, "hull is not a closed ring: %v", r)
				r = append(append(geo.LinearRing(nil), r...), r[0])
			}
			h.Check(len(r) >= 3, "hull is not a ring: %v", r)
			set := map[geo.Point]bool{}
			for _, p := range ps {
				set[p] = true
			}
			for _, p := range r {
				h.Check(set[p], "vertex %v is no input point", p)
			}
			m := len(r) - 1
			for i := 0; i < m; i++ {
				a, b, c := r[i], r[i+1], r[(i+1)%m+1]
				h.Check(cross(a, b, c) >= 0, "hull turns right at %v %v %v: %v", a, b, c, r)
				for _, p := range ps {
					h.Check(cross(a, b, p) >= 0, "point %v is outside the edge %v %v of %v", p, a, b, r)
				}
			}
		})
}

func TestC10(t *testing.T) {
	drive(t, "C10", "lines of 2..60 points (random walks, zigzags, closed, repeated points, 4326 and planar) with thresholds from 0 to large; oracle: search for an embedding of the result as a subsequence with every dropped point within the threshold of its segment; non-trivial: something was dropped and something kept",
		120000, 6000000, func(h *H) {
			n := h.N(2, 60)
			s := h.srid()
			var g gen
			if s == 4326 {
				g = h.lonlat()
			} else {
				g = h.mid()
			}
			ps := h.pts(n, g)
			switch h.Intn(4) {
			case 0: // random walk
				for i := 1; i < n; i++ {
					ps[i] = geo.Point{X: ps[i-1].X + float64(h.Intn(5)-1)/4, Y: ps[i-1].Y + float64(h.Intn(5)-2)/4}
					h.note(ps[i].X)
					h.note(ps[i].Y)
				}
			case 1:
				ps[n-1] = ps[0]
			}
			th := []float64{0, 0.1, 0.5, 1, 2, 10, 1000, 1e6, math.Inf(1)}[h.Intn(9)]
			if h.Intn(3) == 0 && n > 2 {
				th, _ = geo.PointToSegmentDistance(ps[1+h.Intn(n-2)], ps[0], ps[n-1], s)
			}
			h.note(th)
			h.In("line", ps)
			h.In("threshold", th)
			h.In("srid", s)
			sn := snap(ps)
			r := geo.DouglasPeuckerSimplify(ps, th, s)
			h.Check(unchanged(ps, sn), "the line of the caller changed to %v", ps)
			h.In("result", r)
			h.Check(len(r) >= 2 && len(r) <= n, "%d points from %d", len(r), n)
			h.Check(samePts(r[:1], ps[:1]) && samePts(r[len(r)-1:], ps[n-1:]), "ends not kept: %v", r)
			if len(r) > 2 && len(r) < n {
				h.NonTrivial()
			}
			lim := th + 1e-7*(th+maxAbs(ps...)) + 1e-6*boolF(s == 4326)
			// ok[j]: r[0..k] can be embedded with r[k] at index j
			ok := map[int]bool{0: true}
			for k := 1; k < len(r); k++ {
				nx := map[int]bool{}
				for i := range ok {
					for j := i + 1; j < n; j++ {
						if ps[j] != r[k] || nx[j] {
							continue
						}
						good := true
						for d := i + 1; d < j && good; d++ {
							cx, cy := clampSegF(ps[d], ps[i], ps[j])
							good = dist(ps[d], geo.Point{X: cx, Y: cy}, s) <= lim
						}
						if good {
							nx[j] = true
						}
					}
				}
				ok = nx
			}
			h.Check(ok[n-1], "result %v is not a subsequence with every dropped point within the threshold", r)
		})
}

func clampSegF(p, a, b geo.Point) (float64, float64) {
	dx, dy := b.X-a.X, b.Y-a.Y
	l := dx*dx + dy*dy
	if l == 0 {
		return a.X, a.Y
	}
	u := math.Max(0, math.Min(1, ((p.X-a.X)*dx+(p.Y-a.Y)*dy)/l))
	return a.X + u*dx, a.Y + u*dy
}

func between(a, b, x float64) bool { return math.Min(a, b) <= x && x <= math.Max(a, b) }

func onSeg(a, b, p geo.Point) bool {
	return cross(a, b, p) == 0 && between(a.X, b.X, p.X) && between(a.Y, b.Y, p.Y)
}

// wide is a grid whose spacing is far above the tolerance of the library.
func (h *H) wideGrid() gen {
	r := []int{1, 2, 3, 5, 8, 16}[h.Intn(6)]
	s := []float64{1, 1, 1, 0.5, 8, 64}[h.Intn(6)]
	o := []float64{0, 0, 0, 100, -1024}[h.Intn(5)]
	return func() float64 { return h.note(o + s*float64(h.Intn(2*r+1)-r)) }
}

func inRing(r []geo.Point, p geo.Point) geo.GeometryRealation {
	in := false
	for i := 0; i+1 < len(r); i++ {
		a, b := r[i], r[i+1]
		if onSeg(a, b, p) {
			return geo.RELA_TOUCH
		}
		if (a.Y > p.Y) != (b.Y > p.Y) {
			// the crossing is right of p: cross product sign against the edge direction
			c := cross(a, b, p)
			if b.Y > a.Y && c > 0 || b.Y < a.Y && c < 0 {
				in = !in
			}
		}
	}
	if in {
		return geo.RELA_CONTAIN
	}
	return geo.RELA_DISJOINT
}

func TestC11(t *testing.T) {
	drive(t, "C11", "points against polygons of 1..60 vertices (simple, self-crossing, with repeated and collinear vertices, with holes) on grids where all orientation tests are exact and gaps exceed the 1e-6 tolerance, and against segments in both directions; oracle: exact crossing parity; non-trivial: contained or touching",
		600000, 30000000, func(h *H) {
			g := h.wideGrid()
			p := geo.Point{X: g(), Y: g()}
			a, b := geo.Point{X: g(), Y: g()}, geo.Point{X: g(), Y: g()}
			h.In("point", p)
			h.In("segment", []geo.Point{a, b})
			w := onSeg(a, b, p)
			h.Check(geo.IsPointOnSegment(a, b, p) == w, "IsPointOnSegment = %v", !w)
			h.Check(geo.IsPointOnSegment(b, a, p) == w, "IsPointOnSegment (reversed) = %v", !w)
			h.Check(geo.IsPointOnSegment(a, b, a) && geo.IsPointOnSegment(a, b, b), "an end is not on the segment")
			if h.Intn(6) == 0 {
				// half way points stay exact
				q := geo.Point{X: (a.X + b.X) / 2, Y: (a.Y + b.Y) / 2}
				h.Check(geo.IsPointOnSegment(a, b, q), "the midpoint %v is not on the segment", q)
			}
			n := h.N(1, 60)
			r := h.closed(n, g)
			if h.Intn(8) == 0 {
				r = r[:0]
			}
			poly := geo.Polygon{r}
			for i := h.Intn(3); i > 0; i-- {
				poly = append(poly, h.closed(1+h.Intn(5), g))
			}
			if h.Intn(10) == 0 {
				poly = geo.Polygon{}
				r = nil
			}
			h.In("polygon", poly)
			before := nest(poly)
			for k := 0; k < 3; k++ {
				if k > 0 {
					p = geo.Point{X: g(), Y: g()}
					if h.bool() && len(r) > 0 {
						p.Y = r[h.Intn(len(r))].Y
					}
					h.In("point", p)
				}
				w := inRing(r, p)
				if w != geo.RELA_DISJOINT {
					h.NonTrivial()
				}
				v := geo.IsPointInPolygon(p, poly)
				h.Check(v == w, "IsPointInPolygon(%v) = %d want %d", p, v, w)
			}
			h.Check(same(before, nest(poly), false), "polygon modified")
		})
}

func sgn(f float64) int {
	if f > 0 {
		return 1
	} else if f < 0 {
		return -1
	}
	return 0
}

func properCross(a, b, c, d geo.Point) bool {
	return sgn(cross(a, b, c))*sgn(cross(a, b, d)) < 0 && sgn(cross(c, d, a))*sgn(cross(c, d, b)) < 0
}

func segRel(s, u geo.LineSegment) geo.GeometryRealation {
	dx, dy := s.End.X-s.Start.X, s.End.Y-s.Start.Y
	ex, ey := u.End.X-u.Start.X, u.End.Y-u.Start.Y
	par := dx*ey-dy*ex == 0
	if par {
		if (u.Start.X-s.Start.X)*dy == (u.Start.Y-s.Start.Y)*dx {
			return geo.RELA_TOUCH
		}
		return geo.RELA_DISJOINT
	}
	if properCross(s.Start, s.End, u.Start, u.End) {
		return geo.RELA_INTERSECT
	}
	if s.Start == u.Start || s.Start == u.End || s.End == u.Start || s.End == u.End {
		return geo.RELA_TOUCH
	}
	return geo.RELA_DISJOINT
}

func TestC12(t *testing.T) {
	drive(t, "C12", "pairs of segments, lines of 0..40 points and polygons of 1..40 vertices on exact grids (shared ends, T-junctions, collinear, crossing only in the last or closing edge); oracle: exact orientation predicates over all pairs; non-trivial: some crossing or touching pair",
		300000, 15000000, func(h *H) {
			g := h.wideGrid()
			pt := func() geo.Point { return geo.Point{X: g(), Y: g()} }
			s1, s2 := geo.LineSegment{Start: pt(), End: pt()}, geo.LineSegment{Start: pt(), End: pt()}
			// zero-length segments have no direction: the relation of such pairs is not part of the property
			nz := s1.Start != s1.End && s2.Start != s2.End
			switch h.Intn(6) {
			case 0:
				s2.Start = s1.End
			case 1:
				s2.End = s1.End
			case 2:
				s2.End = s1.Start
			}
			nz = s1.Start != s1.End && s2.Start != s2.End
			h.In("segments", []geo.LineSegment{s1, s2})
			if nz {
				w := segRel(s1, s2)
				if w != geo.RELA_DISJOINT {
					h.NonTrivial()
				}
				v := geo.SegmentRelation(s1, s2)
				h.Check(v == w, "SegmentRelation = %d want %d", v, w)
			}
			mkLine := func(n int) []geo.Point {
				l := make([]geo.Point, n)
				for i := range l {
					l[i] = pt()
					for k := 0; i > 0 && l[i] == l[i-1] && k < 50; k++ {
						l[i] = pt()
					}
					if i > 0 && l[i] == l[i-1] {
						l[i].X += 0.25
					}
				}
				return l
			}
			far := func(l []geo.Point) []geo.Point {
				// sometimes move everything but one or two points away, so that one edge decides
				if h.Intn(3) == 0 && len(l) > 2 {
					k := h.Intn(len(l))
					if h.bool() {
						k = len(l) - 1
					}
					for i := range l {
						if i != k && (i != k-1 || h.bool()) {
							l[i].X += 4096
						}
					}
				}
				return l
			}
			l1, l2 := far(mkLine(h.N(0, 40))), mkLine(h.N(0, 40))
			h.In("l1", l1)
			h.In("l2", l2)
			w := geo.RELA_DISJOINT
			for i := 0; i+1 < len(l1); i++ {
				for j := 0; j+1 < len(l2); j++ {
					if segRel(geo.LineSegment{Start: l1[i], End: l1[i+1]}, geo.LineSegment{Start: l2[j], End: l2[j+1]}) != geo.RELA_DISJOINT {
						w = geo.RELA_INTERSECT
						h.NonTrivial()
					}
				}
			}
			v := geo.LineRelation(l1, l2)
			h.Check(v == w, "LineRelation = %d want %d", v, w)
			closeRing := func(l []geo.Point) geo.LinearRing {
				if len(l) > 1 && l[len(l)-1] == l[0] {
					l[len(l)-1].Y += 0.25
				}
				return append(l[:len(l):len(l)], l[0])
			}
			r1, r2 := closeRing(far(mkLine(h.N(2, 40)))), closeRing(mkLine(h.N(2, 40)))
			if h.Intn(3) == 0 { // a mostly regular ring with one vertex displaced: crossings are rare
				n := 4 + h.Intn(8)
				var c []geo.Point
				for i := 0; i < n; i++ {
					a := 2 * math.Pi * float64(i) / float64(n)
					c = append(c, geo.Point{X: math.Round(64 * math.Cos(a)), Y: math.Round(64 * math.Sin(a))})
				}
				k := h.Intn(n)
				if h.bool() {
					k = (n - 1 + h.Intn(2)) % n
				}
				c[k] = geo.Point{X: math.Round(200 * (h.Float64() - 0.5)), Y: math.Round(200 * (h.Float64() - 0.5))}
				h.note(c[k].X)
				h.note(c[k].Y)
				c = append(c[k:n:n], c[:k]...)
				o := h.Intn(n)
				c = append(c[o:n:n], c[:o]...)
				r1 = closeRing(c)
			}
			p1, p2 := geo.Polygon{r1}, geo.Polygon{r2}
			h.In("polygon1", p1)
			h.In("polygon2", p2)
			self := false
			for i := 0; i+1 < len(r1); i++ {
				for j := i + 1; j+1 < len(r1); j++ {
					if properCross(r1[i], r1[i+1], r1[j], r1[j+1]) {
						self = true
						h.NonTrivial()
					}
				}
			}
			h.Check(p1.SelfIntersect() == self, "SelfIntersect = %v", !self)
			crosses := func(l []geo.Point, r []geo.Point) bool {
				for i := 0; i+1 < len(l); i++ {
					for j := 0; j+1 < len(r); j++ {
						if properCross(l[i], l[i+1], r[j], r[j+1]) {
							h.NonTrivial()
							return true
						}
					}
				}
				return false
			}
			chk := func(name string, v geo.GeometryRealation, w bool) {
				h.Check((v == geo.RELA_INTERSECT) == w, "%s = %d, edges cross: %v", name, v, w)
			}
			chk("PolyRelation", geo.PolyRelation(p1, p2), crosses(r1, r2))
			chk("LinearPolyRelation", geo.LinearPolyRelation(r1, p2), crosses(r1, r2))
			chk("LinePolyRelation", geo.LinePolyRelation(l1, p2), crosses(l1, r2))
			chk("SegPolyRelation", geo.SegPolyRelation(s1, p2), crosses([]geo.Point{s1.Start, s1.End}, r2))
		})
}
