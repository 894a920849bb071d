// Package verifharness exercises the public API of go-geo against oracles written from the property
// statements. It is mapped into /repo with go test -overlay. Every case is derived from (seed, shard, index)
// alone, so a failing case is replayed by its index.
package verifharness

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math"
	"math/rand"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	geo "github.com/hzw456/go-geo"
)

// pool holds literals found in the code under test and values of verifier models.
type pool struct {
	Floats  []float64 `json:"floats"`
	Ints    []int64   `json:"ints"`
	Strings []string  `json:"strings"`
}

var thePool pool

// H is one case: a private random source and a log of the inputs.
type H struct {
	*rand.Rand
	idx        int
	verbose    bool
	log        []string
	hash       uint64
	nontrivial bool
	phase      int // 0 small exact, 1 general, 2 pool-driven
	thorough   bool
}

type failure struct{ msg string }

func (h *H) Fail(format string, a ...interface{}) { panic(failure{fmt.Sprintf(format, a...)}) }

func (h *H) Check(ok bool, format string, a ...interface{}) {
	if !ok {
		panic(failure{fmt.Sprintf(format, a...)})
	}
}

// In records an input (formatted only when the case is replayed for a report).
func (h *H) In(name string, v interface{}) {
	if h.verbose {
		h.log = append(h.log, fmt.Sprintf("%s = %s", name, show(v)))
	}
}

func show(v interface{}) string {
	s := fmt.Sprintf("%T%v", v, v)
	if len(s) > 4000 {
		s = s[:4000] + "..."
	}
	return s
}

func (h *H) mix(x uint64) { h.hash = (h.hash ^ x) * 1099511628211 }

// NonTrivial marks the case as counting towards distinct_nontrivial.
func (h *H) NonTrivial() { h.nontrivial = true }

func (h *H) note(f float64) float64 { h.mix(math.Float64bits(f)); return f }

// N returns a size in lo..hi, mostly small, sometimes large or next to a literal of the code.
func (h *H) N(lo, hi int) int {
	n := lo
	switch r := h.Intn(20); {
	case r < 12:
		n = lo + h.Intn(min(8, hi-lo+1))
	case r < 17:
		n = lo + h.Intn(min(40, hi-lo+1))
	case r < 18:
		n = lo + h.Intn(hi-lo+1)
	default:
		if len(thePool.Ints) > 0 {
			n = int(thePool.Ints[h.Intn(len(thePool.Ints))]) + h.Intn(3) - 1
		}
	}
	if n < lo {
		n = lo
	}
	if n > hi {
		n = lo + h.Intn(min(12, hi-lo+1))
	}
	h.mix(uint64(n))
	return n
}

// I returns a small integer coordinate.
func (h *H) I(r int) float64 { return h.note(float64(h.Intn(2*r+1) - r)) }

// F returns a finite float of mixed magnitude.
func (h *H) F() float64 {
	switch r := h.Intn(16); {
	case r < 4:
		return h.I(6)
	case r < 6:
		return h.note(float64(h.Intn(4000)-2000) / 8)
	case r < 9:
		return h.note((h.Float64() - 0.5) * 360)
	case r < 10:
		return h.note((h.Float64() - 0.5) * 1e6)
	case r < 11:
		return h.note((h.Float64() - 0.5) * math.Pow(10, float64(h.Intn(30)-12)))
	case r < 12:
		return h.note([]float64{0, math.Copysign(0, -1), 1e-7, 1e-6, 180, -180, 90, -90, 360, 1 << 31, -(1 << 31), 1e10, -1e10, 0.5}[h.Intn(14)])
	default:
		return h.Lit()
	}
}

// Lit returns a float next to a literal of the code.
func (h *H) Lit() float64 {
	if len(thePool.Floats) == 0 {
		return h.I(100)
	}
	f := thePool.Floats[h.Intn(len(thePool.Floats))]
	switch h.Intn(8) {
	case 0:
		f = -f
	case 1:
		f = math.Nextafter(f, math.Inf(1))
	case 2:
		f = math.Nextafter(f, math.Inf(-1))
	case 3:
		f += float64(h.Intn(3) - 1)
	case 4:
		f += (h.Float64() - 0.5)
	}
	if math.IsInf(f, 0) || math.IsNaN(f) {
		return h.I(9)
	}
	return h.note(f)
}

// Range returns a float in [lo, hi], often on a bound, an integer or a literal.
func (h *H) Range(lo, hi float64) float64 {
	var f float64
	switch r := h.Intn(10); {
	case r < 3:
		f = lo + h.Float64()*(hi-lo)
	case r < 5:
		f = math.Floor(lo + h.Float64()*(hi-lo+1))
	case r < 6:
		f = []float64{lo, hi, math.Nextafter(lo, hi), math.Nextafter(hi, lo)}[h.Intn(4)]
	case r < 8:
		f = h.Lit()
	default:
		f = math.Floor((lo+h.Float64()*(hi-lo))*8) / 8
	}
	if !(f >= lo && f <= hi) {
		f = lo + h.Float64()*(hi-lo)
	}
	return h.note(f)
}

func (h *H) srid() geo.SRID {
	s := []geo.SRID{4326, 3857, 32644, 0, 4326, geo.SRID(h.Intn(5000)), -1}[h.Intn(7)]
	if h.Intn(6) == 0 && len(thePool.Ints) > 0 {
		s = geo.SRID(thePool.Ints[h.Intn(len(thePool.Ints))])
	}
	h.mix(uint64(s))
	return s
}

func (h *H) bool() bool { return h.Intn(2) == 0 }

// gen is a coordinate source used for a whole geometry.
type gen func() float64

// coords picks one style of coordinates for a geometry.
func (h *H) coords() gen {
	switch h.Intn(6) {
	case 0:
		return func() float64 { return h.I(2) }
	case 1:
		return func() float64 { return h.I(12) }
	case 2:
		s, o := math.Pow(10, float64(h.Intn(14)-5)), (h.Float64()-0.5)*100
		return func() float64 { return h.note(o + s*float64(h.Intn(21)-10)) }
	case 3:
		return func() float64 { return h.Range(-90, 90) }
	default:
		return h.F
	}
}

// again makes a position share both, one or (mostly) none of its coordinates with an earlier one.
func (h *H) again(x, y *float64, qx, qy float64) bool {
	switch h.Intn(24) {
	case 0, 1:
		*x, *y = qx, qy
		return true
	case 2:
		*x = qx
	case 3:
		*y = qy
	case 4:
		*x, *y = qy, qx
	}
	return false
}

// parts is a number of parts: few, sometimes more.
func (h *H) parts(lo int) int {
	if h.Intn(5) == 0 {
		return lo + h.Intn(8)
	}
	return lo + h.Intn(3)
}

func (h *H) pts(n int, g gen) []geo.Point {
	p := make([]geo.Point, n, n+h.Intn(4))
	for i := range p {
		p[i] = geo.Point{X: g(), Y: g()}
		if i > 0 {
			h.again(&p[i].X, &p[i].Y, p[h.Intn(i)].X, p[h.Intn(i)].Y)
		}
	}
	for i := range p[n:cap(p)] {
		p[:cap(p)][n+i] = geo.Point{X: 77777 + float64(i), Y: 88888}
	}
	return p
}

func (h *H) ptsZ(n int, g gen) []geo.PointZ {
	p := make([]geo.PointZ, n, n+h.Intn(4))
	for i := range p {
		p[i] = geo.PointZ{X: g(), Y: g(), Z: g()}
		if i > 0 {
			q := p[h.Intn(i)]
			if h.again(&p[i].X, &p[i].Y, q.X, q.Y) || h.Intn(12) == 0 {
				p[i].Z = q.Z
			}
		}
	}
	for i := range p[n:cap(p)] {
		p[:cap(p)][n+i] = geo.PointZ{X: 77777 + float64(i), Y: 88888, Z: 99999}
	}
	return p
}

// closed returns n >= 1 points plus an exact copy of the first.
func (h *H) closed(n int, g gen) geo.LinearRing {
	p := h.pts(n, g)
	p = append(p[:n:n], p[0])
	return geo.LinearRing(p)
}

func (h *H) closedZ(n int, g gen) geo.LinearRingZ {
	p := h.ptsZ(n, g)
	p = append(p[:n:n], p[0])
	return geo.LinearRingZ(p)
}

func (h *H) poly(g gen) geo.Polygon {
	p := geo.Polygon{h.closed(h.N(1, 60), g)}
	same := h.Intn(3) * h.Intn(4) // all holes of the same size, mostly
	for i := h.parts(0); i > 0; i-- {
		n := same
		if n == 0 {
			n = 1 + h.Intn(5)
		}
		p = append(p, h.closed(n, g))
		if len(p) > 2 && h.Intn(8) == 0 {
			p[len(p)-1] = append(geo.LinearRing(nil), p[h.Intn(len(p)-1)]...)
		}
	}
	return p
}

func (h *H) polyZ(g gen) geo.PolygonZ {
	p := geo.PolygonZ{h.closedZ(h.N(1, 60), g)}
	same := h.Intn(3) * h.Intn(4) // all holes of the same size, mostly
	for i := h.parts(0); i > 0; i-- {
		n := same
		if n == 0 {
			n = 1 + h.Intn(5)
		}
		p = append(p, h.closedZ(n, g))
		if len(p) > 2 && h.Intn(8) == 0 {
			p[len(p)-1] = append(geo.LinearRingZ(nil), p[h.Intn(len(p)-1)]...)
		}
	}
	return p
}

const nKinds = 12

// geom returns a non-empty geometry of kind k (0..11) with every level non-empty.
func (h *H) geom(k int, g gen) geo.Geometry {
	h.mix(uint64(k))
	m := h.parts(1)
	if h.Intn(10) == 0 {
		m = h.N(1, 30)
	}
	switch k {
	case 0:
		return geo.Point{X: g(), Y: g()}
	case 1:
		return geo.MultiPoint(h.pts(h.N(1, 200), g))
	case 2:
		return geo.LineString(h.pts(h.N(1, 200), g))
	case 3:
		var r geo.MultiLineString
		for i := 0; i < m; i++ {
			r = append(r, h.pts(h.N(1, 30), g))
		}
		return r
	case 4:
		return h.poly(g)
	case 5:
		var r geo.MultiPolygon
		for i := 0; i < m; i++ {
			r = append(r, h.poly(g))
		}
		return r
	case 6:
		return geo.PointZ{X: g(), Y: g(), Z: g()}
	case 7:
		return geo.MultiPointZ(h.ptsZ(h.N(1, 200), g))
	case 8:
		return geo.LineStringZ(h.ptsZ(h.N(1, 200), g))
	case 9:
		var r geo.MultiLineStringZ
		for i := 0; i < m; i++ {
			r = append(r, h.ptsZ(h.N(1, 30), g))
		}
		return r
	case 10:
		return h.polyZ(g)
	default:
		var r geo.MultiPolygonZ
		for i := 0; i < m; i++ {
			r = append(r, h.polyZ(g))
		}
		return r
	}
}

// nest flattens a geometry to its nested coordinates (positions are []float64 of 2 or 3).
func nest(g geo.Geometry) interface{} {
	p2 := func(ps []geo.Point) interface{} {
		r := []interface{}{}
		for _, p := range ps {
			r = append(r, []interface{}{p.X, p.Y})
		}
		return r
	}
	p3 := func(ps []geo.PointZ) interface{} {
		r := []interface{}{}
		for _, p := range ps {
			r = append(r, []interface{}{p.X, p.Y, p.Z})
		}
		return r
	}
	pg := func(p geo.Polygon) interface{} {
		r := []interface{}{}
		for _, l := range p {
			r = append(r, p2(l))
		}
		return r
	}
	pgz := func(p geo.PolygonZ) interface{} {
		r := []interface{}{}
		for _, l := range p {
			r = append(r, p3(l))
		}
		return r
	}
	r := []interface{}{}
	switch g := g.(type) {
	case geo.Point:
		return []interface{}{g.X, g.Y}
	case geo.PointZ:
		return []interface{}{g.X, g.Y, g.Z}
	case geo.MultiPoint:
		return p2(g)
	case geo.LineString:
		return p2(g)
	case geo.MultiPointZ:
		return p3(g)
	case geo.LineStringZ:
		return p3(g)
	case geo.MultiLineString:
		for _, l := range g {
			r = append(r, p2(l))
		}
	case geo.MultiLineStringZ:
		for _, l := range g {
			r = append(r, p3(l))
		}
	case geo.Polygon:
		return pg(g)
	case geo.PolygonZ:
		return pgz(g)
	case geo.MultiPolygon:
		for _, l := range g {
			r = append(r, pg(l))
		}
	case geo.MultiPolygonZ:
		for _, l := range g {
			r = append(r, pgz(l))
		}
	}
	return r
}

func flat(x interface{}, f func(float64)) {
	switch x := x.(type) {
	case float64:
		f(x)
	case []interface{}:
		for _, y := range x {
			flat(y, f)
		}
	}
}

// same compares nested coordinates bit for bit, except that zeros are equal when loose.
func same(a, b interface{}, loose bool) bool {
	switch x := a.(type) {
	case float64:
		y, ok := b.(float64)
		return ok && (math.Float64bits(x) == math.Float64bits(y) || loose && x == y)
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !same(x[i], y[i], loose) {
				return false
			}
		}
		return true
	}
	return a == nil && b == nil
}

// snap is a deep copy of slices including their spare capacity, to detect writes.
func snap(ps []geo.Point) []geo.Point { return append([]geo.Point(nil), ps[:cap(ps)]...) }
func snapZ(ps []geo.PointZ) []geo.PointZ {
	return append([]geo.PointZ(nil), ps[:cap(ps)]...)
}

func eqBits(a, b float64) bool { return math.Float64bits(a) == math.Float64bits(b) }

func samePts(a, b []geo.Point) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !eqBits(a[i].X, b[i].X) || !eqBits(a[i].Y, b[i].Y) {
			return false
		}
	}
	return true
}

func samePtsZ(a, b []geo.PointZ) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !eqBits(a[i].X, b[i].X) || !eqBits(a[i].Y, b[i].Y) || !eqBits(a[i].Z, b[i].Z) {
			return false
		}
	}
	return true
}

func unchanged(ps []geo.Point, s []geo.Point) bool { return samePts(ps[:cap(ps)], s) }

// near compares with relative tolerance (and absolute tolerance tol*scale).
func near(a, b, tol, scale float64) bool {
	if a == b || math.IsNaN(a) && math.IsNaN(b) {
		return true
	}
	return math.Abs(a-b) <= tol*(math.Abs(scale)+math.Max(math.Abs(a), math.Abs(b)))
}

type report struct {
	Evaluations int64    `json:"evaluations"`
	Distinct    int      `json:"distinct_nontrivial"`
	Rule        string   `json:"rule"`
	Samples     []string `json:"samples"`
	Failures    []fail   `json:"failures"`
	WallS       float64  `json:"wall_s"`
}

type fail struct {
	Property string   `json:"property"`
	Case     string   `json:"case"` // shard:index
	Input    []string `json:"input"`
	Message  string   `json:"message"`
	Stack    string   `json:"stack,omitempty"`
}

func caseRand(seed int64, shard, idx int) *rand.Rand {
	f := fnv.New64a()
	fmt.Fprintf(f, "%d/%d/%d", seed, shard, idx)
	return rand.New(&splitmix{f.Sum64()})
}

// splitmix is a cheap random source: one is made per case.
type splitmix struct{ s uint64 }

func (s *splitmix) Seed(x int64) { s.s = uint64(x) }
func (s *splitmix) Uint64() uint64 {
	s.s += 0x9e3779b97f4a7c15
	z := s.s
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}
func (s *splitmix) Int63() int64 { return int64(s.Uint64() >> 1) }

func env(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}
	return def
}

var mu sync.Mutex

func writeOut(r report) {
	b, _ := json.MarshalIndent(r, "", " ")
	if p := os.Getenv("VERIF_OUT"); p != "" {
		os.WriteFile(p, b, 0o644)
	} else {
		fmt.Println(string(b))
	}
}

// one runs a single case; it returns the failure, if any.
func one(id string, seed int64, shard, idx int, verbose, thorough bool, f func(*H)) (h *H, fl *fail) {
	h = &H{Rand: caseRand(seed, shard, idx), idx: idx, verbose: verbose, hash: 14695981039346656037, phase: h3(idx), thorough: thorough}
	defer func() {
		if r := recover(); r != nil {
			fl = &fail{Property: id, Case: fmt.Sprintf("%d:%d", shard, idx), Input: h.log}
			if x, ok := r.(failure); ok {
				fl.Message = x.msg
			} else {
				fl.Message = fmt.Sprintf("panic: %v", r)
				if verbose {
					fl.Stack = trimStack(string(debug.Stack()))
				}
			}
		}
	}()
	f(h)
	return h, nil
}

func h3(i int) int { return i % 3 }

func trimStack(s string) string {
	l := strings.Split(s, "\n")
	if len(l) > 40 {
		l = l[:40]
	}
	return strings.Join(l, "\n")
}

// drive runs cases of f until the budget is used and writes the report.
func drive(t *testing.T, id, rule string, quickN, thoroughN int, f func(*H)) {
	t0 := time.Now()
	seed := int64(env("VERIF_SEED", 1))
	thorough := os.Getenv("VERIF_TIER") == "thorough"
	if p := os.Getenv("VERIF_POOL"); p != "" {
		if b, err := os.ReadFile(p); err == nil {
			if err := json.Unmarshal(b, &thePool); err != nil {
				t.Fatal(err)
			}
		}
	}
	if c := os.Getenv("VERIF_CASE"); c != "" {
		var shard, idx int
		fmt.Sscanf(c, "%d:%d", &shard, &idx)
		h, fl := one(id, seed, shard, idx, true, thorough, f)
		fmt.Println(strings.Join(h.log, "\n"))
		if fl != nil {
			t.Fatalf("%s case %s: %s\n%s", id, c, fl.Message, fl.Stack)
		}
		return
	}
	n := quickN
	limit := 40 * time.Second
	if thorough {
		n, limit = thoroughN, 420*time.Second
	}
	n = n * env("VERIF_SCALE", 100) / 100
	const shards = 8
	rep := report{Rule: rule}
	var evals int64
	distinct := map[uint64]bool{}
	var stop int32
	type cur struct {
		idx   int64
		since int64
	}
	var at [shards]cur
	var wg sync.WaitGroup
	done := make(chan bool)
	for s := 0; s < shards; s++ {
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			loc := map[uint64]bool{}
			for i := 0; i < n/shards; i++ {
				if atomic.LoadInt32(&stop) != 0 || i%16 == 0 && time.Since(t0) > limit {
					break
				}
				atomic.StoreInt64(&at[s].idx, int64(i))
				atomic.StoreInt64(&at[s].since, time.Now().UnixNano())
				h, fl := one(id, seed, s, i, false, thorough, f)
				atomic.AddInt64(&evals, 1)
				if h.nontrivial {
					loc[h.hash] = true
				}
				if fl != nil {
					_, fv := one(id, seed, s, i, true, thorough, f)
					if fv == nil {
						fv = fl
					}
					mu.Lock()
					rep.Failures = append(rep.Failures, *fv)
					mu.Unlock()
					atomic.StoreInt32(&stop, 1)
					break
				}
			}
			atomic.StoreInt64(&at[s].since, 0)
			mu.Lock()
			for k := range loc {
				distinct[k] = true
			}
			mu.Unlock()
		}(s)
	}
	go func() { wg.Wait(); close(done) }()
	tick := time.NewTicker(500 * time.Millisecond)
	finish := func() {
		mu.Lock()
		rep.Evaluations, rep.Distinct = atomic.LoadInt64(&evals), len(distinct)
		rep.WallS = time.Since(t0).Seconds()
		writeOut(rep)
		mu.Unlock()
	}
	for {
		select {
		case <-done:
			for i := 0; i < 30 && len(rep.Samples) < 3; i++ {
				if h, fl := one(id, seed, 0, i, true, thorough, f); fl == nil && h.nontrivial {
					s := strings.Join(h.log, "; ")
					if len(s) > 600 {
						s = s[:600] + "..."
					}
					rep.Samples = append(rep.Samples, s)
				}
			}
			finish()
			if len(rep.Failures) > 0 {
				t.Fail()
			}
			return
		case <-tick.C:
			for s := range at {
				since := atomic.LoadInt64(&at[s].since)
				if since != 0 && time.Since(time.Unix(0, since)) > 30*time.Second {
					i := int(atomic.LoadInt64(&at[s].idx))
					lg := hangLog(id, seed, s, i, thorough, f)
					mu.Lock()
					rep.Failures = append(rep.Failures, fail{Property: id, Case: fmt.Sprintf("%d:%d", s, i), Input: lg, Message: "the case does not terminate within 30 s"})
					mu.Unlock()
					finish()
					os.Exit(1)
				}
			}
		}
	}
}

// hangLog starts the case once more with logging and returns what was logged before it hung.
func hangLog(id string, seed int64, shard, idx int, thorough bool, f func(*H)) []string {
	h := &H{Rand: caseRand(seed, shard, idx), idx: idx, verbose: true, hash: 1, phase: h3(idx), thorough: thorough}
	go func() {
		defer func() { recover() }()
		f(h)
	}()
	time.Sleep(2 * time.Second)
	return append([]string(nil), h.log...)
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}
