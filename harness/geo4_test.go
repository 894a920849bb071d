package verifharness

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"testing"

	geo "github.com/hzw456/go-geo"
	"github.com/hzw456/go-geo/geojson"
	"github.com/hzw456/go-geo/wkt"
)

var kindNames = []string{"Point", "MultiPoint", "LineString", "MultiLineString", "Polygon", "MultiPolygon"}

// unsupported values for the encoders.
func (h *H) unsupported() geo.Geometry {
	switch h.Intn(7) {
	case 0:
		return nil
	case 1:
		return otherGeom{}
	case 2:
		return &geo.Point{X: 1, Y: 2}
	case 3:
		if g, ok := interface{}(geo.LinearRing{{X: 1, Y: 1}, {X: 2, Y: 2}, {X: 1, Y: 1}}).(geo.Geometry); ok {
			return g
		}
	case 4:
		return &geo.LineString{{X: 1, Y: 2}}
	case 5:
		return &geo.Polygon{{{X: 1, Y: 2}}}
	}
	return geo.Collection{geo.Point{X: 1, Y: 2}}
}

func kindIndex(g geo.Geometry) int {
	switch g.(type) {
	case geo.Point, geo.PointZ:
		return 0
	case geo.MultiPoint, geo.MultiPointZ:
		return 1
	case geo.LineString, geo.LineStringZ:
		return 2
	case geo.MultiLineString, geo.MultiLineStringZ:
		return 3
	case geo.Polygon, geo.PolygonZ:
		return 4
	}
	return 5
}

// empties punches empty levels into a geometry (the result may have empty members).
func (h *H) empties(g geo.Geometry) geo.Geometry {
	switch g := g.(type) {
	case geo.MultiPoint:
		return g[:0]
	case geo.LineString:
		if h.bool() {
			return geo.LineString(nil)
		}
		return g[:0]
	case geo.MultiPointZ:
		return g[:0]
	case geo.LineStringZ:
		return g[:0]
	case geo.MultiLineString:
		if h.bool() {
			return g[:0]
		}
		g[h.Intn(len(g))] = geo.LineString{}
	case geo.MultiLineStringZ:
		if h.bool() {
			return g[:0]
		}
		g[h.Intn(len(g))] = nil
	case geo.Polygon:
		if h.bool() {
			return g[:0]
		}
		g[h.Intn(len(g))] = nil
	case geo.PolygonZ:
		if h.bool() {
			return g[:0]
		}
		g[h.Intn(len(g))] = geo.LinearRingZ{}
	case geo.MultiPolygon:
		if h.bool() {
			return g[:0]
		}
		g[h.Intn(len(g))] = nil
	case geo.MultiPolygonZ:
		if h.bool() {
			return g[:0]
		}
		g[h.Intn(len(g))] = geo.PolygonZ{}
	}
	return g
}

func dec(f float64) string { return strconv.FormatFloat(f, 'f', -1, 64) }

// wktText is the standard nesting with shortest decimals.
func wktText(g geo.Geometry) string {
	var b strings.Builder
	b.WriteString(strings.ToUpper(kindNames[kindIndex(g)]))
	var pos func(x []interface{})
	pos = func(x []interface{}) {
		for i, f := range x {
			if i > 0 {
				b.WriteByte(' ')
			}
			b.WriteString(dec(f.(float64)))
		}
	}
	var lst func(x []interface{}, depth int)
	lst = func(x []interface{}, depth int) {
		b.WriteByte('(')
		for i, e := range x {
			if i > 0 {
				b.WriteByte(',')
			}
			if depth == 1 {
				pos(e.([]interface{}))
			} else {
				lst(e.([]interface{}), depth-1)
			}
		}
		b.WriteByte(')')
	}
	n := nest(g).([]interface{})
	if k := kindIndex(g); k == 0 {
		b.WriteByte('(')
		pos(n)
		b.WriteByte(')')
	} else {
		lst(n, []int{0, 1, 1, 2, 2, 3}[k])
	}
	return b.String()
}

// magnitudes is a coordinate source of all decimal magnitudes.
func (h *H) anyCoords() gen {
	switch h.Intn(4) {
	case 0:
		return func() float64 {
			return h.note([]float64{0, math.Copysign(0, -1), 1e20, 1e21, 1e22, -1e23, 1e-7, 1e-6, -1e-5, 123456789.125, 5e-324, math.MaxFloat64, 0.1, 1.0 / 3, 1e6, 100000, 1234567, 12345678901234567890}[h.Intn(18)])
		}
	case 1:
		return func() float64 {
			return h.note((h.Float64() - 0.5) * math.Pow(10, float64(h.Intn(60)-30)))
		}
	}
	return h.coords()
}

func (h *H) dup(g geo.Geometry) interface{} { return nest(g) }

func TestC16(t *testing.T) {
	drive(t, "C16", "geometries with at least one coordinate", 160000, 4000000, func(h *H) {
		if h.Intn(60) == 0 {
			g := h.unsupported()
			h.In("geometry", g)
			if s := wkt.Encode(g); s != "" {
				h.Fail("an unsupported value (%T) encodes to %q", g, s)
			}
			return
		}
		cs := h.anyCoords()
		if h.Intn(10) == 0 {
			f := cs
			cs = func() float64 {
				switch h.Intn(6) {
				case 0:
					return math.NaN()
				case 1:
					return math.Inf(1 - 2*h.Intn(2))
				}
				return f()
			}
		}
		g := h.geom(h.Intn(nKinds), cs)
		if h.Intn(10) == 0 {
			g = h.empties(g)
		} else {
			h.NonTrivial()
		}
		h.In("geometry", g)
		before := nest(g)
		got, want := wkt.Encode(g), wktText(g)
		if got != want {
			h.Fail("Encode(%T) = %s, want %s", g, got, want)
		}
		h.Check(same(before, nest(g), false), "Encode modified the geometry")
	})
}

// atLeast2 makes closed rings of at least two points.
func (h *H) encodable(k int, g gen) geo.Geometry {
	x := h.geom(k, g)
	fix := func(p geo.Polygon) {
		for i := range p {
			if len(p[i]) < 2 {
				p[i] = append(p[i], p[i][0])
			}
		}
	}
	fixZ := func(p geo.PolygonZ) {
		for i := range p {
			if len(p[i]) < 2 {
				p[i] = append(p[i], p[i][0])
			}
		}
	}
	switch x := x.(type) {
	case geo.Polygon:
		fix(x)
	case geo.PolygonZ:
		fixZ(x)
	case geo.MultiPolygon:
		for _, p := range x {
			fix(p)
		}
	case geo.MultiPolygonZ:
		for _, p := range x {
			fixZ(p)
		}
	}
	return x
}

var (
	plainNumber = regexp.MustCompile(`^[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?$`)
	wktWords    = regexp.MustCompile(`(?i)\bempty\b`)
)

// malformed says whether the text clearly is no WKT (unknown keyword, unbalanced or misplaced parentheses,
// missing or extra numbers, garbage); texts of doubtful standing (EMPTY, lower case, Inf, tags) are not.
func malformed(s string) bool {
	if wktWords.MatchString(s) {
		return false
	}
	t := strings.TrimSpace(s)
	i := 0
	for i < len(t) && (t[i] >= 'A' && t[i] <= 'Z' || t[i] >= 'a' && t[i] <= 'z') {
		i++
	}
	word, rest := strings.ToUpper(t[:i]), strings.TrimSpace(t[i:])
	depth, ok := map[string]int{"POINT": 1, "MULTIPOINT": 1, "LINESTRING": 1, "MULTILINESTRING": 2, "POLYGON": 2, "MULTIPOLYGON": 3}[word]
	if !ok {
		return !(word == "GEOMETRYCOLLECTION" || strings.HasSuffix(word, "Z") || strings.HasSuffix(word, "M"))
	}
	for _, tag := range []string{"ZM", "zm", "Z", "z", "M", "m"} {
		if strings.HasPrefix(rest, tag) {
			return false
		}
	}
	dims := map[int]bool{}
	doubt := false
	position := func(p string) bool {
		f := strings.Fields(p)
		if len(f) != 2 && len(f) != 3 {
			return false
		}
		for _, n := range f {
			if !plainNumber.MatchString(n) {
				if _, err := strconv.ParseFloat(n, 64); err != nil {
					return false
				}
				doubt = true
			} else if _, err := strconv.ParseFloat(n, 64); err != nil {
				doubt = true
			}
		}
		dims[len(f)] = true
		return true
	}
	// group parses "(" item {"," item} ")" and returns what follows
	var group func(s string, d int) (string, bool)
	group = func(s string, d int) (string, bool) {
		s = strings.TrimSpace(s)
		if s == "" || s[0] != '(' {
			return s, false
		}
		s = s[1:]
		for {
			var ok bool
			if d > 1 {
				s, ok = group(s, d-1)
				if !ok {
					return s, false
				}
			} else if p := strings.TrimSpace(s); word == "MULTIPOINT" && p != "" && p[0] == '(' {
				e := strings.IndexByte(p, ')')
				if e < 0 || !position(p[1:e]) {
					return s, false
				}
				doubt = true
				s = p[e+1:]
			} else {
				e := strings.IndexAny(s, "(),")
				if e < 0 || s[e] == '(' || !position(s[:e]) {
					return s, false
				}
				s = s[e:]
			}
			s = strings.TrimSpace(s)
			if s == "" {
				return s, false
			}
			c := s[0]
			s = s[1:]
			if c == ')' {
				return s, true
			}
			if c != ',' {
				return s, false
			}
			if word == "POINT" {
				return s, false
			}
		}
	}
	left, ok := group(rest, depth)
	if !ok || strings.TrimSpace(left) != "" {
		return true
	}
	return len(dims) > 1 && !doubt
}

func TestC17(t *testing.T) {
	drive(t, "C17", "round trips and texts that are not well-formed", 100000, 2500000, func(h *H) {
		k := h.Intn(nKinds)
		g := h.encodable(k, h.anyCoords())
		text := wktText(g)
		if h.Intn(5) < 3 {
			h.In("geometry", g)
			got, err := wkt.Decode(wkt.Encode(g))
			h.NonTrivial()
			if err != nil {
				h.Fail("Decode(%s) returns the error %v", text, err)
			}
			if reflect.TypeOf(got) != reflect.TypeOf(g) {
				h.Fail("Decode(%s) is a %T, want %T", text, got, g)
			}
			h.Check(same(nest(got), nest(g), false), "Decode(%s) = %v", text, got)
			return
		}
		if len(text) > 400 {
			g = h.encodable(k, func() float64 { return h.I(9) })
			text = wktText(g)
		}
		b := []byte(text)
		for m := 1 + h.Intn(3); m > 0; m-- {
			at := h.Intn(len(b) + 1)
			ins := []string{"(", ")", ",", " ", "-", ".", "e", "x", "1", "()", "((", "))", ",,", " 7", "(1 2)", "0x1", "NaN", "Inf", "\n", ", ", "1 2 3,", "POINT", ";"}
			switch h.Intn(7) {
			case 0:
				if at < len(b) {
					b = append(b[:at:at], b[at+1:]...)
				}
			case 1, 2:
				b = append(b[:at:at], append([]byte(ins[h.Intn(len(ins))]), b[at:]...)...)
			case 3:
				b = b[:at]
			case 4:
				if at < len(b) {
					b[at] = "(), .-1xA"[h.Intn(9)]
				}
			case 5: // exchange the keyword
				i := bytes.IndexByte(b, '(')
				if i >= 0 {
					b = append([]byte(strings.ToUpper(kindNames[h.Intn(6)])), b[i:]...)
				}
			default: // drop or double a delimiter
				var idx []int
				for i, c := range b {
					if strings.IndexByte("(), ", c) >= 0 {
						idx = append(idx, i)
					}
				}
				if len(idx) > 0 {
					i := idx[h.Intn(len(idx))]
					if h.bool() {
						b = append(b[:i:i], b[i+1:]...)
					} else {
						b = append(b[:i:i], append([]byte{b[i]}, b[i:]...)...)
					}
				}
			}
			if len(b) == 0 {
				break
			}
		}
		if h.Intn(50) == 0 {
			b = []byte([]string{"", "(", ")", "POINT", "POINT(", "POINT)", "()", "POLYGON((", "MULTIPOLYGON", "POINT()", "LINESTRING()", "POLYGON()", "POLYGON(())", "MULTIPOLYGON((()))", "MULTIPOINT()", "MULTILINESTRING(())", "abc", "POINT(1)", "POINT(1 2 3 4)"}[h.Intn(19)])
		}
		h.In("text", string(b))
		for _, c := range b {
			h.mix(uint64(c))
		}
		bad := malformed(string(b))
		if bad {
			h.NonTrivial()
		}
		got, err := wkt.Decode(string(b))
		if bad && err == nil {
			h.Fail("Decode(%q) returns %T%v without an error", b, got, got)
		}
	})
}

func decodeJSON(h *H, b []byte) map[string]interface{} {
	var m map[string]interface{}
	if err := json.Unmarshal(b, &m); err != nil {
		h.Fail("not a JSON object: %v in %s", err, b)
	}
	return m
}

func (h *H) checkGeoJSON(g geo.Geometry, m map[string]interface{}, text []byte) {
	h.Check(m["type"] == kindNames[kindIndex(g)], "type of a %T is %v in %s", g, m["type"], text)
	if !same(m["coordinates"], nest(g), true) {
		h.Fail("coordinates of %T%v are %v in %s", g, g, m["coordinates"], text)
	}
}

func TestC18(t *testing.T) {
	drive(t, "C18", "geometries with at least one coordinate", 100000, 2500000, func(h *H) {
		if h.Intn(60) == 0 {
			g := h.unsupported()
			h.In("geometry", g)
			if b, err := geojson.MarshalGeo(g); err == nil {
				h.Fail("an unsupported value (%T) encodes to %q without an error", g, b)
			}
			return
		}
		g := h.geom(h.Intn(nKinds), h.anyCoords())
		if h.Intn(10) == 0 {
			g = h.empties(g)
		} else {
			h.NonTrivial()
		}
		h.In("geometry", g)
		before := nest(g)
		b, err := geojson.MarshalGeo(g)
		if err != nil {
			h.Fail("MarshalGeo(%T) returns the error %v", g, err)
		}
		h.checkGeoJSON(g, decodeJSON(h, b), b)
		h.Check(same(before, nest(g), false), "MarshalGeo modified the geometry")
	})
}

func (h *H) jsonValue(depth int) interface{} {
	switch h.Intn(8) {
	case 0:
		return nil
	case 1:
		return h.bool()
	case 2, 3:
		return h.F()
	case 4, 5:
		return []string{"", "a", "名前", "<&>\"\\", "id7", "\u2028"}[h.Intn(6)] + fmt.Sprint(h.Intn(9))
	case 6:
		if depth > 0 {
			r := []interface{}{}
			for i := h.Intn(4); i > 0; i-- {
				r = append(r, h.jsonValue(depth-1))
			}
			return r
		}
	}
	if depth > 0 {
		return h.jsonMap(depth - 1)
	}
	return float64(h.Intn(100))
}

func (h *H) jsonMap(depth int) map[string]interface{} {
	m := map[string]interface{}{}
	for i := h.Intn(4); i > 0; i-- {
		m[[]string{"a", "b", "name", "", "type", "id", "名"}[h.Intn(7)]] = h.jsonValue(depth)
	}
	return m
}

func sameMap(a, b map[string]interface{}) bool {
	return len(a) == 0 && len(b) == 0 || reflect.DeepEqual(a, b)
}

func sameBox(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (h *H) feature() (*geojson.Feature, geo.Geometry) {
	g := h.geom([]int{0, 2, 4, 6, 8, 10}[h.Intn(6)], h.coords())
	f := geojson.NewFeature(g)
	switch h.Intn(4) {
	case 0:
		f.ID = "id" + fmt.Sprint(h.Intn(100))
	case 1:
		f.ID = float64(h.Intn(100))
	case 2:
		f.ID = ""
	}
	if h.Intn(3) > 0 {
		f.Properties = h.jsonMap(2)
	} else if h.bool() {
		f.Properties = nil
	}
	if h.bool() {
		f.CRS = h.jsonMap(2)
	}
	if h.bool() {
		f.BoundingBox = []float64{h.F(), h.F(), h.F(), h.F()}
		if h.Intn(3) == 0 {
			f.BoundingBox = append(f.BoundingBox, h.F(), h.F())
		}
	}
	if h.Intn(4) == 0 {
		f.Type = []string{"", "Point", "feature"}[h.Intn(3)]
	}
	return f, g
}

// featText shows every member of a feature, nil and empty members apart
func featText(f *geojson.Feature) string {
	s := fmt.Sprintf("%q %#v %#v %#v %#v %#v", f.Type, f.ID, f.BoundingBox, f.Properties, f.CRS, f.Geometry)
	if f.GeometryJson != nil {
		s += fmt.Sprintf(" %#v", *f.GeometryJson)
	}
	return s
}

func (h *H) sameFeature(got, f *geojson.Feature, g geo.Geometry) {
	h.Check(got != nil, "the feature is lost")
	h.Check(got.Type == "Feature", "decoded type %q", got.Type)
	h.Check(reflect.DeepEqual(got.ID, f.ID), "decoded id %v, want %v", got.ID, f.ID)
	h.Check(sameMap(got.Properties, f.Properties), "decoded properties %v, want %v", got.Properties, f.Properties)
	h.Check(sameMap(got.CRS, f.CRS), "decoded crs %v, want %v", got.CRS, f.CRS)
	h.Check(sameBox(got.BoundingBox, f.BoundingBox), "decoded bbox %v, want %v", got.BoundingBox, f.BoundingBox)
	if f.GeometryJson == nil {
		h.Check(got.GeometryJson == nil, "a geometry appears")
		return
	}
	h.Check(got.GeometryJson != nil, "no geometry")
	h.sameGeom(got.GeometryJson, g)
}

func (h *H) sameGeom(j *geojson.GeoJson, g geo.Geometry) {
	got, err := geojson.UnmarshalGeo(j)
	if err != nil {
		h.Fail("UnmarshalGeo of %T%v: %v", g, g, err)
	}
	if reflect.TypeOf(got) != reflect.TypeOf(g) || !same(nest(got), nest(g), true) {
		h.Fail("UnmarshalGeo of %T%v gives %T%v", g, g, got, got)
	}
}

func TestC19(t *testing.T) {
	drive(t, "C19", "geometries with at least one coordinate", 50000, 1200000, func(h *H) {
		h.NonTrivial()
		switch h.Intn(3) {
		case 0, 1:
			g := h.geom([]int{0, 2, 4, 6, 8, 10}[h.Intn(6)], h.anyCoords())
			if p, ok := g.(geo.Polygon); ok && h.bool() { // rings need not be closed
				i := h.Intn(len(p))
				p[i] = p[i][:1+h.Intn(len(p[i]))]
			}
			h.In("geometry", g)
			b, err := geojson.MarshalGeo(g)
			h.Check(err == nil, "MarshalGeo: %v", err)
			var j geojson.GeoJson
			if err := json.Unmarshal(b, &j); err != nil {
				h.Fail("json.Unmarshal(%s): %v", b, err)
			}
			h.sameGeom(&j, g)
			f := geojson.NewFeature(g)
			h.Check(f.Type == "Feature", "NewFeature type %q", f.Type)
			h.Check(reflect.DeepEqual(f.Geometry, g), "NewFeature geometry %v", f.Geometry)
			fb, err := json.Marshal(f.GeometryJson)
			h.Check(err == nil && bytes.Equal(fb, b), "the feature's geometry is %s, want %s", fb, b)
		default:
			g := h.geom(h.Intn(6), h.coords())
			h.In("geometry", g)
			f := geojson.NewFeature(g)
			f.SetBoundingBox()
			w := mbr(g)
			h.Check(sameBox(f.BoundingBox, []float64{w.MinX, w.MinY, w.MaxX, w.MaxY}), "SetBoundingBox of %T%v stores %v, want %v", g, g, f.BoundingBox, w)
			h.Check(reflect.DeepEqual(f.Geometry, g), "SetBoundingBox changed the geometry")
		}
	})
}

func TestC30(t *testing.T) {
	drive(t, "C30", "features and collections", 30000, 700000, func(h *H) {
		h.NonTrivial()
		switch h.Intn(2) {
		case 0:
			f, g := h.feature()
			h.In("feature", fmt.Sprintf("%+v geometry %+v", *f, g))
			if h.Intn(12) == 0 { // a feature without a geometry
				f.GeometryJson, f.Geometry = nil, nil
			}
			before := featText(f)
			var b []byte
			var err error
			switch h.Intn(3) {
			case 0:
				b, err = f.MarshalJSON()
			case 1:
				b, err = json.Marshal(f)
			default:
				b, err = json.Marshal(*f)
			}
			h.Check(err == nil, "marshal: %v", err)
			m := decodeJSON(h, b)
			h.Check(m["type"] == "Feature", "feature type %v in %s", m["type"], b)
			gm, hasG := m["geometry"].(map[string]interface{})
			h.Check(hasG == (f.GeometryJson != nil), "geometry %v in %s", m["geometry"], b)
			if hasG {
				h.checkGeoJSON(g, gm, b)
			}
			got, err := geojson.UnmarshalFeature(b)
			if err != nil {
				h.Fail("UnmarshalFeature(%s): %v", b, err)
			}
			h.sameFeature(got, f, g)
			h.Check(featText(f) == before, "marshalling changed the feature %s to %s", before, featText(f))
		default:
			fc := geojson.NewFeatureCollection()
			if h.Intn(6) == 0 {
				fc = &geojson.FeatureCollection{}
			}
			n := h.Intn(4)
			if h.Intn(10) == 0 {
				n = 10 + h.Intn(20)
			}
			var fs []*geojson.Feature
			var gs []geo.Geometry
			for i := 0; i < n; i++ {
				f, g := h.feature()
				if r := fc.AddFeature(f); r != fc {
					h.Fail("AddFeature returns another collection")
				}
				fs, gs = append(fs, f), append(gs, g)
			}
			if h.bool() {
				fc.CRS = h.jsonMap(1)
			}
			if h.bool() {
				fc.BoundingBox = []float64{h.F(), h.F(), h.F(), h.F()}
			}
			if h.Intn(4) == 0 {
				fc.Type = "x"
			}
			h.In("features", fmt.Sprintf("%+v %+v", fs, gs))
			h.In("collection", fmt.Sprintf("%+v", *fc))
			snap := func() string {
				t := fmt.Sprintf("%q %#v %#v %d %v", fc.Type, fc.BoundingBox, fc.CRS, len(fc.Features), fc.Features == nil)
				for i, f := range fc.Features {
					t += fmt.Sprint(f == fs[i]) + featText(f)
				}
				return t
			}
			before := snap()
			b, err := json.Marshal(fc)
			h.Check(err == nil, "marshal: %v", err)
			h.Check(snap() == before, "marshalling changed the collection %s to %s", before, snap())
			m := decodeJSON(h, b)
			h.Check(m["type"] == "FeatureCollection", "collection type %v in %s", m["type"], b)
			arr, ok := m["features"].([]interface{})
			h.Check(ok && len(arr) == n, "features %v in %s", m["features"], b)
			got, err := geojson.UnmarshalFeatureCollection(b)
			if err != nil {
				h.Fail("UnmarshalFeatureCollection(%s): %v", b, err)
			}
			h.Check(got.Type == "FeatureCollection" && len(got.Features) == n, "decoded collection %+v", got)
			h.Check(sameMap(got.CRS, fc.CRS), "decoded crs %v, want %v", got.CRS, fc.CRS)
			h.Check(sameBox(got.BoundingBox, fc.BoundingBox), "decoded bbox %v, want %v", got.BoundingBox, fc.BoundingBox)
			for i := range fs {
				h.sameFeature(got.Features[i], fs[i], gs[i])
			}
		}
	})
}

func TestC20(t *testing.T) {
	drive(t, "C20", "histories that read a property that was set", 100000, 2500000, func(h *H) {
		f := &geojson.Feature{}
		if h.bool() {
			f = geojson.NewFeature(geo.Point{X: 1, Y: 2})
		}
		model := map[string]interface{}{}
		for n := 1 + h.Intn(8); n > 0; n-- {
			key := []string{"a", "b", "", "A", "名"}[h.Intn(5)]
			if h.Intn(3) > 0 {
				var v interface{}
				switch h.Intn(10) {
				case 0:
					v = h.bool()
				case 1, 2:
					v = int(h.I(1000))
					if h.Intn(3) == 0 {
						v = int(h.Uint64())
					}
				case 3, 4, 5:
					v = h.F()
					if h.Intn(8) == 0 {
						v = []float64{math.NaN(), math.Inf(1), 1e18, -1e18, 2.9999999, -2.9999999, 4503599627370497.5}[h.Intn(7)]
					}
				case 6, 7:
					v = []string{"", "x", "true", "1", "2.5"}[h.Intn(5)]
				case 8:
					v = []interface{}{nil, int64(3), float32(2.5), uint(7), int32(4)}[h.Intn(5)]
				default:
					v = h.jsonValue(1)
				}
				h.In("set "+key, v)
				f.SetProperty(key, v)
				model[key] = v
			}
			key = []string{"a", "b", "", "A", "名"}[h.Intn(5)]
			h.In("read", key)
			v, has := model[key]
			if has {
				h.NonTrivial()
			}
			wb, okB := v.(bool)
			wi, okI := v.(int)
			wf, okF := v.(float64)
			ws, okS := v.(string)
			if okF && !okI {
				okI = true
				wi = 0
				if wf > -9e18 && wf < 9e18 {
					wi = int(math.Trunc(wf))
				} else {
					wi = -1 << 63 // conversion is implementation-defined: not compared
				}
			}
			b, err := f.PropertyBool(key)
			h.Check(b == wb && (err == nil) == okB, "PropertyBool(%q) of %T%v = %v, %v", key, v, v, b, err)
			i, err := f.PropertyInt(key)
			wild := okF && !(wf > -9e18 && wf < 9e18)
			h.Check((i == wi || wild) && (err == nil) == okI, "PropertyInt(%q) of %T%v = %v, %v", key, v, v, i, err)
			d, err := f.PropertyFloat64(key)
			h.Check(eqBits(d, wf) && (err == nil) == okF, "PropertyFloat64(%q) of %T%v = %v, %v", key, v, v, d, err)
			s, err := f.PropertyString(key)
			h.Check(s == ws && (err == nil) == okS, "PropertyString(%q) of %T%v = %q, %v", key, v, v, s, err)
			db := []bool{h.bool(), h.bool(), h.bool()}[:h.Intn(4)]
			di := []int{h.Intn(9) + 1, h.Intn(9), 3}[:h.Intn(4)]
			df := []float64{h.F(), 2, 3}[:h.Intn(4)]
			ds := []string{"d", "e", "f"}[:h.Intn(4)]
			h.In("defaults", fmt.Sprint(db, di, df, ds))
			if !okB && len(db) > 0 {
				wb = db[0]
			}
			if !okI && len(di) > 0 {
				wi = di[0]
			}
			if !okF && len(df) > 0 {
				wf = df[0]
			}
			if !okS && len(ds) > 0 {
				ws = ds[0]
			}
			h.Check(f.PropertyMustBool(key, db...) == wb, "PropertyMustBool(%q, %v) of %T%v = %v", key, db, v, v, f.PropertyMustBool(key, db...))
			h.Check(wild || f.PropertyMustInt(key, di...) == wi, "PropertyMustInt(%q, %v) of %T%v = %v", key, di, v, v, f.PropertyMustInt(key, di...))
			h.Check(eqBits(f.PropertyMustFloat64(key, df...), wf), "PropertyMustFloat64(%q, %v) of %T%v = %v", key, df, v, v, f.PropertyMustFloat64(key, df...))
			h.Check(f.PropertyMustString(key, ds...) == ws, "PropertyMustString(%q, %v) of %T%v = %v", key, ds, v, v, f.PropertyMustString(key, ds...))
			h.Check(len(f.Properties) == len(model), "%d properties, want %d", len(f.Properties), len(model))
			for k, v := range model {
				h.Check(fmt.Sprintf("%T%v", f.Properties[k], f.Properties[k]) == fmt.Sprintf("%T%v", v, v), "property %q changed from %v to %v", k, v, f.Properties[k])
			}
		}
	})
}
