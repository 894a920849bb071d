package verifharness

import (
	"fmt"
	"math"
	"reflect"
	"strings"
	"testing"

	"github.com/golang/geo/s2"
	geo "github.com/hzw456/go-geo"
	"github.com/mmcloughlin/geohash"
)

const bands = "CDEFGHJKLMNPQRSTUVWX"

// latLon returns a latitude and longitude, often next to a zone or band border.
func (h *H) latLon() (lat, lon float64) {
	lat, lon = h.Range(-80, 84), h.Range(-180, 180)
	edge := func(v float64) float64 {
		switch h.Intn(4) {
		case 0:
			return v
		case 1:
			return math.Nextafter(v, math.Inf(1))
		case 2:
			return math.Nextafter(v, math.Inf(-1))
		}
		return v + (h.Float64()-0.5)*2
	}
	if h.Intn(3) == 0 {
		lat = edge(float64(-80 + 8*h.Intn(21)))
	}
	if h.Intn(6) == 0 {
		lat = edge(84)
	}
	if h.Intn(3) == 0 {
		lon = edge(float64(-180 + 6*h.Intn(61)))
	}
	if h.Intn(4) == 0 {
		lon = edge([]float64{0, 3, 9, 12, 21, 33, 42, 180, -180}[h.Intn(9)])
	}
	if h.Intn(12) == 0 {
		lat, lon = h.F(), h.F()
	}
	if h.Intn(60) == 0 {
		*([]*float64{&lat, &lon}[h.Intn(2)]) = []float64{math.NaN(), math.Inf(1), math.Inf(-1)}[h.Intn(3)]
	}
	h.note(lat)
	h.note(lon)
	return
}

func inRange(lat, lon float64) bool { return lat >= -80 && lat <= 84 && lon >= -180 && lon <= 180 }

func utmZone(lat, lon float64) int {
	if lat >= 56 && lat < 64 && lon >= 3 && lon < 12 {
		return 32
	}
	if lat >= 72 && lon >= 0 && lon < 42 {
		switch {
		case lon < 9:
			return 31
		case lon < 21:
			return 33
		case lon < 33:
			return 35
		}
		return 37
	}
	z := 1
	for z < 60 && lon >= float64(-180+6*z) {
		z++
	}
	return z
}

func utmBand(lat float64) string {
	i := 0
	for i < len(bands)-1 && lat >= float64(-80+8*(i+1)) {
		i++
	}
	return bands[i : i+1]
}

func TestC21(t *testing.T) {
	drive(t, "C21", "coordinates in range and inverse calls", 300000, 6000000, func(h *H) {
		if h.Intn(3) > 0 {
			lat, lon := h.latLon()
			north := h.Intn(3) == 0
			h.In("lat,lon,northern", fmt.Sprint(lat, lon, north))
			_, _, zone, letter, err := geo.FromLatLon(lat, lon, north)
			verr := geo.ValidateLatLone(lat, lon)
			if !inRange(lat, lon) {
				h.Check(err != nil, "FromLatLon(%v, %v) out of range returns no error", lat, lon)
				h.Check(verr != nil, "ValidateLatLone(%v, %v) out of range returns no error", lat, lon)
				return
			}
			h.NonTrivial()
			h.Check(verr == nil, "ValidateLatLone(%v, %v) = %v", lat, lon, verr)
			h.Check(err == nil, "FromLatLon(%v, %v, %v): %v", lat, lon, north, err)
			h.Check(zone == utmZone(lat, lon), "FromLatLon(%v, %v, %v) reports zone %d, want %d", lat, lon, north, zone, utmZone(lat, lon))
			if !north {
				h.Check(letter == utmBand(lat), "FromLatLon(%v, %v, %v) reports band %q, want %q", lat, lon, north, letter, utmBand(lat))
			}
			return
		}
		h.NonTrivial()
		e, n, zone := h.Range(100000, 999999), h.Range(0, 1e7), 1+h.Intn(60)
		letter := string(bands[h.Intn(len(bands))])
		if h.bool() {
			letter = strings.ToLower(letter)
		}
		var north []bool
		if h.bool() {
			letter, north = "", []bool{h.bool()}
		}
		out := func(v float64) float64 {
			switch h.Intn(5) {
			case 0:
				return math.Nextafter(v, math.Inf(1))
			case 1:
				return math.Nextafter(v, math.Inf(-1))
			case 2:
				return v + (h.Float64()-0.5)*1000
			case 3:
				return h.F()
			}
			return v
		}
		for k := h.Intn(3); k > 0; k-- {
			switch h.Intn(7) {
			case 0:
				e = out([]float64{100000, 1000000, 999999}[h.Intn(3)])
			case 1:
				n = out([]float64{0, 1e7}[h.Intn(2)])
			case 2:
				zone = []int{0, 1, 60, 61, -1, 100, h.Intn(200) - 100}[h.Intn(7)]
			case 3:
				letter = string("ABCINOPWXYZabcinowxyz019@[`{ "[h.Intn(29)])
				if h.Intn(8) == 0 {
					letter = []string{"\xff", "µ", "É", "ж", "\x00"}[h.Intn(5)]
				}
				if h.Intn(4) > 0 {
					north = nil
				}
			case 4:
				letter = ""
			case 5:
				north = [][]bool{nil, {true}, {false}, {true, false}}[h.Intn(4)]
			default:
				*([]*float64{&e, &n}[h.Intn(2)]) = []float64{math.NaN(), math.Inf(1), math.Inf(-1), math.Copysign(0, -1)}[h.Intn(4)]
			}
		}
		bad := (letter == "") == (len(north) == 0) || !(e >= 100000 && e < 1000000) || !(n >= 0 && n <= 1e7) || zone < 1 || zone > 60
		if letter != "" && !bad {
			bad = !strings.Contains(bands+strings.ToLower(bands), letter[:1])
		}
		h.In("easting,northing,zone,letter,northern", fmt.Sprintf("%v %v %v %q %v", e, n, zone, letter, north))
		_, _, err := geo.ToLatLon(e, n, zone, letter, north...)
		h.Check((err != nil) == bad, "ToLatLon(%v, %v, %v, %q, %v) returns error %v, want an error: %v", e, n, zone, letter, north, err, bad)
	})
}

// utmForward is the transverse Mercator series (Snyder, to sixth order) on the WGS84 ellipsoid.
func utmForward(lat, lon float64, zone int) (easting, northing float64) {
	const (
		a  = 6378137.0
		e2 = 0.00669438
		k0 = 0.9996
	)
	ep2 := e2 / (1 - e2)
	phi, lam := lat*math.Pi/180, (lon-float64(6*zone-183))*math.Pi/180
	s, c, tn := math.Sin(phi), math.Cos(phi), math.Tan(phi)
	N := a / math.Sqrt(1-e2*s*s)
	T, C, A := tn*tn, ep2*c*c, c*lam
	M := a * ((1-e2/4-3*e2*e2/64-5*e2*e2*e2/256)*phi - (3*e2/8+3*e2*e2/32+45*e2*e2*e2/1024)*math.Sin(2*phi) +
		(15*e2*e2/256+45*e2*e2*e2/1024)*math.Sin(4*phi) - 35*e2*e2*e2/3072*math.Sin(6*phi))
	easting = 500000 + k0*N*(A+(1-T+C)*math.Pow(A, 3)/6+(5-18*T+T*T+72*C-58*ep2)*math.Pow(A, 5)/120)
	northing = k0 * (M + N*tn*(A*A/2+(5-T+9*C+4*C*C)*math.Pow(A, 4)/24+(61-58*T+T*T+600*C-330*ep2)*math.Pow(A, 6)/720))
	if lat < 0 {
		northing += 10000000
	}
	return
}

// utmInverse is the footpoint-latitude series (Snyder) on the same ellipsoid; c is the cosine of the footpoint latitude.
func utmInverse(easting, northing float64, zone int, north bool) (lat, lon, c float64) {
	const (
		a  = 6378137.0
		e2 = 0.00669438
		k0 = 0.9996
	)
	ep2 := e2 / (1 - e2)
	x, y := easting-500000, northing
	if !north {
		y -= 10000000
	}
	mu := y / k0 / (a * (1 - e2/4 - 3*e2*e2/64 - 5*e2*e2*e2/256))
	f := (1 - math.Sqrt(1-e2)) / (1 + math.Sqrt(1-e2))
	p := mu + (3*f/2-27*math.Pow(f, 3)/32+269*math.Pow(f, 5)/512)*math.Sin(2*mu) +
		(21*f*f/16-55*math.Pow(f, 4)/32)*math.Sin(4*mu) +
		(151*math.Pow(f, 3)/96-417*math.Pow(f, 5)/128)*math.Sin(6*mu) +
		1097*math.Pow(f, 4)/512*math.Sin(8*mu)
	s, c := math.Sin(p), math.Cos(p)
	T, C := s*s/c/c, ep2*c*c
	N := a / math.Sqrt(1-e2*s*s)
	R := a * (1 - e2) / math.Pow(1-e2*s*s, 1.5)
	D := x / (N * k0)
	lat = p - N*s/c/R*(D*D/2-(5+3*T+10*C-4*C*C-9*ep2)*math.Pow(D, 4)/24+(61+90*T+298*C+45*T*T-252*ep2-3*C*C)*math.Pow(D, 6)/720)
	lon = (D - (1+2*T+C)*math.Pow(D, 3)/6 + (5-2*C+28*T-3*C*C+8*ep2+24*T*T)*math.Pow(D, 5)/120) / c
	return lat * 180 / math.Pi, lon*180/math.Pi + float64(6*zone-183), c
}

func TestC27(t *testing.T) {
	drive(t, "C27", "coordinates in range", 400000, 8000000, func(h *H) {
		if h.bool() {
			lat, lon := h.latLon()
			if !inRange(lat, lon) {
				return
			}
			h.NonTrivial()
			north := h.Intn(3) == 0
			h.In("lat,lon,northern", fmt.Sprint(lat, lon, north))
			e, n, _, _, err := geo.FromLatLon(lat, lon, north)
			h.Check(err == nil, "FromLatLon(%v, %v): %v", lat, lon, err)
			we, wn := utmForward(lat, lon, utmZone(lat, lon))
			h.Check(math.Abs(e-we) < 1e-4 && math.Abs(n-wn) < 1e-4, "FromLatLon(%v, %v) = %v %v, want %v %v", lat, lon, e, n, we, wn)
			return
		}
		e, n, zone, north := h.Range(100000, 1000000), h.Range(0, 10000000), 1+h.Intn(60), h.bool()
		if e >= 1000000 {
			return
		}
		letter := ""
		var nn []bool
		if h.bool() {
			letter = string("CDEFGHJKLMNPQRSTUVWXcdefghjklmnpqrstuvwx"[h.Intn(40)])
			north = letter[0]|32 >= 'n'
		} else {
			nn = []bool{north}
		}
		h.In("easting,northing,zone,letter,northern", fmt.Sprint(e, n, zone, letter, nn))
		wlat, wlon, c := utmInverse(e, n, zone, north)
		if c < 0.05 {
			return
		}
		h.NonTrivial()
		lat, lon, err := geo.ToLatLon(e, n, zone, letter, nn...)
		h.Check(err == nil, "ToLatLon(%v, %v, %v, %q, %v): %v", e, n, zone, letter, nn, err)
		tol := 1e-8
		if c > 0.3 {
			tol = 1e-10
		}
		h.Check(math.Abs(lat-wlat) < tol && math.Abs(lon-wlon) < tol, "ToLatLon(%v, %v, %v, %q, %v) = %v %v, want %v %v", e, n, zone, letter, nn, lat, lon, wlat, wlon)
	})
}

func TestC28(t *testing.T) {
	drive(t, "C28", "coordinates in range", 400000, 8000000, func(h *H) {
		lat, lon := h.latLon()
		if !inRange(lat, lon) {
			return
		}
		h.NonTrivial()
		north := h.Intn(3) == 0
		h.In("lat,lon,northern", fmt.Sprint(lat, lon, north))
		e, n, zone, letter, err := geo.FromLatLon(lat, lon, north)
		h.Check(err == nil, "FromLatLon(%v, %v): %v", lat, lon, err)
		var lat2, lon2 float64
		if north || h.Intn(3) == 0 {
			lat2, lon2, err = geo.ToLatLon(e, n, zone, "", lat >= 0)
		} else {
			if h.bool() {
				letter = strings.ToLower(letter)
			}
			lat2, lon2, err = geo.ToLatLon(e, n, zone, letter)
		}
		h.Check(err == nil, "ToLatLon(%v, %v, %v, %v): %v", e, n, zone, letter, err)
		h.Check(math.Abs(lat2-lat) < 2e-6 && math.Abs(lon2-lon) < 2e-6, "ToLatLon(%v, %v, %v, %v) = %v %v, want %v %v", e, n, zone, letter, lat2, lon2, lat, lon)
	})
}

func gcjShift(lon, lat float64) (dlon, dlat float64) {
	const pi = math.Pi
	x, y := lon-105, lat-35
	s := func(amp, arg float64) float64 { return amp * math.Sin(arg*pi) }
	dlat = -100 + 2*x + 3*y + 0.2*y*y + 0.1*x*y + 0.2*math.Sqrt(math.Abs(x)) +
		(s(20, 6*x)+s(20, 2*x)+s(20, y)+s(40, y/3)+s(160, y/12)+s(320, y/30))*2/3
	dlon = 300 + x + 2*y + 0.1*x*x + 0.1*x*y + 0.1*math.Sqrt(math.Abs(x)) +
		(s(20, 6*x)+s(20, 2*x)+s(20, x)+s(40, x/3)+s(150, x/12)+s(300, x/30))*2/3
	const a, ee = 6378245.0, 0.00669342162296594323
	r := lat * pi / 180
	m := 1 - ee*math.Sin(r)*math.Sin(r)
	dlat = dlat * 180 / (a * (1 - ee) / (m * math.Sqrt(m)) * pi)
	dlon = dlon * 180 / (a / math.Sqrt(m) * math.Cos(r) * pi)
	return
}

func TestC22(t *testing.T) {
	drive(t, "C22", "coordinates", 300000, 6000000, func(h *H) {
		h.NonTrivial()
		var lon, lat float64
		edge := func(v float64) float64 {
			return []float64{v, math.Nextafter(v, 1e9), math.Nextafter(v, -1e9), v + (h.Float64()-0.5)/10}[h.Intn(4)]
		}
		switch h.Intn(8) {
		case 0, 1, 2:
			lon, lat = 73.66+h.Float64()*(135.05-73.66), 3.86+h.Float64()*(53.55-3.86)
		case 3, 4:
			lon, lat = h.Range(73.66, 135.05), h.Range(3.86, 53.55)
		case 5:
			lon, lat = edge([]float64{73.66, 135.05}[h.Intn(2)]), h.Range(3, 55)
		case 6:
			lon, lat = h.Range(70, 140), edge([]float64{3.86, 53.55}[h.Intn(2)])
		default:
			lon, lat = h.Range(-180, 180), h.Range(-90, 90)
		}
		if h.Intn(80) == 0 {
			*([]*float64{&lat, &lon}[h.Intn(2)]) = []float64{math.NaN(), math.Inf(1)}[h.Intn(2)]
		}
		h.note(lon)
		h.note(lat)
		h.In("lon,lat", fmt.Sprint(lon, lat))
		inside := lon > 73.66 && lon < 135.05 && lat > 3.86 && lat < 53.55
		gx, gy := geo.WGS84toGCJ02(lon, lat)
		wx, wy := geo.GCJ02toWGS84(lon, lat)
		ok := func(a, b float64) bool {
			return math.Abs(a-b) < 1e-10 || a == b || math.IsNaN(a) && math.IsNaN(b)
		}
		if !inside {
			h.Check(eqBits(gx, lon) && eqBits(gy, lat), "WGS84toGCJ02(%v, %v) outside = %v %v", lon, lat, gx, gy)
			h.Check(eqBits(wx, lon) && eqBits(wy, lat), "GCJ02toWGS84(%v, %v) outside = %v %v", lon, lat, wx, wy)
		} else {
			dx, dy := gcjShift(lon, lat)
			h.Check(ok(gx, lon+dx) && ok(gy, lat+dy), "WGS84toGCJ02(%v, %v) = %v %v, want %v %v", lon, lat, gx, gy, lon+dx, lat+dy)
			h.Check(ok(wx, lon-dx) && ok(wy, lat-dy), "GCJ02toWGS84(%v, %v) = %v %v, want %v %v", lon, lat, wx, wy, lon-dx, lat-dy)
		}
		const xpi = math.Pi * 3000 / 180
		bx, by := geo.GCJ02toBD09(lon, lat)
		z, th := math.Hypot(lon, lat)+0.00002*math.Sin(lat*xpi), math.Atan2(lat, lon)+0.000003*math.Cos(lon*xpi)
		h.Check(ok(bx, z*math.Cos(th)+0.0065) && ok(by, z*math.Sin(th)+0.006), "GCJ02toBD09(%v, %v) = %v %v, want %v %v", lon, lat, bx, by, z*math.Cos(th)+0.0065, z*math.Sin(th)+0.006)
		cx, cy := geo.BD09toGCJ02(lon, lat)
		x, y := lon-0.0065, lat-0.006
		z, th = math.Hypot(x, y)-0.00002*math.Sin(y*xpi), math.Atan2(y, x)-0.000003*math.Cos(x*xpi)
		h.Check(ok(cx, z*math.Cos(th)) && ok(cy, z*math.Sin(th)), "BD09toGCJ02(%v, %v) = %v %v, want %v %v", lon, lat, cx, cy, z*math.Cos(th), z*math.Sin(th))
		ax, ay := geo.WGS84toBD09(lon, lat)
		ex, ey := geo.GCJ02toBD09(gx, gy)
		h.Check(ok(ax, ex) && ok(ay, ey), "WGS84toBD09(%v, %v) = %v %v, the composition gives %v %v", lon, lat, ax, ay, ex, ey)
		ax, ay = geo.BD09toWGS84(lon, lat)
		ex, ey = geo.GCJ02toWGS84(cx, cy)
		h.Check(ok(ax, ex) && ok(ay, ey), "BD09toWGS84(%v, %v) = %v %v, the composition gives %v %v", lon, lat, ax, ay, ex, ey)
	})
}

func TestC23(t *testing.T) {
	drive(t, "C23", "points, hashes, cells and polygons", 60000, 1200000, func(h *H) {
		h.NonTrivial()
		p := geo.Point{X: h.Range(-180, 180), Y: h.Range(-90, 90)}
		srid := geo.SRID(4326)
		if h.Intn(4) == 0 {
			srid = h.srid()
		}
		level := h.Intn(31)
		cell := s2.CellIDFromLatLng(s2.LatLngFromDegrees(p.Y, p.X)).Parent(level)
		h.mix(uint64(level))
		h.In("point,srid,level", fmt.Sprint(p, srid, level))
		gps := srid == 4326
		switch h.Intn(9) {
		case 0:
			prec := uint(1 + h.Intn(12))
			h.In("precision", prec)
			got, want := geo.GeohashEncode(p, prec, srid), geohash.EncodeWithPrecision(p.Y, p.X, prec)
			h.Check(got == want, "GeohashEncode(%v, %d) = %q, want %q", p, prec, got, want)
		case 1, 2:
			hash := geohash.EncodeWithPrecision(p.Y, p.X, uint(1+h.Intn(12)))
			h.In("hash", hash)
			c := geo.GeohashGetCenter(hash, srid)
			lat, lng := geohash.DecodeCenter(hash)
			h.Check(c.X == lng && c.Y == lat, "GeohashGetCenter(%q) = %v, want %v %v", hash, c, lng, lat)
			b, w := geo.GeohashGetBoundary(hash, srid), geohash.BoundingBox(hash)
			h.Check(b == geo.Box{MinX: w.MinLng, MinY: w.MinLat, MaxX: w.MaxLng, MaxY: w.MaxLat}, "GeohashGetBoundary(%q) = %v, want %v", hash, b, w)
			ns := geo.GeohashGetAllNeighbors(hash, srid)
			h.Check(reflect.DeepEqual(ns, geohash.Neighbors(hash)), "GeohashGetAllNeighbors(%q) = %v, want %v", hash, ns, geohash.Neighbors(hash))
		case 3:
			got, want := geo.S2GetCellID(p, level, srid), uint64(cell)
			if !gps {
				want = 0
			}
			h.Check(got == want, "S2GetCellID(%v, %d, %d) = %d, want %d", p, level, srid, got, want)
		case 4:
			got := geo.S2GetCenter(uint64(cell), srid)
			if !gps {
				h.Check(got == nil, "S2GetCenter with srid %d = %v", srid, got)
				return
			}
			w := cell.LatLng()
			h.Check(got != nil && got.X == w.Lng.Degrees() && got.Y == w.Lat.Degrees(), "S2GetCenter(%d) = %v, want %v", cell, got, w)
		case 5:
			got := geo.S2GetBoundary(uint64(cell), srid)
			if !gps {
				h.Check(len(got) == 0, "S2GetBoundary with srid %d = %v", srid, got)
				return
			}
			vs := s2.LoopFromCell(s2.CellFromCellID(cell)).Vertices()
			h.Check(len(got) == len(vs), "S2GetBoundary(%d) has %d points", cell, len(got))
			for i, v := range vs {
				w := s2.LatLngFromPoint(v)
				h.Check(got[i].X == w.Lng.Degrees() && got[i].Y == w.Lat.Degrees(), "S2GetBoundary(%d)[%d] = %v, want %v", cell, i, got[i], w)
			}
		case 6:
			got := geo.S2GetAllNeighbors(uint64(cell), srid)
			if !gps {
				h.Check(len(got) == 0, "S2GetAllNeighbors with srid %d = %v", srid, got)
				return
			}
			want := cell.AllNeighbors(level)
			h.Check(len(got) == len(want), "S2GetAllNeighbors(%d) = %v, want %v", cell, got, want)
			for i := range want {
				h.Check(got[i] == uint64(want[i]), "S2GetAllNeighbors(%d) = %v, want %v", cell, got, want)
			}
		default:
			poly, pts, _, lv := h.coverPoly()
			got := geo.S2RegionCoverer(poly, lv, srid)
			h.Check(samePts(poly[0], pts), "covering changed the polygon %v to %v", pts, poly[0])
			area := 0.0
			for i := 0; i+1 < len(pts); i++ {
				area += (pts[i].X-pts[0].X)*(pts[i+1].Y-pts[0].Y) - (pts[i+1].X-pts[0].X)*(pts[i].Y-pts[0].Y)
			}
			var vs []s2.Point
			for i := range pts {
				q := pts[i]
				if area < 0 {
					q = pts[len(pts)-1-i]
				}
				vs = append(vs, s2.PointFromLatLng(s2.LatLngFromDegrees(q.Y, q.X)))
			}
			want := s2.SimpleRegionCovering(s2.PolygonFromLoops([]*s2.Loop{s2.LoopFromPoints(vs)}), vs[0], lv)
			set := map[uint64]bool{}
			for _, id := range want {
				set[uint64(id)] = true
			}
			for _, id := range got {
				h.Check(set[id], "covering cell %d is not among the library's %v", id, want)
			}
			h.Check(len(got) == len(want), "the covering has %d cells, the library's %d", len(got), len(want))
		}
	})
}

func circ(a, b float64) float64 { return math.Abs(math.Remainder(a-b, 2*math.Pi)) }

func TestC24(t *testing.T) {
	drive(t, "C24", "vectors, angles and bearings", 400000, 8000000, func(h *H) {
		h.NonTrivial()
		switch h.Intn(4) {
		case 0, 1:
			g := h.coords()
			if h.Intn(8) == 0 {
				g = func() float64 { return []float64{0, math.Copysign(0, -1), 1, -1, math.NaN(), math.Inf(1)}[h.Intn(6)] }
			}
			a, b, s := geo.Vector2{X: g(), Y: g()}, geo.Vector2{X: g(), Y: g()}, h.F()
			if h.Intn(4) == 0 {
				b = a
			}
			if h.Intn(8) == 0 {
				b.Y = a.Y
			}
			a0, b0 := a, b
			h.In("a,b,s", fmt.Sprint(a, b, s))
			eq := func(v geo.Vector2, x, y float64) bool {
				return (v.X == x || math.IsNaN(v.X) && math.IsNaN(x)) && (v.Y == y || math.IsNaN(v.Y) && math.IsNaN(y))
			}
			nr := func(v, w, scale float64) bool {
				return near(v, w, 1e-12, scale) || math.IsNaN(w) || math.IsInf(w, 0) || math.IsInf(scale, 0) || math.IsNaN(scale)
			}
			h.Check(eq(a.Add(b), a.X+b.X, a.Y+b.Y), "%v.Add(%v) = %v", a, b, a.Add(b))
			h.Check(eq(geo.Add(a, b), a.X+b.X, a.Y+b.Y), "Add(%v, %v) = %v", a, b, geo.Add(a, b))
			h.Check(eq(a.Sub(b), a.X-b.X, a.Y-b.Y), "%v.Sub(%v) = %v", a, b, a.Sub(b))
			sc := math.Abs(a.X*b.X) + math.Abs(a.Y*b.Y)
			h.Check(nr(a.Dot(b), a.X*b.X+a.Y*b.Y, sc), "%v.Dot(%v) = %v", a, b, a.Dot(b))
			sc = math.Abs(a.X*b.Y) + math.Abs(a.Y*b.X)
			h.Check(nr(a.Cross(b), a.X*b.Y-a.Y*b.X, sc), "%v.Cross(%v) = %v", a, b, a.Cross(b))
			l2 := a.X*a.X + a.Y*a.Y
			h.Check(nr(a.LengthSq(), l2, 0), "%v.LengthSq() = %v", a, a.LengthSq())
			h.Check(nr(a.Length(), math.Sqrt(l2), 0), "%v.Length() = %v", a, a.Length())
			h.Check(a.Equal(b) == (a.X == b.X && a.Y == b.Y), "%v.Equal(%v) = %v", a, b, a.Equal(b))
			c := a.Clone()
			h.Check(c != &a && eqBits(c.X, a.X) && eqBits(c.Y, a.Y), "%v.Clone() = %v", a, c)
			c.Multiply(s)
			h.Check(eq(*c, a.X*s, a.Y*s), "%v.Multiply(%v) gives %v", a, s, *c)
			n := geo.NewVector2(a.X, b.Y)
			h.Check(eqBits(n.X, a.X) && eqBits(n.Y, b.Y), "NewVector2(%v, %v) = %v", a.X, b.Y, *n)
			pv := geo.ConvertPointToVector(geo.Point{X: a.X, Y: a.Y}, geo.Point{X: b.X, Y: b.Y})
			h.Check(eq(*pv, b.X-a.X, b.Y-a.Y), "ConvertPointToVector(%v, %v) = %v", a, b, *pv)
			if math.Abs(s) > 1e-9 && math.Abs(s) < 1e9 {
				d := a
				d.Divide(s)
				h.Check(nr(d.X, a.X/s, 0) && nr(d.Y, a.Y/s, 0), "%v.Divide(%v) gives %v", a, s, d)
			}
			if l := math.Hypot(a.X, a.Y); l > 1e-100 && l < 1e100 {
				for _, u := range []*geo.Vector2{geo.Normalize(a), func() *geo.Vector2 { v := a; v.Normalize(); return &v }()} {
					h.Check(near(u.X, a.X/l, 1e-12, 1) && near(u.Y, a.Y/l, 1e-12, 1), "normalising %v gives %v", a, *u)
				}
			}
			h.Check(eqBits(a.X, a0.X) && eqBits(a.Y, a0.Y) && eqBits(b.X, b0.X) && eqBits(b.Y, b0.Y), "an operation changed its operands %v %v to %v %v", a0, b0, a, b)
		case 2:
			g := h.coords()
			p, c, q := geo.Point{X: g(), Y: g()}, geo.Point{X: g(), Y: g()}, geo.Point{X: g(), Y: g()}
			if h.Intn(6) == 0 {
				p = c
			}
			if h.Intn(6) == 0 {
				q = c
			}
			h.In("p,c,q", fmt.Sprint(p, c, q))
			got, err := geo.CacAngle(p, c, q)
			lp, lq := math.Hypot(p.X-c.X, p.Y-c.Y), math.Hypot(q.X-c.X, q.Y-c.Y)
			if lp == 0 || lq == 0 {
				h.Check(err != nil, "CacAngle(%v, %v, %v) with an empty arm returns no error", p, c, q)
				return
			}
			if lp < 1e-100 || lq < 1e-100 || lp > 1e100 || lq > 1e100 {
				return
			}
			want := math.Atan2(q.Y-c.Y, q.X-c.X) - math.Atan2(p.Y-c.Y, p.X-c.X)
			h.Check(err == nil && got >= 0 && got <= 2*math.Pi && circ(got, want) < 1e-9, "CacAngle(%v, %v, %v) = %v, %v, want %v (mod a full turn)", p, c, q, got, err, want)
		default:
			p, q, srid := geo.Point{X: h.Range(-180, 180), Y: h.Range(-90, 90)}, geo.Point{X: h.Range(-180, 180), Y: h.Range(-90, 90)}, h.srid()
			if h.Intn(8) == 0 {
				q.X = p.X
			}
			h.In("p,q,srid", fmt.Sprint(p, q, srid))
			got := geo.GetAzimuth(p, q, srid)
			if srid != 4326 {
				h.Check(got == 0, "GetAzimuth with srid %d = %v", srid, got)
				return
			}
			d := math.Pi / 180
			y := math.Sin((q.X-p.X)*d) * math.Cos(q.Y*d)
			x := math.Cos(p.Y*d)*math.Sin(q.Y*d) - math.Sin(p.Y*d)*math.Cos(q.Y*d)*math.Cos((q.X-p.X)*d)
			h.Check(got >= 0 && got < 360, "GetAzimuth(%v, %v) = %v", p, q, got)
			if math.Hypot(x, y) > 1e-6 {
				w := math.Atan2(y, x) / d
				h.Check(math.Abs(math.Remainder(got-w, 360)) < 1e-6, "GetAzimuth(%v, %v) = %v, want %v (mod 360)", p, q, got, w)
			}
		}
	})
}

func TestC25(t *testing.T) {
	drive(t, "C25", "two lines of non-zero length", 60000, 1200000, func(h *H) {
		srid := h.srid()
		g := func() float64 { return h.I(5) }
		switch h.Intn(4) {
		case 0:
			g = func() float64 { return h.Range(-90, 90) }
		case 1:
			s := math.Pow(10, float64(h.Intn(8)))
			g = func() float64 { return h.note((h.Float64() - 0.5) * s) }
		}
		line := func() geo.LineString {
			n := h.N(0, 60)
			return geo.LineString(h.pts(n, g))
		}
		a, b := line(), line()
		if len(a) > 0 && h.Intn(6) == 0 { // partly the same points
			b = append(append(geo.LineString{}, a[:h.Intn(len(a)+1)]...), b...)
		}
		for _, l := range []*geo.LineString{&a, &b} {
			if len(*l) > 0 && h.Intn(20) == 0 {
				for i := range *l {
					(*l)[i] = (*l)[0]
				}
			}
		}
		h.In("a,b,srid", fmt.Sprint(a, b, srid))
		sa, sb := snap(a), snap(b)
		zero := func(l geo.LineString) bool {
			for i := 1; i < len(l); i++ {
				if l[i] != l[i-1] {
					return false
				}
			}
			return true
		}
		got := geo.HausdorffDistance(a, b, srid)
		h.Check(unchanged(a, sa) && unchanged(b, sb), "a line was modified")
		if zero(a) || zero(b) {
			h.Check(got == 1<<31, "HausdorffDistance(%v, %v) with a line of zero length = %v", a, b, got)
			return
		}
		h.NonTrivial()
		want := 0.0
		dir := func(a, b geo.LineString) {
			for _, p := range a {
				m := math.Inf(1)
				for _, q := range b {
					m = math.Min(m, geo.PointDistance(p, q, srid))
				}
				want = math.Max(want, m)
			}
		}
		dir(a, b)
		dir(b, a)
		h.Check(near(got, want, 1e-12, 0), "HausdorffDistance(%v, %v, %d) = %v, want %v", a, b, srid, got, want)
		back := geo.HausdorffDistance(b, a, srid)
		h.Check(near(back, got, 1e-12, 0), "HausdorffDistance(%v, %v, %d) = %v, exchanged %v", a, b, srid, got, back)
	})
}

func TestC26(t *testing.T) {
	drive(t, "C26", "rotations and buffers", 200000, 4000000, func(h *H) {
		h.NonTrivial()
		sc := math.Pow(10, float64(h.Intn(5)))
		g := func() float64 { return h.note((h.Float64() - 0.5) * sc) }
		if h.bool() {
			g = func() float64 { return h.I(50) }
		}
		c, ang := geo.Point{X: g(), Y: g()}, h.Range(-7, 7)
		if h.Intn(3) == 0 {
			ang = float64(h.Intn(17)-8) * math.Pi / 4
		}
		// turned checks one rotated point
		turned := func(p, q geo.Point, ang float64) bool {
			s, o := math.Sincos(ang)
			x := c.X + (p.X-c.X)*o + (p.Y-c.Y)*s
			y := c.Y - (p.X-c.X)*s + (p.Y-c.Y)*o
			ok := func(got, want float64) bool {
				eps := 1e-10 * (1 + sc)
				k := got * 10000
				return math.Abs(k-math.Round(k)) < 1e-6 && math.Abs(got-want) < 1e-4+eps && math.Abs(got) <= math.Abs(want)+eps
			}
			return ok(q.X, x) && ok(q.Y, y)
		}
		h.In("center,angle", fmt.Sprint(c, ang))
		switch h.Intn(5) {
		case 0, 1:
			p := geo.Point{X: g(), Y: g()}
			h.In("point", p)
			q, ok := geo.RotateCW(p, c, ang).(geo.Point)
			h.Check(ok && turned(p, q, ang), "RotateCW(%v, %v, %v) = %v", p, c, ang, q)
			r, ok := geo.RotateCCW(p, c, ang).(geo.Point)
			w := geo.RotateCW(p, c, -ang).(geo.Point)
			h.Check(ok && r == w && turned(p, r, -ang), "RotateCCW(%v, %v, %v) = %v, clockwise by the negated angle gives %v", p, c, ang, r, w)
		case 2:
			poly := h.poly(g)
			if len(poly[0]) < 2 {
				poly[0] = append(poly[0], poly[0][0])
			}
			if h.Intn(4) == 0 && len(poly[0]) > 3 { // an open exterior ring
				poly[0] = poly[0][:len(poly[0])-1]
			}
			h.In("polygon", poly)
			s := snap(poly[0])
			for k, r := range []geo.Geometry{geo.RotateCW(poly, c, ang), geo.RotateCCW(poly, c, ang)} {
				a := ang
				if k == 1 {
					a = -ang
				}
				q, ok := r.(geo.Polygon)
				h.Check(ok && len(q) == 1, "rotating the polygon gives %v", r)
				n := len(poly[0])
				h.Check(len(q[0]) >= n, "rotating the polygon gives %d of %d vertices", len(q[0]), n)
				for i := range poly[0] {
					h.Check(turned(poly[0][i], q[0][i], a), "rotated vertex %d of %v about %v by %v is %v", i, poly[0], c, a, q[0][i])
				}
				f, l := q[0][0], q[0][n-1]
				differ := math.Abs(f.X-l.X) >= 1e-6 || math.Abs(f.Y-l.Y) >= 1e-6
				if differ {
					h.Check(len(q[0]) == n+1 && q[0][n] == f, "the rotated ring %v is not closed", q[0])
				} else {
					h.Check(len(q[0]) == n, "the rotated closed ring has %d of %d points", len(q[0]), n)
				}
			}
			h.Check(unchanged(poly[0], s), "rotating changed the polygon")
		case 3:
			k := h.Intn(nKinds)
			if k == 0 || k == 4 {
				k = 1
			}
			gm := h.geom(k, g)
			h.In("geometry", gm)
			h.Check(geo.RotateCW(gm, c, ang) == nil && geo.RotateCCW(gm, c, ang) == nil, "rotating a %T is not nil", gm)
			for _, gp := range []geo.Geometry{nil, &geo.Point{X: g(), Y: g()}, &geo.Polygon{}} {
				h.In("geometry", gp)
				h.Check(geo.RotateCW(gp, c, ang) == nil && geo.RotateCCW(gp, c, ang) == nil, "rotating a %T is not nil", gp)
			}
		default:
			p, w := geo.Point{X: g(), Y: g()}, h.Float64()*math.Pow(10, float64(h.Intn(7)-2))
			switch h.Intn(6) {
			case 0:
				w = -w
			case 1:
				w = 0
			case 2:
				w = float64(h.Intn(100))
			}
			h.In("point,width", fmt.Sprint(p, w))
			b := p.Buffer(w)
			if w < 0 {
				h.Check(len(b) == 0, "the buffer of width %v is %v", w, b)
				return
			}
			if w == 0 {
				h.Check(len(b) == 1, "the buffer of width 0 is %v", b)
				for _, v := range b[0] {
					h.Check(v == p, "the buffer of width 0 about %v has the vertex %v", p, v)
				}
				return
			}
			h.Check(len(b) == 1 && (len(b[0]) == 25 || len(b[0]) == 26), "the buffer has %d rings, %v", len(b), b)
			tol := 1e-9 * (1 + w + sc)
			for i, v := range b[0] {
				k := i
				if k >= 24 {
					k = 0
				}
				s, o := math.Sincos(float64(k) * math.Pi / 12)
				h.Check(math.Abs(v.X-p.X-w*o) < tol && math.Abs(v.Y-p.Y-w*s) < tol, "buffer vertex %d of %v by %v is %v, want %v %v", i, p, w, v, p.X+w*o, p.Y+w*s)
			}
			f, l := b[0][0], b[0][len(b[0])-1]
			h.Check(math.Abs(f.X-l.X) < 1e-6 && math.Abs(f.Y-l.Y) < 1e-6, "the buffer ring starts at %v and ends at %v", f, l)
		}
	})
}

// coverPoly is a convex polygon around a center, in either direction, its ring, the center and a level
func (h *H) coverPoly() (geo.Polygon, []geo.Point, geo.Point, int) {
	n := 3 + h.Intn(6)
	c := geo.Point{X: (h.Float64() - 0.5) * 300, Y: (h.Float64() - 0.5) * 140}
	rad := math.Pow(10, -3*h.Float64())
	large := h.Intn(5) == 0
	if large {
		// up to a fifth of the way round the globe, at coarse levels
		c.Y /= 4
		rad = 2 + 28*h.Float64()
	}
	flat := 1.0
	if h.Intn(3) == 0 {
		flat = 0.1 + 0.9*h.Float64()
	}
	t0 := h.Float64()
	var pts []geo.Point
	for i := 0; i < n; i++ {
		a := 2 * math.Pi * (float64(i) + t0) / float64(n)
		pts = append(pts, geo.Point{X: c.X + rad*math.Cos(a), Y: c.Y + flat*rad*math.Sin(a)})
	}
	if h.bool() {
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			pts[i], pts[j] = pts[j], pts[i]
		}
	}
	pts = append(pts, pts[0])
	poly := geo.Polygon{append(make(geo.LinearRing, 0, n+1+h.Intn(4)), pts...)}
	lv := 3 + h.Intn(6)
	if rad < 0.05 {
		lv += h.Intn(5)
	}
	if large {
		lv = h.Intn(6)
	}
	h.In("polygon,level", fmt.Sprint(poly, lv))
	h.note(c.X)
	h.note(c.Y)
	return poly, pts, c, lv
}

func TestC29(t *testing.T) {
	drive(t, "C29", "polygons", 12000, 300000, func(h *H) {
		h.NonTrivial()
		poly, pts, c, lv := h.coverPoly()
		srid := geo.SRID(4326)
		got := geo.S2RegionCoverer(poly, lv, srid)
		h.Check(samePts(poly[0], pts), "covering changed the polygon %v to %v", pts, poly[0])
		set := map[uint64]bool{}
		for _, id := range got {
			h.Check(s2.CellID(id).IsValid() && s2.CellID(id).Level() == lv, "covering cell %d is not of level %d", id, lv)
			h.Check(!set[id], "covering cell %d occurs twice", id)
			set[id] = true
		}
		for _, q := range append(pts, c) {
			// the cells of the vertices and of the center touch the polygon
			id := s2.CellIDFromLatLng(s2.LatLngFromDegrees(q.Y, q.X)).Parent(lv)
			h.Check(set[uint64(id)], "the covering %v of %v at level %d lacks the cell %d of %v", got, pts, lv, id, q)
		}
		h.Check(len(got) < 40000, "the covering has %d cells", len(got))
	})
}
