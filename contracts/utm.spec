package geo

// ---- C21: zones, bands and validation ----
pure inlat(lat float) bool = -80.0 <= lat && lat <= 84.0
pure inlon(lon float) bool = -180.0 <= lon && lon <= 180.0
// the standard band of a latitude
pure band(lat float) string = lat >= 72.0 ? "X" : lat >= 64.0 ? "W" : lat >= 56.0 ? "V" : lat >= 48.0 ? "U" : lat >= 40.0 ? "T" : lat >= 32.0 ? "S" : lat >= 24.0 ? "R" : lat >= 16.0 ? "Q" : lat >= 8.0 ? "P" : lat >= 0.0 ? "N" : lat >= -8.0 ? "M" : lat >= -16.0 ? "L" : lat >= -24.0 ? "K" : lat >= -32.0 ? "J" : lat >= -40.0 ? "H" : lat >= -48.0 ? "G" : lat >= -56.0 ? "F" : lat >= -64.0 ? "E" : lat >= -72.0 ? "D" : "C"
pure norway(lat float, lon float) bool = 56.0 <= lat && lat < 64.0 && 3.0 <= lon && lon < 12.0
pure svalbard(lat float, lon float) bool = 72.0 <= lat && lat <= 84.0 && 0.0 <= lon && lon < 42.0
// z is the 6-degree zone of a longitude below 180
pure zone6(lon float, z int) bool = i2f(6*z-186) <= lon && lon < i2f(6*z-180)
pure stdzone(lat float, lon float, z int) bool = 1 <= z && z <= 60 && (norway(lat, lon) ==> z == 32) && (svalbard(lat, lon) ==> z == (lon < 9.0 ? 31 : lon < 21.0 ? 33 : lon < 33.0 ? 35 : 37)) && (!norway(lat, lon) && !svalbard(lat, lon) ==> (lon == 180.0 ==> z == 60) && (lon < 180.0 ==> zone6(lon, z)))

// rounding to nearest is monotone and exact on small integers
axiom @ieee add_mono(x float, y float, c float): x <= y && isfin(x) && isfin(y) && isfin(c) ==> x + c <= y + c
axiom @ieee div_mono(x float, y float, c float): x <= y && isfin(x) && isfin(y) && isfin(c) && c >= 1.0 ==> x / c <= y / c
axiom @ieee add_int(m int, n int): -1000000 <= m && m <= 1000000 && -1000000 <= n && n <= 1000000 ==> i2f(m) + i2f(n) == i2f(m+n)
axiom @ieee div_int(m int, n int): -1000000 <= m && m <= 1000000 && 0 < n && n <= 1000 ==> i2f(m*n) / i2f(n) == i2f(m)
axiom @ieee int_mono(m int, n int): -1000000 <= m && m <= 1000000 && -1000000 <= n && n <= 1000000 ==> (m <= n <==> i2f(m) <= i2f(n))
// conversion to int truncates
axiom @ieee trunc_pos(x float, n int): 0 <= n && n <= 1000000 ==> (f2i(x) >= n <==> x >= i2f(n)) || !(x >= 0.0) || !(x <= 1000000000.0)

lemma @ieee zone_std(lon float, k int)
inst add_mono(i2f(6*k-174), lon, 180.0)
inst add_int(6*k-174, 180)
inst div_mono(i2f(6*k+6), lon+180.0, 6.0)
inst div_int(k+1, 6)
inst trunc_pos((lon+180.0)/6.0, k+1)
inst add_mono(lon, i2f(6*k-186), 180.0)
inst add_int(6*k-186, 180)
inst div_mono(lon+180.0, i2f(6*k-6), 6.0)
inst div_int(k-1, 6)
inst trunc_pos((lon+180.0)/6.0, k)
inst int_mono(k, k-1)
inst add_mono(-180.0, lon, 180.0)
inst add_int(-180, 180)
inst div_mono(0.0, lon+180.0, 6.0)
inst div_int(0, 6)
inst trunc_pos((lon+180.0)/6.0, 0)
inst add_mono(lon, 180.0, 180.0)
inst add_int(180, 180)
inst div_mono(lon+180.0, i2f(360), 6.0)
inst div_int(60, 6)
inst trunc_pos((lon+180.0)/6.0, 61)
inst int_mono(61, 60)
requires inlon(lon) && k == f2i((lon+180.0)/6.0)
ensures 0.0 <= (lon+180.0)/6.0 && (lon+180.0)/6.0 <= 60.0 && 0 <= k && k <= 60 && lon < i2f(6*k-174) && lon >= i2f(6*k-186) && (k == 0 ==> lon >= i2f(6*k-180))

pure sixth(lon float) int = f2i((lon+180.0)/6.0)
lemma @ieee zone_at(lon float)
inst zone_std(lon, sixth(lon))
requires inlon(lon)
ensures {f2i((lon+180.0)/6.0)} 0 <= sixth(lon) && sixth(lon) <= 60 && 0.0 <= (lon+180.0)/6.0 && (lon+180.0)/6.0 <= 60.0 && lon < i2f(6*sixth(lon)-174) && lon >= i2f(6*sixth(lon)-186) && (sixth(lon) == 0 ==> lon >= i2f(6*sixth(lon)-180))

func geo.latitudeToZoneLetter(latitude)(r)
requires inlat(latitude)
ensures [C21] @ieee "standard band": r == band(latitude)
invariant @ieee _i == 0 || _i == 1 || _i == 2 || _i == 3 || _i == 4 || _i == 5 || _i == 6 || _i == 7 || _i == 8 || _i == 9 || _i == 10 || _i == 11 || _i == 12 || _i == 13 || _i == 14 || _i == 15 || _i == 16 || _i == 17 || _i == 18 || _i == 19 || _i == 20
invariant @ieee forall k int :: {zoneLetters[k]} 0 <= k < _i ==> !(latitude >= i2f(zoneLetters[k].zone))

func geo.latLonToZoneNumber(latitude, longitude)(r)
requires inlat(latitude) && inlon(longitude)
use zone_at
ensures [C21] @ieee "standard zone": stdzone(latitude, longitude, r)

// upper case of a Latin letter
pure upper(c int) int = 97 <= c && c <= 122 ? c-32 : c
extern unicode.ToUpper(c)(u)
ensures 0 <= c && c <= 127 ==> u == upper(c)
ensures 128 <= c && c <= 255 ==> u > 127

func geo.ValidateLatLone(latitude, longitude)(err)
ensures [C21] "rejects exactly": err == nil <==> inlat(latitude) && inlon(longitude)

func geo.FromLatLon(latitude, longitude, northern)(easting, northing, zone, letter, err)
ensures [C21] "rejects exactly": err == nil <==> inlat(latitude) && inlon(longitude)
ensures [C21] @ieee "standard zone": err == nil ==> stdzone(latitude, longitude, zone)
ensures [C21] @ieee "standard band": err == nil && !northern ==> letter == band(latitude)
ensures [C27] @real "coefficients": coeffs()
ensures [C27] @real "easting": err == nil ==> easting == utmx(latitude, longitude, zone)
ensures [C27] @real "northing": err == nil ==> northing == utmy(latitude, longitude, zone)
ensures [C21] "hemisphere letter": err == nil && northern ==> letter == (latitude > 0 ? "N" : "S")

pure isnorth(letter string, northern []bool) bool = letter != "" ? upper(letter[0]) >= 78 : northern[0]
pure bandletter(c int) bool = 67 <= c && c <= 88 && c != 73 && c != 79
func geo.ToLatLon(easting, northing, zone, letter, northern)(lat, lon, err)
ensures [C21] "rejects exactly": err == nil <==> (letter == "") != (len(northern) == 0) && 100000 <= easting && easting < 1000000 && 0 <= northing && northing <= 10000000 && 1 <= zone && zone <= 60 && (letter != "" ==> bandletter(upper(letter[0])))
ensures [C27] @real "coefficients": coeffs() && near12(p2, 3*fE()/2 - 27*fE()*fE()*fE()/32 + 269*fE()*fE()*fE()*fE()*fE()/512) && near12(p3, 21*fE()*fE()/16 - 55*fE()*fE()*fE()*fE()/32) && near12(p4, 151*fE()*fE()*fE()/96 - 417*fE()*fE()*fE()*fE()*fE()/128) && near12(p5, 1097*fE()*fE()*fE()*fE()/512)
inst @real fpt_def(y)
inst @real latat_def(pRad, easting-500000)
inst @real lonat_def(pRad, easting-500000)
assert @real "footpoint": pRad == fpt(y)
assert @real "latitude": err == nil ==> lat == latat(pRad, easting-500000)
assert @real "longitude": err == nil ==> lon == lonat(pRad, easting-500000) + i2f(central(zone))
ensures [C27] @real "latitude": err == nil ==> lat == latat(fpt(isnorth(letter, northern) ? northing : northing-10000000), easting-500000)
ensures [C27] @real "longitude": err == nil ==> lon == lonat(fpt(isnorth(letter, northern) ? northing : northing-10000000), easting-500000) + i2f(central(zone))

// ---- C27: the series, over exact arithmetic ----
// squared eccentricity and its second form
pure e1sq() float = 0.00669438
pure e2sq() float = eP2
pure torad(d float) float = d * 0.017453292519943295
pure todeg(a float) float = a / 0.017453292519943295
// meridian arc
pure arc(p float) float = 6378137.0 * (m1*p - m2*sin(2*p) + m3*sin(4*p) - m4*sin(6*p))
pure vradius(p float) float = 6378137.0 / sqrt(1 - e1sq()*sin(p)*sin(p))
pure ttan(p float) float = sin(p)/cos(p)
pure serx(n float, t float, c float, a float) float = 0.9996*n*(a + a*a*a/6*(1-t+c) + a*a*a*a*a/120*(5-18*t+t*t+72*c-58*e2sq())) + 500000
pure sery(m float, n float, tn float, t float, c float, a float) float = 0.9996*(m + n*tn*(a*a/2 + a*a*a*a/24*(5-t+9*c+4*c*c) + a*a*a*a*a*a/720*(61-58*t+t*t+600*c-330*e2sq())))
pure central(z int) int = 6*z-183
pure arm(lat float, lon float, z int) float = cos(torad(lat)) * (torad(lon) - torad(i2f(central(z))))
pure utmx(lat float, lon float, z int) float = serx(vradius(torad(lat)), ttan(torad(lat))*ttan(torad(lat)), e2sq()*cos(torad(lat))*cos(torad(lat)), arm(lat, lon, z))
pure utmy(lat float, lon float, z int) float = sery(arc(torad(lat)), vradius(torad(lat)), ttan(torad(lat)), ttan(torad(lat))*ttan(torad(lat)), e2sq()*cos(torad(lat))*cos(torad(lat)), arm(lat, lon, z)) + (lat < 0 ? 10000000.0 : 0.0)
// footpoint latitude of the meridian arc m
pure foot(mu float) float = mu + p2*sin(2*mu) + p3*sin(4*mu) + p4*sin(6*mu) + p5*sin(8*mu)
pure inlatr(p float, t float, r float, c float, d float) float = p - t/r*(d*d/2 - d*d*d*d/24*(5+3*t*t+10*c-4*c*c-9*e2sq()) + d*d*d*d*d*d/720*(61+90*t*t+298*c+45*t*t*t*t-252*e2sq()-3*c*c))
pure inlonr(p float, t float, c float, d float) float = (d - d*d*d/6*(1+2*t*t+c) + d*d*d*d*d/120*(5-2*c+28*t*t-3*c*c+8*e2sq()+24*t*t*t*t)) / cos(p)
// p: footpoint latitude, x: easting from the central meridian
pure kappa(p float) float = 1 - e1sq()*(sin(p)*sin(p))
pure utmlat(p float, x float) float = inlatr(p, ttan(p), 0.99330562/kappa(p), e2sq()*cos(p)*cos(p), x/(6378137.0/sqrt(kappa(p))*0.9996))
pure utmlon(p float, x float) float = inlonr(p, ttan(p), e2sq()*cos(p)*cos(p), x/(6378137.0/sqrt(kappa(p))*0.9996))
opaque fpt(y float) float = foot(y/0.9996/(6378137.0*m1))
opaque latat(p float, x float) float = todeg(utmlat(p, x))
opaque lonat(p float, x float) float = todeg(utmlon(p, x))
pure near12(x float, y float) bool = abs(x-y) <= 0.000000000001
pure fE() float = (1-sqrt(1-e1sq()))/(1+sqrt(1-e1sq()))
pure coeffs() bool = near12(m1, 1 - e1sq()/4 - 3*e1sq()*e1sq()/64 - 5*e1sq()*e1sq()*e1sq()/256) && near12(m2, 3*e1sq()/8 + 3*e1sq()*e1sq()/32 + 45*e1sq()*e1sq()*e1sq()/1024) && near12(m3, 15*e1sq()*e1sq()/256 + 45*e1sq()*e1sq()*e1sq()/1024) && near12(m4, 35*e1sq()*e1sq()*e1sq()/3072) && near12(eP2, e1sq()/(1-e1sq()))
