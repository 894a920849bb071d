package geo

// ---- C22: Chinese datum shifts ----
// the open rectangle in which coordinates are shifted
pure inchina(lon float, lat float) bool = lon > 73.66 && lon < 135.05 && lat > 3.86 && lat < 53.55
// the published offsets, in metres, of a position relative to 105 E 35 N
pure offlat(x float, y float) float = -100.0 + 2.0*x + 3.0*y + 0.2*y*y + 0.1*x*y + 0.2*sqrt(abs(x)) + (20.0*sin(6.0*x*pi()) + 20.0*sin(2.0*x*pi()))*2.0/3.0 + (20.0*sin(y*pi()) + 40.0*sin(y/3.0*pi()))*2.0/3.0 + (160.0*sin(y/12.0*pi()) + 320.0*sin(y*pi()/30.0))*2.0/3.0
pure offlon(x float, y float) float = 300.0 + x + 2.0*y + 0.1*x*x + 0.1*x*y + 0.1*sqrt(abs(x)) + (20.0*sin(6.0*x*pi()) + 20.0*sin(2.0*x*pi()))*2.0/3.0 + (20.0*sin(x*pi()) + 40.0*sin(x/3.0*pi()))*2.0/3.0 + (150.0*sin(x/12.0*pi()) + 300.0*sin(x/30.0*pi()))*2.0/3.0
// Krasovsky 1940 ellipsoid
pure kmagic(lat float) float = 1 - 0.00669342162296594323*sin(lat/180.0*pi())*sin(lat/180.0*pi())
pure shiftlat(lon float, lat float) float = offlat(lon-105.0, lat-35.0)*180.0 / ((6378245.0*(1-0.00669342162296594323)) / (kmagic(lat)*sqrt(kmagic(lat))) * pi())
pure shiftlon(lon float, lat float) float = offlon(lon-105.0, lat-35.0)*180.0 / (6378245.0/sqrt(kmagic(lat))*cos(lat/180.0*pi())*pi())
pure gcjlon(lon float, lat float) float = inchina(lon, lat) ? lon + shiftlon(lon, lat) : lon
pure gcjlat(lon float, lat float) float = inchina(lon, lat) ? lat + shiftlat(lon, lat) : lat
pure wgslon(lon float, lat float) float = inchina(lon, lat) ? lon - shiftlon(lon, lat) : lon
pure wgslat(lon float, lat float) float = inchina(lon, lat) ? lat - shiftlat(lon, lat) : lat
// polar perturbations between GCJ02 and BD09
pure xpi() float = 52.35987755982989
pure bdr(x float, y float) float = sqrt(x*x+y*y) + 0.00002*sin(y*xpi())
pure bda(x float, y float) float = atan2(y, x) + 0.000003*cos(x*xpi())
pure bdlon(x float, y float) float = bdr(x, y)*cos(bda(x, y)) + 0.0065
pure bdlat(x float, y float) float = bdr(x, y)*sin(bda(x, y)) + 0.006
pure ubr(x float, y float) float = sqrt(x*x+y*y) - 0.00002*sin(y*xpi())
pure uba(x float, y float) float = atan2(y, x) - 0.000003*cos(x*xpi())
pure unbdlon(lon float, lat float) float = ubr(lon-0.0065, lat-0.006)*cos(uba(lon-0.0065, lat-0.006))
pure unbdlat(lon float, lat float) float = ubr(lon-0.0065, lat-0.006)*sin(uba(lon-0.0065, lat-0.006))

func geo.isOutOFChina(lon, lat)(r)
ensures [C22] "outside the open rectangle": r <==> !inchina(lon, lat)

func geo.transformlat(lon, lat)(r)
ensures [C22] @real "published offset": r == offlat(lon, lat)

func geo.transformlng(lon, lat)(r)
ensures [C22] @real "published offset": r == offlon(lon, lat)

func geo.delta(lon, lat)(a, b)
ensures [C22] @real "longitude": a == lon + shiftlon(lon, lat)
ensures [C22] @real "latitude": b == lat + shiftlat(lon, lat)

func geo.WGS84toGCJ02(lon, lat)(a, b)
ensures [C22] "unchanged outside": !inchina(lon, lat) ==> a === lon && b === lat
ensures [C22] @real "longitude": a == gcjlon(lon, lat)
ensures [C22] @real "latitude": b == gcjlat(lon, lat)

func geo.GCJ02toWGS84(lon, lat)(a, b)
ensures [C22] "unchanged outside": !inchina(lon, lat) ==> a === lon && b === lat
ensures [C22] @real "longitude": a == wgslon(lon, lat)
ensures [C22] @real "latitude": b == wgslat(lon, lat)

func geo.GCJ02toBD09(lon, lat)(a, b)
ensures [C22] @real "longitude": a == bdlon(lon, lat)
ensures [C22] @real "latitude": b == bdlat(lon, lat)

func geo.BD09toGCJ02(lon, lat)(a, b)
ensures [C22] @real "longitude": a == unbdlon(lon, lat)
ensures [C22] @real "latitude": b == unbdlat(lon, lat)

func geo.WGS84toBD09(lon, lat)(a, b)
ensures [C22] @real "longitude": a == bdlon(gcjlon(lon, lat), gcjlat(lon, lat))
ensures [C22] @real "latitude": b == bdlat(gcjlon(lon, lat), gcjlat(lon, lat))

func geo.BD09toWGS84(lon, lat)(a, b)
ensures [C22] @real "longitude": a == wgslon(unbdlon(lon, lat), unbdlat(lon, lat))
ensures [C22] @real "latitude": b == wgslat(unbdlon(lon, lat), unbdlat(lon, lat))
