#include "vh.h"
#include <navigine/navigation-core/point.h>
using namespace navigine::navigation_core;
using namespace vh;
static const double EQ = 40075160.0, PO = 40008000.0;
static double dlon(double a, double b) { double d = std::fmod(a - b, 360.0); if (d > 180) d -= 360; if (d < -180) d += 360; return d; }
static double lonv() { double v = chance(0.3) ? pick<double>({180, 179.9999, -179.9999, 0, -0.0001, 90, -90, 179, -179}) : real(-179.999, 180); return v; }
static void body() {
  for (uint64_t i = 0; more(i); ++i) {
    double lim = chance(0.8) ? 75 : 89;
    GeoPoint b(real(-lim, lim), lonv());
    GeoPoint p(real(-lim, lim), lonv());
    if (chance(0.5)) { p = GeoPoint(b.latitude + real(-0.01, 0.01), b.longitude + real(-0.01, 0.01)); if (p.longitude > 180) p.longitude -= 360; if (p.longitude <= -180) p.longitude += 360; }
    if (chance(0.05)) p = b;
    std::ostringstream o; o << std::setprecision(17) << "reference (" << b.latitude << "," << b.longitude << ") point (" << p.latitude << "," << p.longitude << ")";
    input("roundtrip", o.str());
    XYPoint l = gpsToLocal(p, b);
    GeoPoint g = localToGps(l, b);
    double c = std::cos(b.latitude * M_PI / 180);
    VH_CHECK(std::fabs(g.latitude - p.latitude) < 1e-9, "roundtrip-lat", "latitude comes back as " << g.latitude);
    VH_CHECK(std::fabs(dlon(g.longitude, p.longitude)) < 1e-8, "roundtrip-lon", "longitude comes back as " << g.longitude);
    VH_CHECK(g.longitude > -180 - 1e-9 && g.longitude <= 180 + 1e-9, "lon-range", "longitude outside (-180,180]: " << g.longitude);
    VH_CHECK(near(l.y, (p.latitude - b.latitude) * PO / 360, 1e-9), "north", "y = " << l.y);
    double dl = dlon(p.longitude, b.longitude);
    if (std::fabs(std::fabs(dl) - 180) > 1e-6)
      VH_CHECK(near(l.x, dl * EQ * c / 360, 1e-9), "east", "x = " << l.x << " expected " << dl * EQ * c / 360);
    if (p.latitude == b.latitude && p.longitude == b.longitude) VH_CHECK(l.x == 0 && l.y == 0, "origin", "reference maps to " << l.x << "," << l.y);
    // local -> geo -> local
    double R = chance(0.5) ? 1000 : 0.49 * EQ * c;
    XYPoint x(real(-R, R), real(-100000, 100000));
    std::ostringstream o2; o2 << std::setprecision(17) << "reference (" << b.latitude << "," << b.longitude << ") local (" << x.x << "," << x.y << ")";
    input("roundtrip2", o2.str());
    GeoPoint h = localToGps(x, b);
    XYPoint y = gpsToLocal(h, b);
    VH_CHECK(std::fabs(y.x - x.x) < 1e-4 && std::fabs(y.y - x.y) < 1e-4, "roundtrip-local", "local point comes back as " << y.x << "," << y.y);
    VH_CHECK(h.longitude > -180 - 1e-9 && h.longitude <= 180 + 1e-9, "lon-range2", "longitude outside (-180,180]: " << h.longitude);
    VH_CHECK(near((h.latitude - b.latitude) * PO / 360, x.y, 1e-6), "north2", "latitude " << h.latitude);
  }
}
int main(int c, char** v) { return run(c, v, {body}); }
