// random indoor locations built through the public API of the navigation core
#pragma once
#define BAD(...) do { printf(__VA_ARGS__); printf("\n"); return 1; } while (0)
#include <cstdio>
#include <cmath>
#include <cassert>
#include <vector>
#include <string>
#include <navigine/navigation-core/level_collector.h>
#include <navigine/navigation-core/geolevel.h>
namespace vc {
using namespace navigine::navigation_core;
static const double EQ = 40075160.0, PO = 40008000.0;

struct Site {
  GeoPoint ref{55.75, 37.6};
  std::vector<GeoLevel> geo;
};
// oracle for the (separately checked) conversion
inline XYPoint loc(double lat, double lon, const GeoPoint& b) {
  double d = std::fmod(lon - b.longitude, 360.0); if (d > 180) d -= 360; if (d <= -180) d += 360;
  return XYPoint(d * EQ * std::cos(b.latitude * M_PI / 180) / 360, (lat - b.latitude) * PO / 360);
}
inline GeoPoint at(const GeoPoint& b, double x, double y) {
  double lon = b.longitude + x * 360 / (EQ * std::cos(b.latitude * M_PI / 180));
  if (lon > 180) lon -= 360;
  return GeoPoint(b.latitude + y * 360 / PO, lon);
}
inline Polygon geoRect(const GeoPoint& b, double x0, double y0, double x1, double y1, std::vector<std::vector<double>> holes = {}) {
  Polygon p;
  auto pt = [&](double x, double y) { GeoPoint g = at(b, x, y); return Point(g.latitude, g.longitude); };
  for (auto c : std::vector<std::pair<double, double>>{{x0, y0}, {x0, y1}, {x1, y1}, {x1, y0}, {x0, y0}}) boost::geometry::append(p.outer(), pt(c.first, c.second));
  for (auto& h : holes) {
    p.inners().push_back({});
    for (auto c : std::vector<std::pair<double, double>>{{h[0], h[1]}, {h[2], h[1]}, {h[2], h[3]}, {h[0], h[3]}, {h[0], h[1]}}) boost::geometry::append(p.inners().back(), pt(c.first, c.second));
  }
  return p;
}
inline Box geoBox(const GeoPoint& b, double x0, double y0, double x1, double y1) {
  GeoPoint p = at(b, x0, y0), q = at(b, x1, y1);
  return Box(Point(p.latitude, p.longitude), Point(q.latitude, q.longitude));
}
struct LevelSpec { double w = 60, h = 40, alt = 0; std::vector<std::vector<double>> holes; bool swapBox = false; };
inline GeoLevel emptyLevel(const std::string& id, const GeoPoint& ref, const LevelSpec& s) {
  Multipolygon mp; mp.push_back(geoRect(ref, 0, 0, s.w, s.h, s.holes));
  Box b = s.swapBox ? geoBox(ref, s.w, s.h, 0, 0) : geoBox(ref, 0, 0, s.w, s.h);
  return GeoLevel{LevelId(id), {}, {}, LevelGeometry(mp, b), Graph<GeoPoint>(), s.alt};
}
inline Transmitter<GeoPoint3D> tx(const GeoPoint& ref, const std::string& id, double x, double y, double z, TransmitterType t = TransmitterType::BEACON, PathlossModel m = {-60, 20, 0}) {
  GeoPoint g = at(ref, x, y);
  return Transmitter<GeoPoint3D>(TransmitterId(id), GeoPoint3D(g.latitude, g.longitude, z), m, t);
}
}
