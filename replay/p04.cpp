#include "core.h"
using namespace vc;
static void levels() {
  for (uint64_t n = 0; more(n); ++n) {
    GeoPoint ref(real(-70, 70), real(-179, 179));
    LevelSpec s; s.w = irange(5, 200); s.h = irange(5, 200); s.alt = irange(-5, 30) * 0.5; s.swapBox = chance(0.3);
    if (chance(0.5)) s.holes = {{1, 1, s.w / 2, 2}};
    GeoLevel g = emptyLevel("L", ref, s);
    std::ostringstream o; o << std::setprecision(12) << "ref " << ref.latitude << "," << ref.longitude << " box " << s.w << "x" << s.h << (s.swapBox ? " swapped" : "") << " alt " << s.alt << " holes " << s.holes.size();
    int k = irange(0, 4);
    for (int i = 0; i < k; ++i) { g.transmitters.push_back(tx(ref, "t" + std::to_string(i), irange(-20, 100), irange(-20, 100), irange(-6, 6) * 0.5, (TransmitterType)irange(0, 5), {real(-80, -40), real(1, 40), real(0, 10)})); }
    int r = irange(0, 4);
    for (int i = 0; i < r; ++i) { std::map<TransmitterId, SignalStatistics> f; for (int j = 0; j < i; ++j) f.insert({TransmitterId("t" + std::to_string(j)), SignalStatistics{TransmitterType::BEACON, real(-100, 5), real(0, 9), (size_t)irange(0, 50)}}); g.referencePoints.emplace_back(ReferencePointId("r" + std::to_string(i)), at(ref, irange(-10, 100), irange(-10, 50)), f); }
    int v = irange(0, 6); for (int i = 0; i < v; ++i) g.graph.addVertex(at(ref, irange(-2, chance(0.5) ? 2 : 100), irange(0, chance(0.5) ? 2 : 100)));
    o << " tx " << k << " rp " << r << " vertices " << v << " edges";
    std::set<std::pair<int, int>> want;
    int e = irange(0, 8);
    for (int i = 0; i < e; ++i) {
      int a = irange(-1, v), b = irange(-1, v); bool ok = a >= 0 && a < v && b >= 0 && b < v, threw = false;
      o << " " << a << "-" << b;
      try { g.graph.addEdge(a, b); } catch (std::exception&) { threw = true; }
      if (ok) want.insert({std::min(a, b), std::max(a, b)});
      if (threw == ok) { input("graph", o.str()); VH_CHECK(false, "addEdge-throw", "addEdge(" << a << "," << b << ") with " << v << " vertices: " << (threw ? "threw" : "accepted")); }
    }
    input("level", o.str());
    for (int i = -1; i <= v; ++i) VH_CHECK(g.graph.hasVertex(i) == (i >= 0 && i < v), "hasVertex", "hasVertex(" << i << ") with " << v << " vertices");
    std::set<std::pair<int, int>> got0(g.graph.edgesBegin(), g.graph.edgesEnd());
    VH_CHECK(got0 == want, "edges", "the graph has " << got0.size() << " edges, expected " << want.size());
    LevelCollector lc; int before = irange(0, 2);
    for (int i = 0; i < before; ++i) { GeoLevel e = emptyLevel("E" + std::to_string(i), at(ref, i + 1, i + 2), {}); e.transmitters.push_back(tx(ref, "t" + std::to_string(i), 7 + i, 3, 1)); lc.addGeoLevel(e); }
    lc.addGeoLevel(g);
    VH_CHECK(lc.levels().size() == (size_t)before + 1, "appended", lc.levels().size() << " levels after adding " << before + 1);
    for (int i = 0; i < before && i < (int)lc.levels().size(); ++i) VH_CHECK(lc.levels()[i].id().value == "E" + std::to_string(i) && lc.levels()[i].containsTransmitter(TransmitterId("t" + std::to_string(i))) && std::fabs(lc.levels()[i].transmitter(TransmitterId("t" + std::to_string(i))).point.x - 6) < 1e-2, "earlier-level", "earlier level " << i << " changed");
    const Level& l = lc.levels().at(before);
    VH_CHECK(near(l.bindingPoint().latitude, ref.latitude, 1e-12) && near(l.bindingPoint().longitude, ref.longitude, 1e-12), "binding", "bound at " << l.bindingPoint().latitude << "," << l.bindingPoint().longitude);
    GeoPoint b = l.bindingPoint();
    Box bx = l.geometry().boundingBox();
    VH_CHECK(near(bx.min_corner().x(), 0, 1e-6) && near(bx.min_corner().y(), 0, 1e-6) && near(bx.max_corner().x(), s.w, 1e-4) && near(bx.max_corner().y(), s.h, 1e-4), "box",
             "local box (" << bx.min_corner().x() << "," << bx.min_corner().y() << ")-(" << bx.max_corner().x() << "," << bx.max_corner().y() << ")");
    for (auto& t : g.transmitters) {
      if (!l.containsTransmitter(t.id)) { VH_CHECK(false, "tx-missing", "transmitter " << t.id.value << " lost"); continue; }
      auto& q = l.transmitter(t.id); XYPoint p = loc(t.point.latitude, t.point.longitude, b);
      VH_CHECK(near(q.point.x, p.x, 1e-6) && near(q.point.y, p.y, 1e-6), "tx-xy", "transmitter " << t.id.value << " at " << q.point.x << "," << q.point.y << " expected " << p.x << "," << p.y);
      VH_CHECK(near(q.point.z, s.alt + t.point.altitude, 1e-9), "tx-z", "transmitter height " << q.point.z << " expected " << s.alt + t.point.altitude);
      VH_CHECK(q.type == t.type && q.pathlossModel.A == t.pathlossModel.A && q.pathlossModel.B == t.pathlossModel.B && q.pathlossModel.power == t.pathlossModel.power, "tx-model", "type or path-loss model changed");
    }
    auto& rp = l.radiomap().referencePoints();
    VH_CHECK(rp.size() == g.referencePoints.size(), "rp-count", rp.size() << " reference points");
    for (size_t i = 0; i < rp.size() && i < g.referencePoints.size(); ++i) {
      auto& a = g.referencePoints[i]; XYPoint p = loc(a.point.latitude, a.point.longitude, b); bool f = rp[i].fingerprints.size() == a.fingerprints.size();
      for (auto& kv : a.fingerprints) { auto it = rp[i].fingerprints.find(kv.first); f = f && it != rp[i].fingerprints.end() && it->second.mean == kv.second.mean && it->second.variance == kv.second.variance && it->second.nMeasurements == kv.second.nMeasurements; }
      VH_CHECK(rp[i].id == a.id && near(rp[i].point.x, p.x, 1e-6) && near(rp[i].point.y, p.y, 1e-6) && f, "rp", "reference point " << i << " not converted faithfully: " << rp[i].point.x << "," << rp[i].point.y);
    }
    int vi = 0;
    for (auto it = l.graph().vertexBegin(); it != l.graph().vertexEnd(); ++it, ++vi) {
      auto q = g.graph.vertex(vi); XYPoint p = loc(q.point.latitude, q.point.longitude, b);
      VH_CHECK(it->id == vi && near(it->point.x, p.x, 1e-6) && near(it->point.y, p.y, 1e-6), "vertex", "vertex " << vi << " at " << it->point.x << "," << it->point.y << " expected " << p.x << "," << p.y);
    }
    VH_CHECK(vi == v, "vertices", "local graph has " << vi << " vertices, expected " << v);
    std::set<std::pair<int, int>> got(l.graph().edgesBegin(), l.graph().edgesEnd());
    VH_CHECK(got == want, "local-edges", "local graph has " << got.size() << " edges, expected " << want.size());
    double area = 0; for (auto& p : l.geometry().allowedArea()) area += std::fabs(boost::geometry::area(p));
    double wa = s.w * s.h - (s.holes.empty() ? 0 : (s.w / 2 - 1) * 1);
    VH_CHECK(near(area, wa, 1e-5), "area", "allowed area " << area << " expected " << wa);
  }
}
// a path touches barriers iff it leaves the allowed area or meets an inner ring
static void barriers() {
  for (uint64_t n = 0; more(n); ++n) {
    GeoPoint ref(real(-60, 60), real(-170, 170));
    LevelSpec s; s.w = 40; s.h = 30; int k = irange(0, 5);
    for (int i = 0; i < k; ++i) { double x = irange(1, 30), y = irange(1, 20); s.holes.push_back({x, y, x + irange(1, 6), y + irange(1, 6)}); }
    LevelCollector lc; lc.addGeoLevel(emptyLevel("L", ref, s));
    const LevelGeometry& g = lc.levels()[0].geometry();
    for (int q = 0; q < 20; ++q) {
      double a = real(-3, 43) + 0.013, b = real(-3, 33) + 0.017, c = chance(0.5) ? a + real(-5, 5) : real(-3, 43) + 0.011, d = chance(0.5) ? b + real(-5, 5) : real(-3, 33) + 0.019;
      std::ostringstream o; o << std::setprecision(12) << "holes"; for (auto& h : s.holes) o << " [" << h[0] << "," << h[1] << "," << h[2] << "," << h[3] << "]"; o << " path (" << a << "," << b << ")-(" << c << "," << d << ")";
      input("barriers", o.str());
      auto inb = [&](double x, double y) { return x >= 0 && x <= 40 && y >= 0 && y <= 30; };
      bool want = !inb(a, b) || !inb(c, d);
      for (auto& h : s.holes) { double lo = 0, hi = 1; bool e = false; double p[4] = {-(c - a), c - a, -(d - b), d - b}, r[4] = {a - h[0], h[2] - a, b - h[1], h[3] - b};
        for (int i = 0; i < 4 && !e; ++i) { if (p[i] == 0) { if (r[i] < 0) e = true; } else { double t = r[i] / p[i]; if (p[i] < 0) lo = std::max(lo, t); else hi = std::min(hi, t); } }
        if (!e && lo <= hi) want = true; }
      double m = 1e9; for (double v : {a, c}) { m = std::min({m, std::fabs(v), std::fabs(v - 40)}); } for (double v : {b, d}) m = std::min({m, std::fabs(v), std::fabs(v - 30)});
      if (m < 1e-3) continue;
      Linestring ls; ls.push_back(Point(a, b)); ls.push_back(Point(c, d));
      bool got = g.isPathTouchesBarriers(ls);
      VH_CHECK(got == want, "barriers", "isPathTouchesBarriers = " << got << " expected " << want);
    }
  }
}
// several allowed polygons, each a square, some with a square hole
static void islands() {
  for (uint64_t n = 0; more(n); ++n) {
    int k = irange(1, 4); Multipolygon mp; std::vector<int> hole; std::ostringstream o; o << std::setprecision(12) << "squares of 10 at x=20*i, holes:";
    for (int i = 0; i < k; ++i) {
      double x = 20 * i; Polygon p; for (auto c : std::vector<std::pair<double, double>>{{x, 0}, {x, 10}, {x + 10, 10}, {x + 10, 0}, {x, 0}}) boost::geometry::append(p.outer(), Point(c.first, c.second));
      int h = irange(0, 2); hole.push_back(h); o << " " << h;
      for (int j = 0; j < h; ++j) { double y = 1 + 5 * j; p.inners().push_back({}); for (auto c : std::vector<std::pair<double, double>>{{x + 4, y}, {x + 6, y}, {x + 6, y + 2}, {x + 4, y + 2}, {x + 4, y}}) boost::geometry::append(p.inners().back(), Point(c.first, c.second)); }
      mp.push_back(p);
    }
    LevelGeometry g(mp, Box(Point(0, 0), Point(80, 10)));
    VH_CHECK((int)g.allowedArea().size() == k, "allowed-area", "allowed area has " << g.allowedArea().size() << " polygons");
    for (int q = 0; q < 10; ++q) {
      int i = irange(0, k), j = chance(0.8) ? i : irange(0, k); bool flat = chance(0.5);
      double y = flat ? irange(0, 9) + 0.5 : 0; double a = 20 * i + irange(0, 9) + 0.5, c = 20 * j + irange(0, 9) + 0.5, b = y, d = y;
      if (!flat) { c = a; b = irange(0, 9) + 0.5; d = irange(0, 9) + 0.5; j = i; }
      std::ostringstream o2; o2 << o.str() << " path (" << a << "," << b << ")-(" << c << "," << d << ")"; input("islands", o2.str());
      bool want = i >= k || j >= k || i != j;
      if (!want) for (int m = 0; m < hole[i]; ++m) { double h0 = 20 * i + 4, y0 = 1 + 5 * m; if (std::max(std::min(a, c), h0) <= std::min(std::max(a, c), h0 + 2) && std::max(std::min(b, d), y0) <= std::min(std::max(b, d), y0 + 2)) want = true; }
      Linestring ls; ls.push_back(Point(a, b)); ls.push_back(Point(c, d));
      bool got = g.isPathTouchesBarriers(ls);
      VH_CHECK(got == want, "islands", "isPathTouchesBarriers = " << got << " expected " << want);
    }
  }
}
int main(int c, char** v) { return run(c, v, {levels, barriers, islands}); }
