#include "core.h"
#include "position_postprocessor/position_postprocessor.h"
using namespace vc;
static void walk() {
  GeoPoint ref(55.7, 37.6);
  for (uint64_t n = 0; more(n); ++n) {
    bool exact = chance(0.75);
    NavigationSettings ns; auto& s = ns.commonSettings;
    s.useSmoothing = !exact && chance(0.8); s.useTimeSmoothing = !exact && chance(0.6); s.useAbFilter = chance(0.6); s.useStops = chance(0.6); s.useGpsOutsideMap = chance(0.2); s.useGraphProjection = chance(0.5);
    s.deadReckoningTime = irange(1, 6); s.stopUpdateTime = irange(0, 4); s.stopDetectionTime = irange(0, 4); s.graphProjDist = irange(1, 12); s.useStopsDistanceThresholdM = irange(2, 30); s.useBarriers = chance(0.2); s.smoothing = u01();
    PositionPostprocessor pp(ns); LevelCollector lc; std::ostringstream o; o.precision(9);
    o << (s.useSmoothing ? "smooth " : "") << (s.useTimeSmoothing ? "timesmooth " : "") << (s.useAbFilter ? "ab " : "") << (s.useStops ? "stops " : "") << (s.useGpsOutsideMap ? "outside " : "") << "dead" << s.deadReckoningTime << " upd" << s.stopUpdateTime << " stop" << s.stopDetectionTime << " graph" << (s.useGraphProjection ? s.graphProjDist : 0) << " thr" << s.useStopsDistanceThresholdM;
    int nl = irange(1, 2); std::vector<std::vector<std::array<double, 4>>> edges(nl); std::vector<std::pair<double, double>> size;
    for (int i = 0; i < nl; ++i) { LevelSpec sp; sp.w = irange(20, 60); sp.h = irange(20, 60); GeoLevel g = emptyLevel("l" + std::to_string(i), ref, sp); size.push_back({sp.w, sp.h}); o << " | level " << sp.w << "x" << sp.h << " edges";
      int nv = irange(0, 6); std::vector<std::pair<double, double>> vs; for (int k = 0; k < nv; ++k) { double x = irange(0, 60), y = irange(0, 60); vs.push_back({x, y}); g.graph.addVertex(at(ref, x, y)); }
      std::set<std::pair<int, int>> es; for (int k = irange(0, nv ? 6 : 0); k > 0; --k) { int a = irange(0, nv - 1), b = irange(0, nv - 1); es.insert({std::min(a, b), std::max(a, b)}); g.graph.addEdge(a, b); }
      for (auto& e : es) { edges[i].push_back({vs[e.first].first, vs[e.first].second, vs[e.second].first, vs[e.second].second}); o << " " << vs[e.first].first << "," << vs[e.first].second << "-" << vs[e.second].first << "," << vs[e.second].second; }
      lc.addGeoLevel(g); }
    long long now = irange(1, 20000), ext = 0, step = -1; Position last, indoor;
    for (int k = irange(2, 12); k > 0; --k) {
      now += irange(0, 3000); int li = irange(0, 9) ? 0 : nl - 1; const Level& lv = lc.level(LevelId("l" + std::to_string(li)));
      Position p; bool have = chance(0.9);
      if (have) p = Position(irange(-300, 6300) / 100.0, irange(-300, 6300) / 100.0, LevelId("l" + std::to_string(li)), irange(1, 20), now - irange(0, chance(0.9) ? 900 : 9000), false, Provider::FUSED, irange(0, 6));
      if (chance(0.6)) { indoor = Position(1, 1, LevelId("l0"), irange(1, 20), now, false, Provider::INDOOR, 0); pp.fillIndoorOutdoorPositionStates(indoor, Position()); o << " | indoor dev " << indoor.deviationM; }
      MotionInfo mi; mi.lastMotionTs = chance(0.5) ? now - irange(0, 1000) : (chance(0.5) ? 0 : -1); if (mi.lastMotionTs > 0) step = mi.lastMotionTs;
      o << " | t" << now << " step" << mi.lastMotionTs << " l" << li << (have ? "" : " none"); if (have) o << " " << p.x << "," << p.y << " dev" << p.deviationM << " t" << p.ts;
      input("out", o.str());
      Position r = pp.getProcessedPosition(p, now, mi, lv);
      double mx = lv.geometry().boundingBox().max_corner().x(), my = lv.geometry().boundingBox().max_corner().y(), lx = lv.geometry().boundingBox().min_corner().x(), ly = lv.geometry().boundingBox().min_corner().y();
      VH_CHECK(vh::near(mx, size[li].first, 1e-5) && vh::near(my, size[li].second, 1e-5), "box", "bounding box of the level");
      bool border = std::fabs(p.x - lx) < 1e-4 || std::fabs(p.x - mx) < 1e-4 || std::fabs(p.y - ly) < 1e-4 || std::fabs(p.y - my) < 1e-4; if (border && have) break;
      bool none = !have || (!s.useGpsOutsideMap && (p.x < lx || p.x > mx || p.y < ly || p.y > my)) || now - p.ts >= (long long)(1000 * s.deadReckoningTime);
      if (none) { VH_CHECK(r.isEmpty, "nothing", "a position although " << (!have ? "there is none" : "it is off the map or too old")); continue; }
      VH_CHECK(r.ts == now, "time", "time " << r.ts << " instead of " << now);
      VH_CHECK(r.x <= mx && r.y <= my && r.x > lx - 0.0101 && r.y > ly - 0.0101, "inside", "(" << r.x << "," << r.y << ") is off the level");
      VH_CHECK(std::fabs(r.x * 100 - std::round(r.x * 100)) < 1e-6 && std::fabs(r.y * 100 - std::round(r.y * 100)) < 1e-6, "centimetres", "(" << num(r.x) << "," << num(r.y) << ") is not in whole centimetres");
      if (!exact) { if (!s.useSmoothing || !s.useStops) VH_CHECK(s.useStops || s.useTimeSmoothing || s.useAbFilter || r.levelId == p.levelId, "level", "level of the position is lost"); continue; }
      bool stopped = s.useStops && step > 0 && now - step >= (long long)(1000 * s.stopDetectionTime); double dd = std::hypot(last.x - p.x, last.y - p.y);
      if (stopped && std::fabs(dd - s.useStopsDistanceThresholdM) < 1e-4) break;
      bool refresh = now - ext > (long long)(1000 * s.stopUpdateTime) && dd < s.useStopsDistanceThresholdM;
      Position w = stopped && !refresh ? last : p; if (!stopped) w.deviationM = indoor.deviationM; else if (refresh) ext = now;
      bool close = false;
      if (s.useGraphProjection && !edges[li].empty()) {
        double best = 1e300, bx = 0, by = 0, second = 1e300;
        for (auto& e : edges[li]) { double L = (e[2] - e[0]) * (e[2] - e[0]) + (e[3] - e[1]) * (e[3] - e[1]), t = L > 0 ? std::clamp(((w.x - e[0]) * (e[2] - e[0]) + (w.y - e[1]) * (e[3] - e[1])) / L, 0.0, 1.0) : 0, qx = e[0] + t * (e[2] - e[0]), qy = e[1] + t * (e[3] - e[1]), d = std::hypot(qx - w.x, qy - w.y);
          if (d < best - 1e-5) second = best, best = d, bx = qx, by = qy; else if (std::hypot(qx - bx, qy - by) > 1e-3) second = std::min(second, d); }
        close = second - best < 1e-4 || std::fabs(best - s.graphProjDist) < 1e-4;
        if (best < s.graphProjDist) w.x = bx, w.y = by;
      }
      if (close) break;
      w.x = std::clamp(w.x, lx, mx); w.y = std::clamp(w.y, ly, my);
      VH_CHECK(std::fabs(r.x + 0.005 - w.x) < 0.0051 && std::fabs(r.y + 0.005 - w.y) < 0.0051, "where", "(" << r.x << "," << r.y << ") instead of (" << w.x << "," << w.y << ") rounded down to centimetres");
      VH_CHECK(r.levelId == w.levelId && r.isEmpty == w.isEmpty && r.provider == w.provider && r.heading == w.heading && r.deviationM == w.deviationM, "rest", "level " << r.levelId.value << " deviation " << r.deviationM << " instead of " << w.levelId.value << " " << w.deviationM);
      if (std::fabs(r.x + 0.005 - w.x) >= 0.0051) break;
      last = r;
    }
  }
}
int main(int c, char** v) { return run(c, v, {walk}); }
