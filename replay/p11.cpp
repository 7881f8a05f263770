#include "core.h"
#include "position_estimator/position_estimator_outdoor.h"
using namespace vc;
static void outdoor() {
  for (uint64_t n = 0; more(n); ++n) {
    int nl = irange(1, 3); auto lc = std::make_shared<LevelCollector>(); GeoPoint ref(55.7, 37.6); std::ostringstream o; o.precision(9);
    struct L { double x, y, w, h; }; std::vector<L> ls;
    for (int i = 0; i < nl; ++i) { LevelSpec sp; L l{(double)irange(0, 60), (double)irange(0, 60), (double)irange(20, 80), (double)irange(20, 80)}; sp.w = l.w; sp.h = l.h; sp.swapBox = chance(0.3);
      lc->addGeoLevel(emptyLevel("l" + std::to_string(i), at(ref, l.x, l.y), sp)); ls.push_back(l); o << " [" << l.x << "," << l.y << " " << l.w << "x" << l.h << "]"; }
    NavigationSettings ns; auto& s = ns.commonSettings;
    s.sigmaFilterWindow = irange(1, 6); s.sigmaFilterDelta = irange(0, 3); s.gpsValidTimeWindowSec = irange(0, 5); s.useGpsOutsideMap = chance(0.2); s.useGpsSigmaFilter = chance(0.6); s.minNumSats = irange(0, 8); s.minGpsDeviation = irange(0, 10); s.maxGpsDeviation = chance(0.3) ? INFINITY : irange(8, 30);
    o << " w" << s.sigmaFilterWindow << " d" << s.sigmaFilterDelta << " valid" << s.gpsValidTimeWindowSec << (s.useGpsOutsideMap ? " outside" : "") << (s.useGpsSigmaFilter ? " sigma" : "") << " sats" << s.minNumSats << " dev" << s.minGpsDeviation << ".." << s.maxGpsDeviation;
    PositionEstimatorOutdoor e(lc, ns);
    std::vector<std::pair<double, double>> win; Position last; long long ts = irange(0, 2000); double fx = irange(10, 90), fy = irange(10, 90);
    for (int k = irange(2, 14); k > 0; --k) {
      if (!chance(0.2)) ts += irange(0, 3000);
      SensorMeasurement m; m.ts = ts; bool isloc = !chance(0.2); m.data.type = isloc ? SensorMeasurementData::Type::LOCATION : SensorMeasurementData::Type::BAROMETER;
      if (chance(0.1)) fx = irange(-40, 140), fy = irange(-40, 140); else fx += real(-2, 2), fy += real(-2, 2);
      GeoPoint g = at(ref, fx, fy); m.data.values.x = g.latitude; m.data.values.y = g.longitude; m.data.values.z = irange(0, 35);
      NmeaMeasurement nm; nm.ts = ts; nm.data.sentenceNumber = irange(1, 2); nm.data.satellitesNumber = irange(0, 9); bool indoor = chance(0.1);
      o << " | " << ts << (isloc ? " fix " : " other ") << fx << "," << fy << " dev " << m.data.values.z << " nmea " << nm.data.sentenceNumber << "/" << nm.data.satellitesNumber << (indoor ? " indoor" : "");
      input("outdoor", o.str());
      Position p = e.calculatePosition(ts, m, nm, indoor);
      double dev = std::max(m.data.values.z, s.minGpsDeviation); int sats = nm.data.sentenceNumber == 1 ? nm.data.satellitesNumber : 0;
      if (indoor || (isloc && dev > s.maxGpsDeviation)) win.clear();
      if (!isloc) {
        bool fresh = (ts - last.ts) / 1000.0 <= s.gpsValidTimeWindowSec;
        VH_CHECK(fresh ? (p.isEmpty == last.isEmpty && (p.isEmpty || (p.x == last.x && p.ts == last.ts))) : p.isEmpty, "repeat", "without a fix the remembered position (" << (fresh ? "fresh" : "too old") << ") is not handled correctly");
        continue;
      }
      int lv = -1; double x = 0, y = 0; bool border = false;
      for (int i = 0; i < nl && lv < 0; ++i) { XYPoint q = loc(g.latitude, g.longitude, lc->level(LevelId("l" + std::to_string(i))).bindingPoint()); const L& l = ls[i];
        for (double d : {q.x, q.x - l.w, q.y, q.y - l.h}) border |= std::fabs(d) < 1e-3;
        if (s.useGpsOutsideMap || (q.x >= 0 && q.x <= l.w && q.y >= 0 && q.y <= l.h)) { lv = i; x = q.x; y = q.y; } }
      if (border) break;
      if (lv < 0) { VH_CHECK(p.isEmpty, "outside", "a position although no level covers the fix"); continue; }
      bool ok = true, close = false;
      if (s.useGpsSigmaFilter && ts != last.ts) {
        ok = false;
        if (win.size() == s.sigmaFilterWindow) {
          double N = win.size(), mx = 0, my = 0, vx = 0, vy = 0; for (auto& w : win) mx += w.first / N, my += w.second / N; for (auto& w : win) vx += (w.first - mx) * (w.first - mx), vy += (w.second - my) * (w.second - my);
          double bx = 3 * std::sqrt(vx / N) + s.sigmaFilterDelta - std::fabs(mx - x), by = 3 * std::sqrt(vy / N) + s.sigmaFilterDelta - std::fabs(my - y);
          ok = bx >= 0 && by >= 0; close = std::fabs(bx) < 1e-4 || std::fabs(by) < 1e-4; win.erase(win.begin());
        }
        win.push_back({x, y});
      }
      if (close) break;
      if (!ok || (sats && sats < (int)s.minNumSats)) { VH_CHECK(p.isEmpty, "refused", "a position although the fix is " << (ok ? "supported by too few satellites" : "refused by the sigma filter")); continue; }
      VH_CHECK(!p.isEmpty && p.levelId.value == "l" + std::to_string(lv) && p.ts == ts && p.provider == Provider::GNSS && p.deviationM == dev && vh::near(p.x, x, 1e-5) && vh::near(p.y, y, 1e-5), "fix",
               "position " << (p.isEmpty ? "empty" : "(" + num(p.x) + "," + num(p.y) + ") on " + p.levelId.value) << " instead of (" << x << "," << y << ") on l" << lv << " with deviation " << dev);
      last = p; if (p.isEmpty) break;
    }
  }
}
int main(int c, char** v) { return run(c, v, {outdoor}); }
