#include "core.h"
#include "position_estimator/position_estimator_zone.h"
using namespace vc;
typedef RadioMeasurementData RM;
static void zone() {
  for (uint64_t n = 0; more(n); ++n) {
    int nl = irange(1, 3), nt = irange(1, 7);
    auto lc = std::make_shared<LevelCollector>(); GeoPoint ref(55.7, 37.6); std::ostringstream o; o.precision(9);
    struct T { double x, y; }; struct L { std::string id; double A, B; std::map<std::string, T> tx; };
    std::vector<L> ls; NavigationSettings ns;
    for (int i = 0; i < nl; ++i) {
      L l; l.id = "l" + std::to_string(i); l.A = irange(-90, -40); do l.B = real(-10, 10); while (std::fabs(l.B) < 0.5);
      GeoLevel g = emptyLevel(l.id, ref, LevelSpec()); o << " level " << l.id << " A" << l.A << " B" << l.B;
      for (int t = 0; t < nt; ++t) if (chance(0.6)) { T p{(double)irange(0, 60), (double)irange(0, 40)}; std::string id = "t" + std::to_string(t); g.transmitters.push_back(tx(ref, id, p.x, p.y, 2)); l.tx[id] = p; o << " " << id << "@" << p.x << "," << p.y; }
      lc->addGeoLevel(g); ls.push_back(l); ns.levelsSettings[LevelId(l.id)].normalModeA = l.A; ns.levelsSettings[LevelId(l.id)].normalModeB = l.B;
    }
    PositionEstimatorZone e(lc, ns); MotionInfo mi;
    for (int call = 0; call < 3; ++call) {
      const L& l = ls[irange(0, nl - 1)]; RadioMeasurementsData ms; std::ostringstream q; q << o.str() << " | call " << l.id;
      for (int k = irange(0, 6); k > 0; --k) { RM m; m.type = RM::Type::BEACON; m.id = TransmitterId("t" + std::to_string(irange(0, nt))); m.rssi = -irange(20, chance(0.5) ? 26 : 99); q << " " << m.id.value << ":" << m.rssi; ms.push_back(m); }
      input("zone", q.str());
      long long ts = irange(0, 99999); NavigationStatus st = NavigationStatus::NO_LEVEL;
      Position p = e.calculatePosition(lc->level(LevelId(l.id)), ts, ms, mi, st);
      const RM* best = nullptr; for (auto& m : ms) if (l.tx.count(m.id.value) && (!best || m.rssi > best->rssi)) best = &m;
      if (!best) { VH_CHECK(st == NavigationStatus::NO_SOLUTION && p.isEmpty, "none", "status " << (int)st << " or a position although no transmitter of the level is heard"); continue; }
      VH_CHECK(st == NavigationStatus::OK && !p.isEmpty && p.levelId.value == l.id && p.ts == ts && p.provider == Provider::INDOOR, "fields", "status, level, time or provider of the position");
      const T& t = l.tx.at(best->id.value); double d = std::sqrt(std::exp((l.A - best->rssi) / l.B)) + 1;
      VH_CHECK(vh::near(p.x, t.x, 1e-5) && vh::near(p.y, t.y, 1e-5), "place", "position (" << p.x << "," << p.y << ") instead of " << best->id.value << " at (" << t.x << "," << t.y << ")");
      VH_CHECK(vh::near(p.deviationM, d, 1e-9) && p.deviationM >= 1, "deviation", "deviation " << p.deviationM << " instead of " << d);
    }
  }
}
int main(int c, char** v) { return run(c, v, {zone}); }
