#include "core.h"
#include "level_estimator/level_estimator_transmitters.h"
#include "level_estimator/level_estimator_radiomap.h"
#include "knn/knn_utils.h"
using namespace vc;
typedef RadioMeasurementData RM;
struct T : LevelEstimatorTransmitters { using LevelEstimatorTransmitters::LevelEstimatorTransmitters; using LevelEstimatorTransmitters::detectCurrentLevel; };
struct Rm : LevelEstimatorRadiomap { using LevelEstimatorRadiomap::LevelEstimatorRadiomap; using LevelEstimatorRadiomap::detectCurrentLevel; };
static void detect() {
  for (uint64_t n = 0; more(n); ++n) {
    int nl = irange(0, 5), nt = irange(1, 8);
    auto lc = std::make_shared<LevelCollector>();
    GeoPoint ref(55.7, 37.6);
    std::ostringstream o;
    struct L { std::string id; std::map<std::string, double> A; std::vector<std::map<std::string, double>> rps; };
    std::vector<L> ls;
    for (int i = 0; i < nl; ++i) {
      L l; l.id = "l" + std::to_string((i * 7 + (int)n) % 11); bool dup = false; for (auto& k : ls) dup |= k.id == l.id; if (dup) continue;
      GeoLevel g = emptyLevel(l.id, ref, LevelSpec());
      o << " level " << l.id << ":";
      for (int t = 0; t < nt; ++t) if (chance(0.6)) {
        double A = irange(-80, -20); std::string id = "t" + std::to_string(t);
        g.transmitters.push_back(tx(ref, id, irange(0, 60), irange(0, 40), 2, TransmitterType::BEACON, PathlossModel{A, 20, 0})); l.A[id] = A; o << " " << id << "/A" << A;
      }
      int nr = irange(0, 4);
      for (int r = 0; r < nr; ++r) {
        GeoPoint p = at(ref, irange(0, 60), irange(0, 40)); std::map<TransmitterId, SignalStatistics> fps;
        std::map<std::string, double> fp; o << " [";
        for (int t = 0; t < nt; ++t) if (chance(0.7)) { SignalStatistics s; s.mean = chance(0.1) ? irange(20, 90) : -irange(20, 90); std::string id = "t" + std::to_string(t); fps[TransmitterId(id)] = s; fp[id] = s.mean; o << " " << id << "=" << s.mean; }
        o << "]"; g.referencePoints.emplace_back(ReferencePointId("r" + std::to_string(r)), p, fps); l.rps.push_back(fp);
      }
      lc->addGeoLevel(g); ls.push_back(l);
    }
    RadioMeasurementsData ms; int nm = irange(0, 8); o << " |";
    for (int k = 0; k < nm; ++k) { RM m; m.type = RM::Type::BEACON; m.id = TransmitterId("t" + std::to_string(irange(0, nt))); m.rssi = chance(0.1) ? -irange(1, 4) * 300 : -irange(20, 99); o << " " << m.id.value << ":" << m.rssi; ms.push_back(m); }
    for (int mode = 0; mode < 4; ++mode) {
      NavigationSettings ns; ns.commonSettings.useTxPower = mode & 1; ns.commonSettings.useBestRefPointLevel = mode & 1;
      input("detect", (mode < 2 ? std::string("transmitters ") : std::string("radiomap ")) + std::to_string(mode & 1) + o.str());
      std::vector<std::pair<double, bool>> cost;
      for (auto& l : ls) {
        if (mode < 2) {
          double s = 0, a = 0; int c = 0; for (auto& m : ms) if (l.A.count(m.id.value)) { s += m.rssi; a += l.A[m.id.value]; ++c; }
          if (!c) { cost.push_back({0, false}); continue; }
          double v = (s / c + (mode & 1 ? a / c : 0)) / (1 + 0.1 * c / ms.size()); cost.push_back({v, v > -1000});
        } else if (mode == 2) {
          double w = 0; int u = 0;
          for (auto& m : ms) { double s = 0; int c = 0; for (auto& r : l.rps) if (r.count(m.id.value)) { s += 1 / (std::fabs(std::fabs(m.rssi) - std::fabs(r[m.id.value])) + 0.1); ++c; } if (c) { w += s / c; ++u; } }
          cost.push_back({w * u, w * u > 0});
        } else {
          std::multimap<TransmitterId, std::pair<ReferencePointId, SignalStatistics>> mm;
          for (size_t r = 0; r < l.rps.size(); ++r) for (auto& f : l.rps[r]) { SignalStatistics s; s.mean = f.second; mm.insert({TransmitterId(f.first), {ReferencePointId("r" + std::to_string(r)), s}}); }
          double b = 0; for (auto& w : calcRpWeightsKnn(mm, ms, true)) b = std::max(b, w.second);
          cost.push_back({b, b > 0});
        }
      }
      std::string got = mode < 2 ? T(lc, ns).detectCurrentLevel(ms).value : Rm(lc, ns).detectCurrentLevel(ms).value;
      double best = 0; bool any = false; std::string first;
      for (size_t i = 0; i < ls.size(); ++i) if (cost[i].second && (!any || cost[i].first > best)) { any = true; best = cost[i].first; first = ls[i].id; }
      if (!any) { VH_CHECK(got == "", "none", "level '" << got << "' although none qualifies"); continue; }
      double gc = -1e300; for (size_t i = 0; i < ls.size(); ++i) if (ls[i].id == got && cost[i].second) gc = cost[i].first;
      VH_CHECK(gc >= best - 1e-9 * std::fabs(best) - 1e-12, "best", "level '" << got << "' (" << gc << ") instead of '" << first << "' (" << best << ")");
      int ties = 0; for (auto& c : cost) if (c.second && std::fabs(c.first - best) < 1e-9) ++ties;
      // exact ties: identical sums in identical order give identical doubles
      if (ties > 1) for (size_t i = 0; i < ls.size(); ++i) if (cost[i].second && cost[i].first == best) { bool exact = true; (void)exact; VH_CHECK(gc != best || got == ls[i].id, "tie", "level '" << got << "' although '" << ls[i].id << "' comes first with the same value"); break; }
    }
  }
}
int main(int c, char** v) { return run(c, v, {detect}); }
