#include "core.h"
#include "measurements/measurement_preprocessor.h"
using namespace vc;
typedef RadioMeasurementData RM;
// measurement windows of the preprocessor against a list model, over whole histories
static void windows() {
  for (uint64_t n = 0; more(n); ++n) {
    NavigationSettings ns; auto& s = ns.commonSettings;
    static const double T[] = {0, 0.5, 1, 1.5, 2, 3, 4};
    s.sigAveragingTime = T[irange(0, 6)]; s.sigWindowShift = T[irange(0, 6)]; s.useStops = chance(0.5); s.stopDetectionTime = T[irange(0, 6)];
    s.useUnknownTransmitters = true; s.sigCutOffRss = -200;
    long long avg = s.sigAveragingTime * 1000, shift = s.sigWindowShift * 1000, stop = s.stopDetectionTime * 1000;
    if (shift == 0 || shift > avg) shift = avg;
    long long keep = avg - shift;
    std::ostringstream o; o << "averaging " << avg << " shift " << shift << " stop " << (s.useStops ? stop : -1) << " |";
    MeasurementsPreprocessor p(std::make_shared<LevelCollector>(), ns);
    struct Item { long long ts; RM d; }; std::vector<Item> buf;
    long long ts = irange(1, 3000), lastEx = 0, cur = 0, step = 0; bool any = false;
    int nt = irange(1, 5), msgs = irange(1, 25), stepMs = pick(std::vector<int>{20, 100, 500, 1500});
    for (int k = 0; k < msgs; ++k) {
      ts += chance(0.1) ? stepMs * 10 : chance(0.3) ? stepMs : irange(0, stepMs);
      RM d; d.type = RM::Type::BEACON; d.id = TransmitterId("t" + std::to_string(irange(0, nt))); d.rssi = -irange(1, 99) - chance(0.3) * 0.5; d.distance = irange(0, 40) + chance(0.3) * 0.25; d.stddev = 2; d.power = 3;
      Measurement m; m.ts = ts; m.data = d;
      o << " " << d.id.value << "@" << ts << ":" << d.rssi << "/" << d.distance;
      input("windows", o.str());
      p.updateMeasurements(m);
      if (!any) lastEx = ts;
      any = true; cur = ts; buf.push_back({ts, d});
      if (chance(0.3)) continue;
      long long call = chance(0.4) ? std::max(0LL, ts - irange(0, 5000)) : 0;
      o << " extract(" << call << ")"; begin("windows", o.str());
      auto got = p.extractRadioMeasurements(call);
      if (call > 0) step = call;
      if (cur - lastEx < shift) { VH_CHECK(got.empty(), "early", got.size() << " measurements although only " << cur - lastEx << " of " << shift << " ms have passed"); continue; }
      lastEx = cur;
      struct Sum { double r = 0, d = 0; int n = 0; };
      std::map<std::string, Sum> sum;
      for (auto& b : buf) { auto& q = sum[b.d.id.value]; q.r += b.d.rssi; q.d += b.d.distance; q.n++; }
      VH_CHECK(got.size() == sum.size(), "entries", got.size() << " entries for " << sum.size() << " transmitters in the window");
      std::set<std::string> seen;
      for (auto& g : got) {
        auto it = sum.find(g.id.value);
        VH_CHECK(it != sum.end() && seen.insert(g.id.value).second, "foreign", "entry for " << g.id.value << " not in the window or twice");
        if (it == sum.end()) continue;
        VH_CHECK(near(g.rssi, it->second.r / it->second.n, 1e-9), "mean-rssi", "rssi of " << g.id.value << " is " << g.rssi << ", mean of " << it->second.n << " is " << it->second.r / it->second.n);
        VH_CHECK(near(g.distance, it->second.d / it->second.n, 1e-9), "mean-distance", "distance of " << g.id.value << " is " << g.distance << ", mean is " << it->second.d / it->second.n);
        VH_CHECK(g.type == RM::Type::BEACON && g.stddev == 2 && g.power == 3, "fields", "other fields of " << g.id.value << " altered");
      }
      if (s.useStops && step > 0 && cur - step > stop) continue;
      std::vector<Item> left; if (keep) for (auto& b : buf) if (b.ts >= cur - keep) left.push_back(b);
      buf = left;
    }
  }
}
int main(int c, char** v) { return run(c, v, {windows}); }
