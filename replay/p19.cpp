#include "vh.h"
#include <pedometer.h>
using namespace vh;
using namespace navigine::navigation_core;
struct Ref {      // the pedometer on a plain history
  struct S { long long ts; double m; }; std::vector<S> acc, mg; long long last = -1; bool close = false;
  void add(long long ts, double m) {
    acc.push_back({ts, m});
    double sa = 0, sf = 0; int na = 0, nf = 0; for (auto& a : acc) { if (ts - a.ts < 2500) sa += a.m, ++na; if (ts - a.ts < 200) sf += a.m, ++nf; }
    sf /= nf; if (ts != 0) mg.push_back({ts, sf - (sa + sf) / na});
  }
  std::vector<std::pair<long long, double>> steps(size_t seen) {
    std::vector<std::pair<long long, double>> out; if (mg.size() <= 3) return out;
    const double thr = 0.05 * 9.80665;
    for (size_t n = seen; n < mg.size(); ++n) { double a = mg[n - 1].m, b = mg[n].m; long long ts = mg[n].ts; if (std::fabs(a - thr) < 1e-9 || std::fabs(b - thr) < 1e-9) close = true;
      if (a < thr && b > thr && ts - last > 300) {
        double lo = 1e300, hi = -1e300; for (int i = (int)n - 1; i >= 0; --i) { lo = std::min(lo, mg[i].m); hi = std::max(hi, mg[i].m); if (ts - mg[i].ts > 700) break; }
        last = ts; out.push_back({ts, 0.52 * std::pow(hi - lo, 0.25)}); } }
    while (mg.back().ts - mg[0].ts > 1400) mg.erase(mg.begin());
    return out;
  }
};
static void walk() {
  for (uint64_t n = 0; more(n); ++n) {
    Pedometer p; Ref r; long long ts = chance(0.1) ? 0 : irange(1, 3000); std::ostringstream o; o.precision(17); double f = real(0.3, 5), A = real(0.2, 8), ph = real(0, 6); int dt = irange(5, 120); bool stop = false; int len = irange(3, 80);
    int most = chance(0.5) ? 1 : chance(0.5) ? 4 : 40;
    for (int k = 0; k < len && !stop; ++k) {
      std::vector<SensorMeasurement> b; std::vector<std::pair<long long, double>> w; size_t seen = std::max(p.mFilteredAccMagnitudes.size(), size_t(1)); int m = chance(0.1) ? 0 : irange(1, most); o << " |";
      for (int q = 0; q < m; ++q) {
        ts += chance(0.03) ? irange(300, 6000) : chance(0.1) ? irange(0, 3) : irange(dt / 2, dt);
        if (chance(0.03)) A = real(0, 8);
        double g = 9.80665 + A * std::sin(2 * M_PI * f * ts / 1000 + ph) + real(-0.3, 0.3), c = real(-1, 1), s = std::sqrt(1 - c * c);
        SensorMeasurement a; a.ts = ts; a.values = Vector3d(g * c, g * s * 0.6, g * s * 0.8); b.push_back(a); r.add(ts, a.values.magnitude());
        o << " " << ts << ":" << a.values.x << "," << a.values.y << "," << a.values.z;
      }
      input("pedometer", o.str());
      p.update(b); w = r.steps(seen);
      if (r.close) break;
      std::deque<Step> st = p.calculateSteps();
      if (!st.empty()) vh::nontrivial(n * 1000 + k);
      stop = st.size() != w.size(); VH_CHECK(!stop, "steps", st.size() << " steps instead of " << w.size() << " at " << ts);
      for (size_t i = 0; !stop && i < w.size(); ++i) { stop = st[i].ts != w[i].first || !(std::fabs(st[i].len - w[i].second) < 1e-6) || !(st[i].len >= 0); VH_CHECK(!stop, "step", "step at " << st[i].ts << " of " << st[i].len << " m instead of " << w[i].first << ", " << w[i].second << " m"); }
      bool full = p.mTimes.size() > 50 || (m && p.mAccelMeasurements.back().ts - p.mAccelMeasurements.front().ts > 5000); VH_CHECK(!full, "memory", "buffers grow"); stop = stop || full;
      full = p.mFilteredAccMagnitudes.size() != r.mg.size(); VH_CHECK(!full, "magnitudes", p.mFilteredAccMagnitudes.size() << " magnitudes held instead of " << r.mg.size()); stop = stop || full;
    }
  }
}
int main(int c, char** v) { return run(c, v, {walk}); }
