#include "core.h"
#include "sensor_fusion/pedometer.h"
using namespace vc;
struct Ref {      // the pedometer on a plain history
  struct S { long long ts; double m; }; std::vector<S> acc, mg; long long last = -1; bool close = false;
  std::vector<std::pair<long long, double>> sample(long long ts, double m) {
    std::vector<std::pair<long long, double>> out; acc.push_back({ts, m});
    double sa = 0, sf = 0; int na = 0, nf = 0; for (auto& a : acc) { if (ts - a.ts < 2500) sa += a.m, ++na; if (ts - a.ts < 200) sf += a.m, ++nf; }
    sf /= nf; if (ts != 0) mg.push_back({ts, sf - (sa + sf) / na});
    size_t n = mg.size(); if (ts == 0 || n <= 3) return out;
    const double thr = 0.05 * 9.80665; double a = mg[n - 2].m, b = mg[n - 1].m; if (std::fabs(a - thr) < 1e-9 || std::fabs(b - thr) < 1e-9) close = true;
    if (a < thr && b > thr && ts - last > 300) {
      double lo = 1e300, hi = -1e300; for (int i = (int)n - 2; i >= 0; --i) { lo = std::min(lo, mg[i].m); hi = std::max(hi, mg[i].m); if (ts - mg[i].ts > 700) break; }
      last = ts; out.push_back({ts, 0.52 * std::pow(hi - lo, 0.25)}); }
    while (ts - mg[0].ts > 1400) mg.erase(mg.begin());
    return out;
  }
};
static void walk() {
  for (uint64_t n = 0; more(n); ++n) {
    Pedometer p; Ref r; long long ts = chance(0.1) ? 0 : irange(1, 3000); std::ostringstream o; o.precision(17); double f = real(0.3, 5), A = real(0.2, 8), ph = real(0, 6); int dt = irange(5, 120); bool stop = false; int len = irange(5, 160);
    for (int k = 0; k < len && !stop; ++k) {
      ts += chance(0.03) ? irange(300, 6000) : chance(0.1) ? irange(0, 3) : irange(dt / 2, dt);
      if (chance(0.03)) A = real(0, 8);
      double g = 9.80665 + A * std::sin(2 * M_PI * f * ts / 1000 + ph) + real(-0.3, 0.3), c = real(-1, 1), s = std::sqrt(1 - c * c);
      bool acc = !chance(0.15); SensorMeasurement m; m.ts = ts; m.data.type = acc ? SensorMeasurementData::Type::ACCELEROMETER : chance(0.5) ? SensorMeasurementData::Type::GYROSCOPE : SensorMeasurementData::Type::BAROMETER; m.data.values = Vector3d(g * c, g * s * 0.6, g * s * 0.8);
      o << (acc ? " a" : " o") << ts << ":" << m.data.values.x << "," << m.data.values.y << "," << m.data.values.z; input("pedometer", o.str());
      p.update(m); std::vector<std::pair<long long, double>> w; if (acc) w = r.sample(ts, m.data.values.magnitude());
      if (r.close) break;
      std::deque<Step> st = p.calculateSteps();
      if (!st.empty()) vh::nontrivial(n * 1000 + k);
      stop = st.size() != w.size(); VH_CHECK(!stop, "steps", st.size() << " steps instead of " << w.size() << " at " << ts);
      for (size_t i = 0; !stop && i < w.size(); ++i) { stop = st[i].ts != w[i].first || !(std::fabs(st[i].len - w[i].second) < 1e-6) || !(st[i].len >= 0); VH_CHECK(!stop, "step", "step at " << st[i].ts << " of " << st[i].len << " m instead of " << w[i].first << ", " << w[i].second << " m"); }
      stop = stop || p.mTimes.size() > 50 || (acc && p.mAccelMeasurements.back().ts - p.mAccelMeasurements.front().ts > 5000); VH_CHECK(p.mTimes.size() <= 50 && p.mAccelMeasurements.size() <= (size_t)k + 1 && (!acc || p.mAccelMeasurements.back().ts - p.mAccelMeasurements.front().ts <= 5000), "memory", "buffers grow");
    }
  }
}
int main(int c, char** v) { return run(c, v, {walk}); }
