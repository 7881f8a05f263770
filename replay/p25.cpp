#include "vh.h"
#include <measurement_preprocessor.h>
using namespace vh;
using namespace navigine::navigation_core;
typedef RadioMeasurement RM;
static std::string str(const RM& m) { std::ostringstream o; o << m.ts << "/" << m.id << "/" << m.rssi << "/" << m.distance; return o.str(); }
struct Ref {      // the window on a plain history
  long long shift, keep, last = -1, now = -1, cur = -1; bool wifi, ble; std::vector<RM> b;
  void add(const RM& m) {
    bool ok = ((m.type == RM::Type::WIFI && wifi) || (m.type == RM::Type::BEACON && ble)) && m.rssi > -100 && m.rssi < 0;
    cur = std::max(cur, m.ts); if (!ok) return;
    if (now == -1) now = last = m.ts;
    if (m.ts > last) b.push_back(m);
    now = std::max(now, m.ts);
  }
  bool take(std::map<std::string, std::vector<RM>>& by) {
    by.clear(); if (now - last < shift) return false;
    last = now; for (auto& m : b) by[m.id].push_back(m);
    std::vector<RM> k; if (keep) for (auto& m : b) if (m.ts >= now - keep) k.push_back(m);
    b = k; return true;
  }
};
static void walk() {
  for (uint64_t n = 0; more(n); ++n) {
    Ref r; double avg = chance(0.1) ? 0 : irange(0, 40) / 8.0, sh = chance(0.2) ? 0 : irange(0, 48) / 8.0; r.wifi = chance(0.7); r.ble = chance(0.8);
    long long a = (long long)(1000 * avg), s = (long long)(1000 * sh); r.shift = s == 0 || s > a ? a : s; r.keep = a - r.shift;
    MeasurementsPreprocessor p(avg, sh, r.wifi, r.ble); long long ts = irange(1, 3000); std::ostringstream o; o << "average " << avg << " shift " << sh << " wifi " << r.wifi << " ble " << r.ble << " |"; bool stop = false;
    int nid = irange(1, 12); for (int k = irange(1, 40); k > 0 && !stop; --k) {
      for (int q = irange(0, 6); q > 0; --q) {
        RM m; ts += chance(0.1) ? irange(0, 3000) : irange(0, 300); m.ts = chance(0.2) ? ts - irange(0, 3000) : ts; m.type = chance(0.4) ? RM::Type::WIFI : RM::Type::BEACON; m.id = "t" + std::to_string(irange(0, nid));
        m.rssi = chance(0.05) ? -100 : chance(0.05) ? 0 : chance(0.05) ? irange(-110, 10) : irange(-99, -1); m.distance = irange(0, 50); m.power = irange(-90, -50); m.frequency = irange(1, 5); m.stddev = irange(0, 9);
        p.update(m); r.add(m); o << " " << (m.type == RM::Type::WIFI ? "w" : "b") << str(m);
      }
      o << " X"; input("window", o.str());
      stop = p.getCurrentTs() != r.cur; VH_CHECK(!stop, "clock", p.getCurrentTs() << " instead of " << r.cur);
      std::vector<RM> g = p.extractRadioMeasurements(); std::map<std::string, std::vector<RM>> by; bool due = r.take(by); size_t w = std::min<size_t>(by.size(), 5);
      if (g.size() > 1) vh::nontrivial(n * 1000 + k);
      if (!stop) { stop = g.size() != w; VH_CHECK(!stop, due ? "number" : "early", g.size() << " entries instead of " << w << " at " << ts); }
      std::set<std::string> seen; double weakest = 1e9;
      for (size_t i = 0; i < g.size() && !stop; ++i) {
        auto f = by.find(g[i].id); stop = f == by.end() || !seen.insert(g[i].id).second; VH_CHECK(!stop, "transmitter", "entry of " << g[i].id << ", never buffered or given twice"); if (stop) break;
        double sr = 0, sd = 0; bool one = false; for (auto& m : f->second) { sr += m.rssi; sd += m.distance; one = one || (m.ts == g[i].ts && m.type == g[i].type && m.power == g[i].power && m.frequency == g[i].frequency && m.stddev == g[i].stddev); }
        sr /= f->second.size(); sd /= f->second.size();
        stop = !near(sr, g[i].rssi, 1e-9) || !near(sd, g[i].distance, 1e-9); VH_CHECK(!stop, "mean", str(g[i]) << " instead of mean " << sr << ", " << sd); if (stop) break;
        stop = !one; VH_CHECK(!stop, "rest", "the rest of " << str(g[i]) << " is of none of its measurements"); if (stop) break;
        stop = i && g[i].rssi > g[i - 1].rssi; VH_CHECK(!stop, "order", str(g[i]) << " after " << str(g[i - 1])); weakest = g[i].rssi;
      }
      if (!stop && w == 5) for (auto& f : by) if (!seen.count(f.first)) { double sr = 0; for (auto& m : f.second) sr += m.rssi; sr /= f.second.size(); stop = sr > weakest + 1e-9; VH_CHECK(!stop, "strongest", f.first << " of " << sr << " left out, " << weakest << " taken"); }
    }
  }
}
int main(int c, char** v) { return run(c, v, {walk}); }
