#include "vh.h"
#include <nearest_transmitter_estimator.h>
using namespace vh;
using namespace navigine::navigation_core;
struct Ref {      // the position on a plain list of transmitters
  std::vector<Transmitter> ts; bool called = false; double vx = 0, vy = 0; Position last;
  const Transmitter* find(const std::string& id) { for (size_t i = ts.size(); i > 0; --i) if (ts[i - 1].id == id) return &ts[i - 1]; return nullptr; }
  Position next(const RadioMeasurements& m) {
    const RadioMeasurement* best = nullptr; const RadioMeasurement* end = nullptr; Position p;
    for (auto& x : m) if (find(x.id)) { end = &x; if (!best || x.rssi > best->rssi) best = &x; }
    if (!best) return p;
    const Transmitter* t = find(best->id); p.x = t->x; p.y = t->y; p.precision = std::sqrt(std::exp((-82 - best->rssi) / 3)) + 1; p.isEmpty = false; p.ts = end->ts;
    if (p.ts <= last.ts) return last;
    double dt = (p.ts - last.ts) / 1000.0, a = 0.1 * 0.9 + 0.9 * (1 - 0.9), b = a * a / (2 - a);
    if (!called || dt > 10) { called = true; vx = vy = 0; return last = p; }
    double px = last.x + vx * dt, py = last.y + vy * dt, dx = p.x - px, dy = p.y - py;
    vx += b / dt * dx; vy += b / dt * dy; p.x = px + a * dx; p.y = py + a * dy; return last = p;
  }
};
static void walk() {
  for (uint64_t n = 0; more(n); ++n) {
    Ref r; std::ostringstream o; o.precision(17);
    for (int k = irange(0, 8); k > 0; --k) { Transmitter t; t.id = "t" + std::to_string(irange(0, 6)); t.x = irange(-50, 50); t.y = irange(-50, 50); t.type = Transmitter::Type::BEACON; r.ts.push_back(t); o << " " << t.id << "(" << t.x << "," << t.y << ")"; }
    NearestTransmitterPositionEstimator e(r.ts); long long ts = chance(0.1) ? -1 : irange(0, 3000); bool stop = false; o << " |";
    for (int k = irange(1, 25); k > 0 && !stop; --k) {
      RadioMeasurements m; o << " msg"; ts += chance(0.1) ? irange(9000, 12000) : chance(0.05) ? 10000 : irange(0, 1500);
      for (int q = irange(0, 6); q > 0; --q) { RadioMeasurement x; x.type = RadioMeasurement::Type::BEACON; x.ts = chance(0.3) ? ts - irange(0, 2000) : ts; x.id = "t" + std::to_string(irange(0, 8)); x.rssi = irange(-99, -70); m.push_back(x); o << " " << x.id << ":" << x.rssi << "@" << x.ts; }
      input("position", o.str());
      Position g = e.calculatePosition(m), w = r.next(m);
      stop = g.isEmpty != w.isEmpty; VH_CHECK(!stop, "given", "position " << (g.isEmpty ? "missing" : "out of nothing")); if (stop || w.isEmpty) continue;
      vh::nontrivial(n * 100 + k);
      stop = g.ts != w.ts || !near(g.x, w.x, 1e-9) || !near(g.y, w.y, 1e-9); VH_CHECK(!stop, "place", "(" << g.x << ", " << g.y << ") at " << g.ts << " instead of (" << w.x << ", " << w.y << ") at " << w.ts); if (stop) break;
      stop = !near(g.precision, w.precision, 1e-9); VH_CHECK(!stop, "precision", g.precision << " instead of " << w.precision);
    }
  }
}
int main(int c, char** v) { return run(c, v, {walk}); }
