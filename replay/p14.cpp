#include "vh.h"
#include "position_postprocessor/navigation_time_smoother.h"
using namespace vh; using namespace navigine::navigation_core;
static std::string str(const Position& p) { std::ostringstream o; o.precision(9); if (p.isEmpty) o << "empty "; o << "(" << p.x << "," << p.y << ") " << p.levelId.value << " t" << p.ts; return o.str(); }
static bool same(const Position& a, const Position& b) { return a.isEmpty == b.isEmpty && a.x == b.x && a.y == b.y && a.levelId == b.levelId && a.ts == b.ts && a.deviationM == b.deviationM && a.provider == b.provider && a.heading == b.heading; }
static void history() {
  for (uint64_t n = 0; more(n); ++n) {
    NavigationTimeSmoother sm; Position m[2]; long long ts = irange(1, 2000), now = ts; Position p; std::ostringstream o; o.precision(9);
    for (int k = irange(2, 14); k > 0; --k) {
      now += irange(0, 1500);
      if (k == 14 || chance(0.6)) { ts = chance(0.9) ? std::max(ts, now - irange(0, 1500)) : now + irange(-2000, 100); p = Position(irange(0, 50), irange(0, 50), LevelId(chance(0.9) ? "a" : "b"), irange(1, 9), ts, chance(0.05), Provider::INDOOR, irange(0, 6)); }
      o << " | now " << now << " " << str(p); input("time", o.str());
      Position r = sm.getTimeSmoothedPosition(p, now), w = p; bool mix = false;
      if (now >= p.ts) {
        if (m[0].levelId != p.levelId || m[1].levelId != p.levelId) m[0] = m[1] = p;
        else if (m[0].isEmpty || m[1].isEmpty || p.isEmpty) { m[0] = m[1]; m[1] = p; }
        else {
          if (p.ts > m[1].ts) { m[0] = m[1]; m[1] = p; }
          long long span = m[1].ts - m[0].ts, gone = now - m[1].ts;
          if (span == 0) w = m[1];
          else if (gone <= span) { mix = true; w = m[1]; double f = (double)gone / span; w.x = m[0].x + f * (m[1].x - m[0].x); w.y = m[0].y + f * (m[1].y - m[0].y); w.ts = now;
            if (gone >= 0 && span > 0) VH_CHECK(r.x >= std::min(m[0].x, m[1].x) - 1e-9 && r.x <= std::max(m[0].x, m[1].x) + 1e-9, "between", str(r) << " is not between " << str(m[0]) << " and " << str(m[1])); }
        }
      }
      bool ok = mix ? vh::near(r.x, w.x, 1e-9) && vh::near(r.y, w.y, 1e-9) && r.ts == w.ts && r.levelId == w.levelId && r.isEmpty == w.isEmpty && r.deviationM == w.deviationM && r.provider == w.provider && r.heading == w.heading : same(r, w);
      VH_CHECK(ok, "position", str(r) << " instead of " << str(w));
      if (!ok) break;
    }
  }
}
int main(int c, char** v) { return run(c, v, {history}); }
