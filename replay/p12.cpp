#include "core.h"
#include "position_postprocessor/position_postprocessor.h"
using namespace vc;
static std::string str(const Position& p) { if (p.isEmpty) return "none"; std::ostringstream o; o.precision(9); o << "(" << p.x << "," << p.y << ") " << p.levelId.value << " t" << p.ts << " dev" << p.deviationM << " prov" << (int)p.provider; return o.str(); }
static bool same(const Position& a, const Position& b) { return a.isEmpty == b.isEmpty && (a.isEmpty || (a.x == b.x && a.y == b.y && a.levelId == b.levelId && a.ts == b.ts && a.deviationM == b.deviationM && a.provider == b.provider && a.heading == b.heading)); }
struct Src { Position last; double dev; };
static void fusing() {
  for (uint64_t n = 0; more(n); ++n) {
    NavigationSettings ns; auto& s = ns.commonSettings;
    s.useInstantGpsPosition = chance(0.1); s.useGps = !chance(0.1); s.fuseGps = !chance(0.25); s.preferIndoorSolution = chance(0.15); s.priorDeviation = irange(1, 40); s.fuseGpsBorderM = irange(0, 20); s.averageMovSpeed = irange(0, 4) / 2.0; s.positionIsTooOldSec = irange(1, 8);
    PositionPostprocessor pp(ns);
    Src src[2] = {{Position(), s.priorDeviation}, {Position(), s.priorDeviation}};
    std::ostringstream o; o.precision(9);
    o << (s.useInstantGpsPosition ? "instant " : "") << (s.useGps ? "gps " : "") << (s.fuseGps ? "fuse " : "") << (s.preferIndoorSolution ? "prefer indoor " : "") << "prior" << s.priorDeviation << " border" << s.fuseGpsBorderM << " speed" << s.averageMovSpeed << " old" << s.positionIsTooOldSec;
    long long ts = irange(1, 3000);
    for (int k = irange(2, 12); k > 0; --k) {
      ts += irange(0, chance(0.2) ? 9000 : 1500);
      Position p[2];
      for (int i = 0; i < 2; ++i) if (chance(0.6)) p[i] = Position(irange(0, 60), irange(0, 60), LevelId(chance(0.8) ? "a" : "b"), irange(1, 30), std::max(src[i].last.isEmpty ? 0 : src[i].last.ts, ts - irange(-100, 2000)), false, i ? Provider::GNSS : Provider::INDOOR, irange(0, 6));
      NavigationStatus st = chance(0.5) ? NavigationStatus::OK : NavigationStatus::NO_LEVEL;
      o << " | t" << ts << " status " << (int)st << " indoor " << str(p[0]) << " gnss " << str(p[1]);
      input("fuse", o.str());
      Position r = pp.fusePositions(ts, p[0], p[1], st), want; bool fused = false, close = false;
      for (int i = 0; i < 2; ++i) if (!p[i].isEmpty) {
        double prior = s.priorDeviation; if (!src[i].last.isEmpty) prior = std::min(prior, src[i].dev + s.averageMovSpeed * (p[i].ts - src[i].last.ts) / 1000.0);
        src[i] = {p[i], (prior + p[i].deviationM) / 2}; }
      const Position &a = src[0].last, &b = src[1].last;
      double la = std::max(0LL, ts - a.ts) / 1000.0, lb = std::max(0LL, ts - b.ts) / 1000.0, da = src[0].dev + s.averageMovSpeed * la, db = src[1].dev + s.averageMovSpeed * lb;
      if (s.useInstantGpsPosition && !p[1].isEmpty) want = p[1];
      else if (s.preferIndoorSolution && !p[0].isEmpty && st == NavigationStatus::OK) want = p[0];
      else if (!s.useGps || b.isEmpty) want = a;
      else if (a.isEmpty) want = b;
      else if (la > s.positionIsTooOldSec) want = b;
      else if (lb > s.positionIsTooOldSec) want = a;
      else {
        double gap = a.deviationM + b.deviationM + s.fuseGpsBorderM - std::hypot(a.x - b.x, a.y - b.y); close = std::fabs(gap) < 1e-9;
        if (s.fuseGps && gap > 0) { fused = true; double wa = 1 / da, wb = 1 / db; want = a; want.x = (a.x * wa + b.x * wb) / (wa + wb); want.y = (a.y * wa + b.y * wb) / (wa + wb); want.ts = std::max(a.ts, b.ts); want.deviationM = std::min(da, db); want.provider = Provider::FUSED; }
        else { close |= std::fabs(da - db) < 1e-9; want = da < db ? a : b; }
      }
      if (close) break;
      VH_CHECK(fused ? !r.isEmpty && vh::near(r.x, want.x, 1e-9) && vh::near(r.y, want.y, 1e-9) && vh::near(r.deviationM, want.deviationM, 1e-9) && r.ts == want.ts && r.levelId == want.levelId && r.provider == want.provider && r.heading == want.heading : same(r, want), "position", "position " << str(r) << " instead of " << str(want));
      VH_CHECK(same(pp.getIndoorPosition(), a) && same(pp.getOutdoorPosition(), b), "kept", "the positions kept are not the last ones given");
      if (!same(r, want) && !fused) break;
    }
  }
}
int main(int c, char** v) { return run(c, v, {fusing}); }
