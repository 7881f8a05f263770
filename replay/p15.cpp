#include "core.h"
#include "position_postprocessor/position_smoother_ab.h"
using namespace vc;
static void walk() {
  GeoPoint ref(55.7, 37.6); LevelCollector lc; LevelSpec sp; sp.w = 60; sp.h = 40; sp.holes = {{20, 10, 40, 30}}; lc.addGeoLevel(emptyLevel("a", ref, sp)); const Level& lv = lc.level(LevelId("a"));
  for (uint64_t n = 0; more(n); ++n) {
    NavigationSettings ns; auto& s = ns.commonSettings; s.useBarriers = chance(0.4); s.useSpeedConstraint = chance(0.5); s.useAccuracyForSmoothing = chance(0.5); s.smoothing = real(-0.3, 1.3);
    PositionSmootherAB f(ns); std::ostringstream o; o.precision(9); o << (s.useBarriers ? "barriers " : "") << (s.useSpeedConstraint ? "speed " : "") << (s.useAccuracyForSmoothing ? "accuracy " : "") << "smoothing " << s.smoothing;
    double al = 0.9 - 0.8 * std::clamp(s.smoothing, 0.0, 1.0), vx = 0, vy = 0; bool called = false; Position last; long long ts = irange(1, 1000); double x = irange(0, 60), y = irange(0, 40);
    VH_CHECK(std::fabs(f.mAlpha - al) < 1e-12, "weight", "weight " << f.mAlpha << " for smoothing " << s.smoothing);
    for (int k = irange(2, 15); k > 0; --k) {
      ts += chance(0.1) ? irange(-500, 0) : chance(0.1) ? irange(9000, 12000) : irange(1, 2500);
      if (chance(0.1)) x = irange(0, 60), y = irange(0, 40); else x += real(-2, 2), y += real(-2, 2);
      Position p(x, y, LevelId("a"), irange(0, 20), ts, false, Provider::INDOOR, irange(0, 6));
      o << " | t" << ts << " " << x << "," << y << " dev" << p.deviationM;
      if (chance(0.08)) { o << " reset"; input("ab", o.str()); f.reset(p); last = p; vx = vy = 0; VH_CHECK(f.mSpeedX == 0 && f.mSpeedY == 0 && f.mPosition.x == p.x, "reset", "reset does not rest at the position"); if (chance(0.5)) continue; p.ts = ts += irange(1, 2000); p.x = x += real(-1, 1); o << " then " << x << " t" << ts; }
      input("ab", o.str());
      Position r = f.smoothPosition(p, lv), w = last; bool close = false;
      if (p.ts > last.ts) {
        double t = (p.ts - last.ts) / 1000.0, a = al; if (s.useAccuracyForSmoothing) a = std::clamp(last.deviationM / (p.deviationM + last.deviationM + 0.5), 0.1, 0.9);
        double ex = last.x + vx * t, ey = last.y + vy * t, b = a * a / (2 - a), nx = vx + b * (p.x - ex) / t, ny = vy + b * (p.y - ey) / t, qx = a * p.x + (1 - a) * ex, qy = a * p.y + (1 - a) * ey, sp = std::hypot(nx, ny);
        auto in = [&](double m) { return qx >= -m && qx <= 60 + m && qy >= -m && qy <= 40 + m && !(qx > 20 + m && qx < 40 - m && qy > 10 + m && qy < 30 - m); };
        close = (s.useSpeedConstraint && std::fabs(sp - 4) < 1e-7) || (s.useBarriers && in(1e-4) != in(-1e-4));
        w = p;
        if (!called || t > 10 || (s.useSpeedConstraint && sp > 4) || (s.useBarriers && !in(0))) vx = vy = 0, called = true;
        else { vx = nx; vy = ny; w.x = qx; w.y = qy; if (s.useAccuracyForSmoothing) w.deviationM = p.deviationM + (1 - a) * t * sp; }
      }
      if (close) break;
      bool ok = vh::near(r.x, w.x, 1e-7) && vh::near(r.y, w.y, 1e-7) && r.ts == w.ts && vh::near(r.deviationM, w.deviationM, 1e-7) && r.isEmpty == w.isEmpty && r.levelId == w.levelId && r.heading == w.heading;
      VH_CHECK(ok, "position", "(" << r.x << "," << r.y << ") t" << r.ts << " dev" << r.deviationM << " instead of (" << w.x << "," << w.y << ") t" << w.ts << " dev" << w.deviationM);
      VH_CHECK(vh::near(f.mSpeedX, vx, 1e-7) && vh::near(f.mSpeedY, vy, 1e-7), "speed", "speed " << f.mSpeedX << "," << f.mSpeedY << " instead of " << vx << "," << vy);
      VH_CHECK(!s.useSpeedConstraint || std::hypot(f.mSpeedX, f.mSpeedY) <= 4 + 1e-9, "bound", "speed above 4 m/s");
      if (!ok) break;
      last = r;
    }
  }
}
int main(int c, char** v) { return run(c, v, {walk}); }
