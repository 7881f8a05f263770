#include "core.h"
#include "position_estimator/position_estimator_knn.h"
#include <boost/geometry.hpp>
using namespace vc;
typedef RadioMeasurementData RM;
struct P { std::string id; double x, y; std::map<std::string, double> fp; };
struct L { std::string id; std::vector<P> rps; double w, h; };
// reference point -> weight
static std::map<std::string, double> weights(const L& l, const RadioMeasurementsData& ms, bool diff) {
  std::map<std::string, double> trust; double sum = 0;
  for (auto& m : ms) { double p = m.power < 0.00001 ? -10 : m.power; double d = std::pow(10, (p - m.rssi) / 30); double t = std::pow(d, -1.8); trust[m.id.value] = t; sum += t; }
  for (auto& t : trust) t.second /= sum;
  std::map<std::string, double> out;
  for (auto& r : l.rps) {
    std::vector<std::array<double, 3>> st;
    for (auto& m : ms) if (r.fp.count(m.id.value)) st.push_back({m.rssi, r.fp.at(m.id.value), trust[m.id.value]});
    if (st.size() < 3) continue;
    double s = 0, n = 0;
    for (size_t i = 0; i < st.size(); ++i)
      if (diff) for (size_t j = i + 1; j < st.size(); ++j) { double a = st[i][2] * st[j][2]; n += a; s += std::max(std::fabs((st[i][0] - st[j][0]) - (st[i][1] - st[j][1])) * a, 1e-6); }
      else { n += st[i][2]; s += std::max(std::fabs(st[i][0] + st[i][1]) * st[i][2], 1e-6); }
    if (n > 1e-8) s /= n;
    out[r.id] = st.size() / std::sqrt(s);
  }
  return out;
}
static bool near2(double a, double b) { return std::fabs(a - b) <= 1e-6 * (1 + std::fabs(b)); }
static void positions() {
  for (uint64_t n = 0; more(n); ++n) {
    int nl = irange(1, 3), nt = irange(3, 7);
    auto lc = std::make_shared<LevelCollector>();
    GeoPoint ref(55.7, 37.6);
    std::ostringstream o; o.precision(9);
    std::vector<L> ls;
    for (int i = 0; i < nl; ++i) {
      L l; l.id = "l" + std::to_string(i);
      LevelSpec sp; sp.w = irange(20, 80); sp.h = irange(20, 80); l.w = sp.w; l.h = sp.h;
      GeoLevel g = emptyLevel(l.id, ref, sp);
      int nr = irange(1, 9); bool line = chance(0.2);
      o << " level " << l.id << "(" << sp.w << "x" << sp.h << ")";
      for (int r = 0; r < nr; ++r) {
        P p; p.id = "r" + std::to_string((r * 5) % 13); p.x = irange(1, (int)sp.w - 1); p.y = line ? 5 : irange(1, (int)sp.h - 1);
        bool dup = false; for (auto& q : l.rps) dup |= q.x == p.x && q.y == p.y; if (dup) continue;
        std::map<TransmitterId, SignalStatistics> fps; o << " " << p.id << "@" << p.x << "," << p.y;
        for (int t = 0; t < nt; ++t) if (chance(0.75)) { SignalStatistics s; s.mean = irange(30, 95); std::string id = "t" + std::to_string(t); fps[TransmitterId(id)] = s; p.fp[id] = s.mean; o << " " << id << "=" << s.mean; }
        g.referencePoints.emplace_back(ReferencePointId(p.id), at(ref, p.x, p.y), fps); l.rps.push_back(p);
      }
      bool any = false; for (auto& r : l.rps) any |= !r.fp.empty();
      lc->addGeoLevel(g); if (any) ls.push_back(l);
    }
    if (ls.empty()) continue;
    NavigationSettings ns; ns.commonSettings.useTriangles = chance(0.5); ns.commonSettings.useDiffMode = chance(0.5); ns.commonSettings.kNeighbors = irange(1, 8); ns.commonSettings.minNumOfMeasurementsForPositionCalculation = irange(0, 5);
    size_t minn = ns.commonSettings.minNumOfMeasurementsForPositionCalculation;
    o << " | " << (ns.commonSettings.useTriangles ? "triangles" : "k=" + std::to_string((int)ns.commonSettings.kNeighbors)) << (ns.commonSettings.useDiffMode ? " diff" : " plain") << " min " << minn;
    PositionEstimatorKnn e(lc, ns);
    Position last; MotionInfo mi;
    for (int call = 0, nc = irange(1, 3); call < nc; ++call) {
      const L& l = ls[irange(0, ls.size() - 1)]; const Level& lev = lc->level(LevelId(l.id));
      RadioMeasurementsData ms; o << " | call " << l.id;
      if (!chance(0.1)) { std::vector<int> order; for (int t = 0; t <= nt; ++t) if (chance(0.8)) order.push_back(t); while (!order.empty() && chance(0.3)) order.push_back(order[irange(0, order.size() - 1)]); for (size_t k = order.size(); k > 1; --k) std::swap(order[k - 1], order[irange(0, k - 1)]);
        for (int t : order) { RM m; m.type = RM::Type::BEACON; m.id = TransmitterId("t" + std::to_string(t)); m.rssi = -irange(30, 95); m.power = chance(0.3) ? -irange(5, 20) : chance(0.1) ? irange(1, 3) : 0; o << " " << m.id.value << ":" << m.rssi << "/" << m.power; ms.push_back(m); } }
      long long ts = irange(1, 100000);
      input("positions", o.str());
      NavigationStatus st = NavigationStatus::NO_LEVEL;
      Position got = e.calculatePosition(lev, ts, ms, mi, st);
      std::set<std::string> heard; for (auto& r : l.rps) for (auto& f : r.fp) heard.insert(f.first);
      RadioMeasurementsData v; for (auto& m : ms) if (heard.count(m.id.value)) v.push_back(m);
      auto keep = [&](NavigationStatus want, const char* why) {
        VH_CHECK(st == want, "status", "status " << (int)st << " instead of " << (int)want << " (" << why << ")");
        VH_CHECK(got.x == last.x && got.y == last.y && got.isEmpty == last.isEmpty && got.ts == last.ts, "kept", "the remembered position is not repeated (" << why << ")");
      };
      if (ms.empty()) { keep(NavigationStatus::NO_SOLUTION, "no measurements"); last = got; continue; }
      if (v.size() < minn) { keep(NavigationStatus::NO_SOLUTION, "too few measurements"); last = got; continue; }
      std::vector<Triangle> tr;
      if (ns.commonSettings.useTriangles) {
        if (l.rps.size() > 3) { std::vector<TriangleVertex> vs; for (auto& rp : lev.radiomap().referencePoints()) vs.push_back(TriangleVertex(rp.point.x, rp.point.y, rp.id));
          auto wh = getWidthHeightPair(lev.geometry().boundingBox()); tr = TriangulateVertices(vs, std::max(wh.first, wh.second)); }
        if (tr.empty()) { keep(NavigationStatus::NAVIGATION_ERROR, "level without triangles"); last = got; continue; }
      }
      auto w = weights(l, v, ns.commonSettings.useDiffMode);
      VH_CHECK(st == NavigationStatus::OK, "status", "status " << (int)st << " instead of OK");
      VH_CHECK(!got.isEmpty && got.ts == ts && got.levelId.value == l.id && got.deviationM == 1.0 && got.provider == Provider::INDOOR, "fields", "time, level, deviation or provider of the position");
      auto rp = [&](const std::string& id) -> const P& { for (auto& r : l.rps) if (r.id == id) return r; abort(); };
      auto wt = [&](const std::string& id) { auto i = w.find(id); return i == w.end() ? 0.0 : i->second; };
      if (ns.commonSettings.useTriangles) {
        double best = 0; for (auto& t : tr) best = std::max(best, wt(t.getA().id.value) + wt(t.getB().id.value) + wt(t.getC().id.value));
        bool ok = false; std::ostringstream c; c.precision(9);
        for (auto& t : tr) {
          std::string id[3] = {t.getA().id.value, t.getB().id.value, t.getC().id.value}; double s = 0, x = 0, y = 0;
          for (auto& k : id) { s += wt(k); x += wt(k) * rp(k).x; y += wt(k) * rp(k).y; }
          if (s < best * (1 - 1e-9)) continue;
          if (s < 1e-15) x = y = 0; else x /= s, y /= s;
          c << " (" << x << "," << y << ")"; ok |= near2(got.x, x) && near2(got.y, y);
          if (std::fabs(s - 1e-15) < 1e-15 && s > 0) ok = true;
        }
        VH_CHECK(ok, "triangle", "position (" << got.x << "," << got.y << ") is not the weighted mean of a heaviest triangle" << c.str());
      } else {
        std::vector<std::pair<double, std::string>> v2; for (auto& x : w) v2.push_back({x.second, x.first}); std::sort(v2.rbegin(), v2.rend());
        size_t k = std::min<size_t>(v2.size(), ns.commonSettings.kNeighbors);
        bool tie = k < v2.size() && k > 0 && std::fabs(v2[k - 1].first - v2[k].first) < 1e-9 * v2[k].first;
        double s = 0, x = 0, y = 0; for (size_t i = 0; i < k; ++i) { s += v2[i].first; x += v2[i].first * rp(v2[i].second).x; y += v2[i].first * rp(v2[i].second).y; }
        if (k) x /= s, y /= s;
        if (!tie) VH_CHECK(near2(got.x, x) && near2(got.y, y), "k-heaviest", "position (" << got.x << "," << got.y << ") instead of the weighted mean (" << x << "," << y << ") of the " << k << " heaviest of " << v2.size() << " points");
      }
      last = got;
    }
  }
}
int main(int c, char** v) { return run(c, v, {positions}); }
