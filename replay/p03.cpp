#include "core.h"
using namespace vc;
static std::string name(const char* p, int i) { return std::string(p) + std::to_string(i); }
// look-ups over a location with overlapping transmitters, against a plain list model
static void lookups() {
  for (uint64_t n = 0; more(n); ++n) {
    GeoPoint ref(real(-70, 70), real(-179, 179));
    int nl = irange(0, 5), nt = irange(1, 8);
    LevelCollector lc;
    std::vector<int> perm; for (int l = 0; l < nl; ++l) perm.push_back(l); for (int l = nl - 1; l > 0; --l) std::swap(perm[l], perm[irange(0, l)]);
    std::vector<std::string> ids; std::vector<std::vector<std::pair<std::string, double>>> txs; std::vector<std::vector<int>> rps;
    std::ostringstream o; o << "levels:";
    for (int l = 0; l < nl; ++l) {
      GeoLevel g = emptyLevel(name("L", perm[l]), ref, {});
      ids.push_back(name("L", perm[l])); txs.push_back({}); rps.push_back({});
      o << " L" << perm[l] << "{";
      int k = irange(0, nt);
      for (int t = 0; t < k; ++t) { int q = irange(0, nt); double x = irange(0, 50); g.transmitters.push_back(tx(ref, name("t", q), x, 1, 0)); txs[l].push_back({name("t", q), x}); o << "t" << q << "@" << x << " "; }
      int r = irange(0, 4); std::set<int> used;
      for (int t = 0; t < r; ++t) { int q = irange(0, 9); if (!used.insert(q).second) continue; g.referencePoints.emplace_back(ReferencePointId(name("r", q)), at(ref, q, 2), std::map<TransmitterId, SignalStatistics>{}); rps[l].push_back(q); o << "r" << q << " "; }
      o << "}";
      lc.addGeoLevel(g);
    }
    input("lookups", o.str());
    VH_CHECK(lc.levels().size() == (size_t)nl, "levels", "levels() has " << lc.levels().size());
    for (int l = -1; l <= nl; ++l) {
      std::string id = l >= 0 && l < nl ? ids[l] : name("L", l); bool want = l >= 0 && l < nl;
      VH_CHECK(lc.hasLevel(LevelId(id)) == want, "hasLevel", "hasLevel(" << id << ") = " << !want);
      if (want) {
        const Level& lv = lc.level(LevelId(id));
        VH_CHECK(lv.id().value == id, "level", "level(" << id << ") is " << lv.id().value);
        VH_CHECK(lc.levels()[l].id().value == id, "order", "levels()[" << l << "] is " << lc.levels()[l].id().value);
        for (int q = 0; q <= 9; ++q) {
          bool w = std::find(rps[l].begin(), rps[l].end(), q) != rps[l].end();
          VH_CHECK(lv.radiomap().hasReferencePoint(ReferencePointId(name("r", q))) == w, "hasRP", "hasReferencePoint(r" << q << ") on " << id << " = " << !w);
          if (w) VH_CHECK(lv.radiomap().getReferencePoint(ReferencePointId(name("r", q))).id.value == name("r", q), "getRP", "wrong reference point for r" << q);
          else { bool t = false; try { lv.radiomap().getReferencePoint(ReferencePointId(name("r", q))); } catch (std::exception&) { t = true; } VH_CHECK(t, "getRP-unknown", "unknown reference point r" << q << " returned"); }
        }
        for (int q = 0; q <= nt; ++q) {
          double x = -1; for (auto& p : txs[l]) if (p.first == name("t", q)) { x = p.second; break; }
          bool has = x >= 0;
          VH_CHECK(lv.containsTransmitter(TransmitterId(name("t", q))) == has, "containsTx", "containsTransmitter(t" << q << ") on " << id << " = " << !has);
          if (has) { auto& t = lv.transmitter(TransmitterId(name("t", q))); VH_CHECK(t.id.value == name("t", q) && std::fabs(t.point.x - x) < 1e-3, "transmitter", "transmitter(t" << q << ") is " << t.id.value << " at x=" << t.point.x << " expected x=" << x); }
        }
        RadioMeasurementsData in, want2; int m = irange(0, 8);
        for (int q = 0; q < m; ++q) { RadioMeasurementData d; d.id = TransmitterId(name("t", irange(0, nt + 1))); d.rssi = -q; d.distance = q; d.type = RadioMeasurementData::Type::WIFI; in.push_back(d); for (auto& p : txs[l]) if (p.first == d.id.value) { want2.push_back(d); break; } }
        auto got = getLevelRadioMeasurements(lv, in);
        bool same = got.size() == want2.size(); for (size_t q = 0; same && q < got.size(); ++q) same = got[q].id == want2[q].id && got[q].rssi == want2[q].rssi && got[q].distance == want2[q].distance;
        VH_CHECK(same, "levelMeasurements", "kept " << got.size() << " of " << in.size() << " measurements, expected " << want2.size() << " (heard from this level, in order)");
      } else { bool t = false; try { lc.level(LevelId(id)); } catch (std::exception&) { t = true; } VH_CHECK(t, "level-unknown", "unknown level " << id << " returned"); }
    }
    for (int q = 0; q <= nt + 1; ++q) {
      std::string want = ""; for (int l = 0; l < nl && want.empty(); ++l) for (auto& p : txs[l]) if (p.first == name("t", q)) { want = ids[l]; break; }
      auto r = lc.findLevelByTransmitterId(TransmitterId(name("t", q)));
      VH_CHECK((r ? r->value : "") == want, "findLevel", "level of t" << q << " is '" << (r ? r->value : "") << "' expected '" << want << "'");
    }
  }
}
// transmitters filed in several calls: the first with an id stays
static void filing() {
  for (uint64_t n = 0; more(n); ++n) {
    Level l(LevelId("a"), GeoPoint(1, 2)); std::map<std::string, double> want; std::ostringstream o; int calls = irange(1, 4);
    for (int c = 0; c < calls; ++c) {
      XYZTransmitters v; int k = irange(0, 4);
      for (int i = 0; i < k; ++i) { std::string id = name("t", irange(0, 5)); double x = real(-9, 9); v.emplace_back(TransmitterId(id), XYZPoint(x, 1, 2), PathlossModel{-60, 20, 0}, TransmitterType::BEACON); want.insert({id, x}); o << id << "@" << x << " "; }
      o << "/ "; input("filing", o.str());
      l.addTransmitters(v);
      for (int i = 0; i <= 6; ++i) {
        auto it = want.find(name("t", i));
        VH_CHECK(l.containsTransmitter(TransmitterId(name("t", i))) == (it != want.end()), "contains", "containsTransmitter(t" << i << ") = " << (it == want.end()));
        if (it != want.end()) { auto& t = l.transmitter(TransmitterId(name("t", i))); VH_CHECK(t.id.value == it->first && t.point.x == it->second, "filed", "transmitter " << it->first << " is " << t.id.value << " at x=" << t.point.x << ", filed at " << it->second); }
        else { bool th = false; try { l.transmitter(TransmitterId(name("t", i))); } catch (std::exception&) { th = true; } VH_CHECK(th, "tx-unknown", "unknown transmitter t" << i << " returned"); }
      }
    }
  }
}
int main(int c, char** v) { return run(c, v, {lookups, filing}); }
