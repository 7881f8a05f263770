#include "core.h"
#include <iostream>
#include "navigation_client_impl.h"
#include "position_estimator/position_estimator_knn.h"
#include "position_estimator/position_estimator_zone.h"
#include "level_estimator/level_estimator_radiomap.h"
#include "level_estimator/level_estimator_transmitters.h"
#include "trilateration.h"
using namespace vc;
typedef RadioMeasurementData RM;
typedef CommonSettings CS;
struct Want { NavigationStatus status; Position pos; double azimuth; double alt; size_t steps; };
struct Parts {       // the parts side by side, put together as the property says
  std::shared_ptr<LevelCollector> lc; NavigationSettings ns; MeasurementsPreprocessor pre; SensorFusion sf; std::unique_ptr<LevelEstimator> le; std::unique_ptr<PositionEstimator> pe; PositionEstimatorOutdoor out; PositionPostprocessor pp;
  Position pos; bool indoor = false; boost::optional<double> head, rates;
  Parts(std::shared_ptr<LevelCollector> l, const NavigationSettings& n) : lc(l), ns(n), pre(l, n), sf(n), out(l, n), pp(n) {
    bool knn = n.commonSettings.useAlgorithm == CS::UseAlgorithm::KNN;
    if (knn || n.commonSettings.useRadiomap) le.reset(new LevelEstimatorRadiomap(l, n)); else le.reset(new LevelEstimatorTransmitters(l, n));
    if (knn) pe.reset(new PositionEstimatorKnn(l, n)); else pe.reset(new PositionEstimatorZone(l, n));
  }
  Want next(const Measurement& m) {
    pre.updateMeasurements(m); long long now = pre.getCurrentTs(), quiet = now - pre.getLastSignalTs(), ns1 = (long long)(1000 * ns.commonSettings.noSignalTimeThreshold), na = (long long)(1000 * ns.commonSettings.noActionTimeThreshold);
    auto s = pre.getValidSensor(); MotionInfo mi = sf.calculateDisplacement(s, now); auto radio = pre.extractRadioMeasurements(mi.lastMotionTs);
    LevelId lev = le->calculateLevel(radio, s); Position g = out.calculatePosition(now, s, pre.getCurrentNmea(), indoor); indoor = false;
    bool lost = quiet >= ns1 || (quiet >= na && mi.lastMotionTs > 0 && now - mi.lastMotionTs >= na);
    if (lost) pe->reInit();
    NavigationStatus st = NavigationStatus::OK; double az = mi.azimuth;
    if (!lost && lc->hasLevel(lev)) {
      const Level& l = lc->level(lev); Position i = pe->calculatePosition(l, now, radio, mi, st); indoor = !i.isEmpty; Position f = pp.fusePositions(now, i, g, st);
      bool turn = !f.isEmpty && head && *head != f.heading;
      if (turn) az = M_PI_2 - f.heading, rates = mi.gyroHeading; else if (rates) az = M_PI_2 - (*head - (mi.gyroHeading - *rates)); else if (!mi.isAzimuthValid) az = M_PI_2 - f.heading;
      if (!f.isEmpty) head = f.heading;
      pos = pp.getProcessedPosition(f, now, mi, l); if (ns.commonSettings.useEnuAzimuth) az = M_PI_2 - az;
    } else if (!g.isEmpty) pos = g; else st = NavigationStatus::NO_LEVEL;
    double alt = 0;
    if (!pos.isEmpty && !pos.levelId.value.empty() && ns.commonSettings.useAltitude) { Trilateration t; auto a = t.calculateAltitude(lc->level(pos.levelId), radio); if (a) alt = *a; }
    return {!pos.isEmpty ? NavigationStatus::OK : st == NavigationStatus::OK ? NavigationStatus::NAVIGATION_ERROR : st, pos, az, alt, mi.stepCounter};
  }
};
struct Turning : PositionEstimator {       // gives positions with headings, from a script
  std::vector<std::pair<int, double>> s; size_t n = 0;
  Turning(std::shared_ptr<LevelCollector> l, const std::vector<std::pair<int, double>>& s) : PositionEstimator(l), s(s) {}
  Position calculatePosition(const Level& l, long long ts, const RadioMeasurementsData&, const MotionInfo&, NavigationStatus& st) override { auto& p = s[n++ % s.size()]; if (p.first == 0) return Position(); return Position(p.first, p.first, l.id(), 1, ts, false, Provider::INDOOR, p.second); }
};
static bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)) || std::fabs(a - b) <= 1e-7 * (1 + std::fabs(b)); }
static void walk() {
  std::cerr.setstate(std::ios::failbit);
  for (uint64_t n = 0; more(n); ++n) {
    auto lc = std::make_shared<LevelCollector>(); GeoPoint ref(55.7, 37.6); std::ostringstream o; o.precision(10); NavigationSettings ns; auto& c = ns.commonSettings;
    int nl = irange(0, 3), nt = 0;
    for (int i = 0; i < nl; ++i) {
      LevelSpec sp; sp.w = irange(20, 80); sp.h = irange(20, 80); sp.alt = 3 * i; GeoPoint r = at(ref, 5 * i, 3 * i); GeoLevel g = emptyLevel("l" + std::to_string(i), r, sp); o << " level l" << i << "(" << sp.w << "x" << sp.h << ")";
      for (int k = irange(1, 6); k > 0; --k, ++nt) { g.transmitters.push_back(tx(r, "t" + std::to_string(nt), irange(0, (int)sp.w), irange(0, (int)sp.h), irange(0, 4))); }
      for (int k = irange(0, 7); k > 0; --k) { std::map<TransmitterId, SignalStatistics> fp; for (int t = 0; t < nt; ++t) if (chance(0.8)) { SignalStatistics s; s.mean = irange(30, 95); fp[TransmitterId("t" + std::to_string(t))] = s; } g.referencePoints.emplace_back(ReferencePointId("r" + std::to_string(k)), at(r, irange(1, (int)sp.w - 1), irange(1, (int)sp.h - 1)), fp); }
      ns.levelsSettings[g.id]; lc->addGeoLevel(g);
    }
    c.useAlgorithm = chance(0.35) ? CS::UseAlgorithm::KNN : CS::UseAlgorithm::ZONES; c.useRadiomap = chance(0.3); c.useTriangles = chance(0.5); c.minNumOfMeasurementsForPositionCalculation = irange(1, 3); c.useUnknownTransmitters = chance(0.2); c.useEnuAzimuth = chance(0.3); c.useStops = chance(0.3); c.useGps = chance(0.7); c.useGpsOutsideMap = chance(0.5); c.fuseGps = chance(0.5); c.preferIndoorSolution = chance(0.3); c.minNumSats = irange(0, 10); c.noSignalTimeThreshold = irange(0, 6); c.noActionTimeThreshold = irange(0, 4); c.useSmoothing = chance(0.7); c.useAltitude = chance(0.4); c.useCalculatedAzimuth = chance(0.3); c.useTimeSmoothing = chance(0.2); c.useBarometer = chance(0.2); c.sigWindowShift = chance(0.5) ? 0 : 1; c.useInstantGpsPosition = chance(0.3); c.useAbFilter = true;
    o << " alg " << (int)c.useAlgorithm << " radiomap " << c.useRadiomap << " gps " << c.useGps << " enu " << c.useEnuAzimuth << " nosignal " << c.noSignalTimeThreshold << " noaction " << c.noActionTimeThreshold << " alt " << c.useAltitude << " calcaz " << c.useCalculatedAzimuth << " |";
    auto client = createNavigationClient(lc, ns); Parts p(lc, ns);
    if (chance(0.3)) { std::vector<std::pair<int, double>> s; o << " headings"; double h = 0; for (int k = irange(1, 12); k > 0; --k) { if (chance(0.4)) h = irange(-6, 6) / 2.0; s.push_back({irange(0, 3) * 5, h}); o << " " << s.back().first << "/" << h; } o << " |";
      p.pe.reset(new Turning(lc, s)); static_cast<NavigationClientImpl*>(client.get())->mPositionEstimatorIndoor.reset(new Turning(lc, s)); }
    long long ts = irange(1, 100000); double A = real(0, 9), fr = real(0.5, 3), home = irange(0, std::max(nt - 1, 0)); bool stop = false;
    for (int bi = irange(1, 6); bi > 0 && !stop; --bi) {
      std::vector<Measurement> batch; std::vector<Want> want; long long first = 0; bool quiet = chance(0.2); o << " batch";
      for (int k = chance(0.1) ? 0 : irange(1, 30); k > 0; --k) {
        ts += chance(0.05) ? irange(500, 7000) : irange(0, 120); Measurement m; m.ts = chance(0.1) ? ts - irange(0, 1000) : ts;
        int kind = irange(0, 9);
        if (kind < 5 && !quiet && nt) { RM d; d.type = chance(0.3) ? RM::Type::WIFI : RM::Type::BEACON; d.id = TransmitterId("t" + std::to_string(chance(0.5) ? irange(0, nt) : ((int)home + irange(0, 3)) % nt)); d.rssi = irange(-95, -40); d.distance = irange(1, 30); m.data = d; o << " r" << m.ts << ":" << d.id.value << "/" << d.rssi; }
        else if (kind == 5) { NmeaMeasurementData d; d.sentenceNumber = irange(0, 3); d.satellitesNumber = irange(0, 20); m.data = d; o << " n" << m.ts << ":" << d.satellitesNumber; }
        else { SensorMeasurementData d; int t = kind == 6 ? 4 : kind == 7 ? irange(0, 5) : 0; d.type = (SensorMeasurementData::Type)t; GeoPoint g = at(ref, real(-20, 90), real(-20, 90));
          d.values = t == 4 ? Vector3d(g.latitude, g.longitude, irange(0, 30)) : t == 0 ? Vector3d(real(-1, 1), real(-1, 1), 9.8 + A * std::sin(2 * M_PI * fr * ts / 1000)) : Vector3d(real(-3, 3), real(-3, 3), real(-3, 3)); m.data = d; o << " " << "amgblo"[t] << m.ts << ":" << d.values.x << "," << d.values.y << "," << d.values.z; }
        batch.push_back(m);
      }
      input("batches", o.str());
      auto got = client->navigate(batch);
      long long last = batch.empty() ? 0 : batch[0].ts; for (auto& m : batch) if (m.ts >= last) { last = m.ts; want.push_back(p.next(m)); }
      VH_CHECK(got.size() == want.size(), "one each", got.size() << " outputs for " << want.size() << " messages in order"); if (got.size() != want.size()) break;
      auto states = client->getStates(); if (!batch.empty()) { VH_CHECK(states.size() == want.size(), "states", states.size() << " states for " << want.size() << " messages in order"); if (states.size() != want.size()) break; }
      for (size_t i = 0; i < got.size() && !stop; ++i) {
        auto& g = got[i]; auto& w = want[i]; bool ok = !w.pos.isEmpty;
        stop = !(g.status == w.status && g.posLevel.value == (ok ? w.pos.levelId.value : "")); VH_CHECK(!stop, "status", "status " << (int)g.status << " on level '" << g.posLevel.value << "' instead of " << (int)w.status << " on '" << (ok ? w.pos.levelId.value : "") << "', output " << i); if (stop) break;
        VH_CHECK(states[i].getStepCounter() == (int)w.steps, "steps", "steps in the state " << states[i].getStepCounter());
        if (!ok) continue;
        bool placed = !w.pos.levelId.value.empty(); GeoPoint q(0, 0); if (placed) { GeoPoint b = lc->level(w.pos.levelId).bindingPoint(); q = at(b, w.pos.x, w.pos.y); }
        VH_CHECK(std::fabs(g.posLatitude - q.latitude) < 1e-9 && std::fabs(g.posLongitude - q.longitude) < 1e-9, "place", "placed at " << g.posLatitude << "," << g.posLongitude << " instead of " << q.latitude << "," << q.longitude << ", output " << i);
        VH_CHECK(same(g.posR, w.pos.deviationM) && g.provider == w.pos.provider, "radius", "radius " << g.posR << " instead of " << w.pos.deviationM);
        VH_CHECK(same(g.posAltitude, w.alt), "altitude", "altitude " << g.posAltitude << " instead of " << w.alt);
        VH_CHECK(g.posOrientation >= -M_PI && g.posOrientation < M_PI && std::fabs(std::remainder(g.posOrientation - w.azimuth, 2 * M_PI)) < 1e-6, "orientation", "orientation " << g.posOrientation << " instead of " << w.azimuth << ", output " << i);
      }
    }
  }
}
int main(int c, char** v) { return run(c, v, {walk}); }
