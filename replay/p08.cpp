#include "vh.h"
#include "level_estimator/level_estimator.h"
using namespace navigine::navigation_core; using namespace vh;
struct Scripted : LevelEstimator { using LevelEstimator::LevelEstimator; std::string next; LevelId detectCurrentLevel(const RadioMeasurementsData&) override { return LevelId(next); } };
static double mean(const std::deque<double>& d) { long double s = 0; for (double x : d) s += x; return d.empty() ? 0 : s / d.size(); }
static void histories() {
  for (uint64_t n = 0; more(n); ++n) {
    NavigationSettings ns; bool baro = ns.commonSettings.useBarometer = chance(0.6);
    Scripted e(ns);
    std::map<std::string, int> cnt; std::string cur; bool init = false;
    bool started = false; std::deque<double> nw, st; std::string last;
    int len = baro ? irange(150, 700) : irange(1, 60), nl = irange(1, 4);
    double p = irange(0, 6) == 0 ? 0.0 : real(900, 1050); std::string trend = "a"; std::ostringstream o; o << (baro ? "baro" : "plain") << " " << nl << " |";
    bool all = chance(0.7), flip = chance(0.5);
    for (int k = 0; k < len; ++k) {
      if (chance(0.05)) trend = std::string(1, 'a' + irange(0, nl - 1));
      std::string det = chance(0.1) ? "" : chance(0.8) ? trend : std::string(1, 'a' + irange(0, nl - 1));
      if (chance(0.01)) p += pick(std::vector<double>{-2, -0.5, -0.3, 0.1, 0.3, 0.5, 2});
      SensorMeasurement sm; sm.ts = k; sm.data.type = all || chance(0.7) ? SensorMeasurementData::Type::BAROMETER : pick(std::vector<SensorMeasurementData::Type>{SensorMeasurementData::Type::ACCELEROMETER, SensorMeasurementData::Type::MAGNETOMETER, SensorMeasurementData::Type::GYROSCOPE, SensorMeasurementData::Type::LOCATION});
      double x = p + (p ? real(-0.02, 0.02) : 0); sm.data.values.x = x; sm.data.values.y = 5000; sm.data.values.z = -1;
      bool isb = sm.data.type == SensorMeasurementData::Type::BAROMETER;
      o << ' ' << (det.empty() ? "-" : det) << (isb ? "@" : "#") << x;
      input("histories", o.str());
      e.next = det;
      RadioMeasurementsData none;
      std::string got = e.calculateLevel(none, sm).value;
      // model
      std::string h = cur;
      if (!det.empty()) {
        if (!init) { init = true; cur = det; }
        if (cnt[det] + 1 > 4) { cnt.clear(); cnt[det] = 4; cur = det; } else cnt[det]++;
        h = cur;
      }
      std::string want = h; bool close = false;
      if (baro) {
        if (!started) started = true;
        else {
          if (isb) { if (st.size() > 100) st.pop_front(); if (nw.size() > 100) { st.push_back(nw.front()); nw.pop_front(); } nw.push_back(x); }
          if (nw.size() > 100 && st.size() >= 100) {
            double a = mean(nw), b = mean(st), dh = a > 1e-12 && b > 1e-12 ? std::fabs(8.31 * 288.0 / (9.8 * 0.0289) * std::log(a / b)) : 0;
            close = std::fabs(dh - 2) < 1e-6;
            if (h != last && dh > 2) last = h;
          } else last = h;
          want = last;
        }
      }
      if (close) break;
      VH_CHECK(got == want, baro ? "barometer-level" : "history-level", "level '" << got << "' instead of '" << want << "' (history says '" << h << "', " << nw.size() << " new and " << st.size() << " stored samples)");
      if (got != want) break;
    }
    (void)flip;
  }
}
int main(int c, char** v) { return run(c, v, {histories}); }
