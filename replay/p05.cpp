#include "core.h"
#include "measurements/measurement_preprocessor.h"
using namespace vc;
typedef CommonSettings CS;
typedef RadioMeasurementData RM;
static const RM::Type TYPES[] = {RM::Type::WIFI, RM::Type::BEACON, RM::Type::BLUETOOTH, RM::Type::EDDYSTONE, RM::Type::WIFI_RTT};
static const TransmitterType TX[] = {TransmitterType::WIFI, TransmitterType::BEACON, TransmitterType::BLUETOOTH, TransmitterType::UNKNOWN, TransmitterType::EDDYSTONE, TransmitterType::LOCATOR};
struct Known { int type; double A, B; };
static std::string id(int q) { return "t" + std::to_string(q); }
static bool sameBut(const RM& a, const RM& b) { return a.id == b.id && a.type == b.type && a.rssi == b.rssi && a.stddev == b.stddev && a.power == b.power; }
// window of length 0: an extraction returns what was accepted since the last one
static void drain(MeasurementsPreprocessor& p, std::map<std::string, RM>& acc, const CS& s, const std::map<std::string, Known>& known, const char*) {
  auto got = p.extractRadioMeasurements(0);
  std::vector<RM> want; for (auto& a : acc) want.push_back(a.second);
  size_t cnt = s.useClosestAps ? std::min<size_t>(want.size(), s.numClosestAps) : want.size();
  VH_CHECK(got.size() == cnt, "count", got.size() << " measurements extracted, expected " << cnt);
  std::vector<double> top; for (auto& w : want) top.push_back(w.rssi);
  std::sort(top.rbegin(), top.rend());
  std::set<std::string> seen;
  for (size_t i = 0; i < got.size(); ++i) {
    auto it = acc.find(got[i].id.value);
    VH_CHECK(it != acc.end() && seen.insert(got[i].id.value).second, "foreign", "measurement of " << got[i].id.value << " was never accepted or comes twice");
    if (it == acc.end()) continue;
    VH_CHECK(sameBut(got[i], it->second), "altered", "measurement of " << got[i].id.value << " altered: rssi " << got[i].rssi << " from " << it->second.rssi);
    double d = it->second.distance; auto kn = known.find(got[i].id.value);
    if (it->second.type == RM::Type::WIFI_RTT) d -= s.wiFiRttOffset; else if (kn != known.end()) d = std::exp((kn->second.A - it->second.rssi) / kn->second.B);
    VH_CHECK(near(got[i].distance, d, 1e-9), "distance", "distance of " << got[i].id.value << " is " << got[i].distance << ", expected " << d);
    if (s.useClosestAps && i < top.size()) VH_CHECK(got[i].rssi == top[i], "closest", "position " << i << " has rssi " << got[i].rssi << ", the " << i << "-th strongest is " << top[i]);
  }
  acc.clear();
}
// messages through the public interface, against the acceptance rule, the closest-access-point rule and the distance rule
static void stream() {
  for (uint64_t n = 0; more(n); ++n) {
    GeoPoint ref(real(-60, 60), real(-170, 170));
    auto lc = std::make_shared<LevelCollector>();
    int nl = irange(0, 3), nt = irange(1, 7);
    std::map<std::string, Known> known; std::ostringstream o;
    for (int l = 0; l < nl; ++l) {
      GeoLevel g = emptyLevel("L" + std::to_string(nl - l), ref, {});
      std::set<int> here;
      for (int k = irange(0, nt); k > 0; --k) {
        int q = irange(0, nt), t = chance(0.4) ? 5 : irange(0, 4); double A = irange(-90, -40), B = irange(5, 40) * (chance(0.1) ? -1 : 1);
        if (!here.insert(q).second) continue;
        g.transmitters.push_back(tx(ref, id(q), irange(0, 50), 1, 0, TX[t], {A, B, 0}));
        if (!known.count(id(q))) { known[id(q)] = {t, A, B}; o << id(q) << "@" << l << ":type" << t << "(" << A << "," << B << ") "; }
      }
      lc->addGeoLevel(g);
    }
    NavigationSettings ns; CS& s = ns.commonSettings;
    s.signalsToUse = (CS::SignalsToUse)irange(0, 2); s.measurementType = (CS::MeasurementType)(chance(0.6) ? 0 : irange(1, 2));
    s.useUnknownTransmitters = chance(0.4); s.useTracking = chance(0.4); s.sigCutOffRss = irange(-100, -50);
    s.useClosestAps = chance(0.4); s.numClosestAps = irange(0, 4); s.wiFiRttOffset = irange(-30, 30) / 10.0; s.sigAveragingTime = 0; s.sigWindowShift = chance(0.5) ? 0 : 1;
    o << "| use=" << (int)s.signalsToUse << " msr=" << (int)s.measurementType << " unknown=" << s.useUnknownTransmitters << " tracking=" << s.useTracking << " cut=" << s.sigCutOffRss << " closest=" << s.useClosestAps << "/" << s.numClosestAps << " rtt=" << s.wiFiRttOffset << " |";
    alignas(MeasurementsPreprocessor) static unsigned char mem[sizeof(MeasurementsPreprocessor)];
    memset(mem, irange(0, 255), sizeof mem);
    MeasurementsPreprocessor* p = new (mem) MeasurementsPreprocessor(lc, ns);
    VH_CHECK(p->getLastSignalTs() == 0 && p->getCurrentTs() == 0 && p->getValidSensor().ts == 0 && p->getCurrentNmea().ts == 0, "fresh", "a new preprocessor already has a signal (ts " << p->getLastSignalTs() << ") or a sensor value");
    long long ts = irange(1, 1000), last = 0; SensorMeasurement sm{}; NmeaMeasurement nm{};
    std::map<std::string, RM> acc; int msgs = irange(1, 14);
    for (int k = 0; k < msgs; ++k) {
      ts += irange(0, 500);
      Measurement m; m.ts = ts;
      int kind = irange(0, 5);
      if (kind == 0) { SensorMeasurementData d; d.type = (SensorMeasurementData::Type)irange(0, 5); d.values = Vector3d(irange(-9, 9), irange(-9, 9), irange(-9, 9)); m.data = d; sm.data = d; sm.ts = ts; o << " S"; }
      else if (kind == 1) { NmeaMeasurementData d; d.sentenceNumber = irange(0, 9); d.satellitesNumber = irange(0, 30); m.data = d; nm.data = d; nm.ts = ts; o << " N"; }
      else {
        RM d; d.type = TYPES[irange(0, 4)]; d.id = TransmitterId(id(irange(0, nt + 1)));
        if (acc.count(d.id.value)) d.type = acc[d.id.value].type;
        d.rssi = chance(0.1) ? 0 : chance(0.1) ? s.sigCutOffRss : chance(0.1) ? irange(1, 20) : irange(-110, -30); d.distance = irange(0, 40); d.stddev = irange(0, 5); d.power = irange(0, 5); m.data = d;
        auto kn = known.find(d.id.value);
        bool okTx = s.useUnknownTransmitters || (kn != known.end() && (kn->second.type == 5) == s.useTracking);
        bool rssiMode = s.measurementType == CS::MeasurementType::RSSI;
        bool okMode = rssiMode ? (d.rssi < 0 && d.rssi > s.sigCutOffRss) : d.type == RM::Type::WIFI_RTT;
        bool wifi = d.type == RM::Type::WIFI || d.type == RM::Type::WIFI_RTT;
        bool okType = wifi ? s.signalsToUse != CS::SignalsToUse::BLE : s.signalsToUse != CS::SignalsToUse::WIFI;
        bool ok = okTx && okMode && okType;
        o << " " << d.id.value << "/type" << (int)d.type << "/" << d.rssi << "/d" << d.distance;
        if (ok && acc.count(d.id.value)) drain(*p, acc, s, known, "stream");   // one measurement per transmitter and window
        if (ok) { last = ts; acc[d.id.value] = d; }
      }
      input("stream", o.str());
      p->updateMeasurements(m);
      VH_CHECK(p->getCurrentTs() == ts, "clock", "current time " << p->getCurrentTs() << " after a message of " << ts);
      VH_CHECK(p->getLastSignalTs() == last, "accept", "last signal time " << p->getLastSignalTs() << ", expected " << last << " (acceptance rule)");
      auto gs = p->getValidSensor(); auto gn = p->getCurrentNmea();
      VH_CHECK(gs.ts == sm.ts && (sm.ts == 0 || (gs.data.type == sm.data.type && gs.data.values.x == sm.data.values.x && gs.data.values.y == sm.data.values.y && gs.data.values.z == sm.data.values.z)), "sensor", "sensor of time " << gs.ts << ", expected " << sm.ts);
      VH_CHECK(gn.ts == nm.ts && (nm.ts == 0 || (gn.data.satellitesNumber == nm.data.satellitesNumber && gn.data.sentenceNumber == nm.data.sentenceNumber)), "nmea", "nmea of time " << gn.ts << ", expected " << nm.ts);
      if (chance(0.3) || k == msgs - 1) drain(*p, acc, s, known, "stream");
    }
    p->~MeasurementsPreprocessor();
  }
}
int main(int c, char** v) { return run(c, v, {stream}); }
