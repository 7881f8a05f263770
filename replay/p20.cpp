#include "core.h"
#include "sensor_fusion/sensor_fusion.h"
using namespace vc;
static bool same(double a, double b) { return std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a)); }
static void walk() {
  for (uint64_t n = 0; more(n); ++n) {
    NavigationSettings ns; ns.commonSettings.useCalculatedAzimuth = chance(0.4); ns.commonSettings.stepMultiplier = chance(0.3) ? 1 : real(0.2, 3); ns.commonSettings.deviceAzimuthLifetimeSeconds = irange(0, 4);
    SensorFusion s(ns); Pedometer p; ComplementaryFilter f(ns);   // the parts side by side
    long long ts = irange(1, 3000), count = 0, lastB = -1, clock = 0; double prev = 0, dev = 0, A = real(0.2, 9), fr = real(0.3, 5); std::ostringstream o; o.precision(17); o << "calc " << ns.commonSettings.useCalculatedAzimuth << " mult " << ns.commonSettings.stepMultiplier << " life " << ns.commonSettings.deviceAzimuthLifetimeSeconds; bool stop = false;
    for (int k = irange(5, 200); k > 0 && !stop; --k) {
      ts += chance(0.03) ? irange(300, 6000) : irange(5, 80); if (chance(0.03)) A = real(0, 9);
      int t = chance(0.6) ? 0 : irange(0, 5); double g = 9.80665 + A * std::sin(2 * M_PI * fr * ts / 1000) + real(-0.3, 0.3);
      SensorMeasurement m; m.ts = ts; m.data.type = (SensorMeasurementData::Type)t; m.data.values = t == 0 ? Vector3d(real(-1, 1), real(-1, 1), g) : Vector3d(real(-3, 3), real(-3, 3), real(-3, 3));
      o << " | " << "amgblo"[t] << ts << " " << m.data.values.x << "," << m.data.values.y << "," << m.data.values.z; input("motion", o.str());
      long long at = ts + irange(0, 500);
      MotionInfo r = s.calculateDisplacement(m, at);
      p.update(m); auto st = p.calculateSteps(); f.update(m); clock = ts; if (t == 5) lastB = ts, dev = m.data.values.x;
      double way = 0; for (auto& x : st) way += x.len; way *= ns.commonSettings.stepMultiplier; count += st.size(); bool step = !st.empty(), fresh = lastB != -1 && (clock - lastB) / 1000.0 <= ns.commonSettings.deviceAzimuthLifetimeSeconds, calc = ns.commonSettings.useCalculatedAzimuth;
      stop = r.isStepDetected != step; VH_CHECK(!stop, "step", "step reported " << r.isStepDetected << " at " << ts); if (stop) break;
      double h = -f.getFusedAzimuth();
      VH_CHECK(same(r.heading, h), "heading", "heading " << r.heading << " instead of " << h);
      VH_CHECK(same(r.gyroHeading, f.getGyroHeading()), "gyro heading", "heading of the rates " << r.gyroHeading);
      VH_CHECK(r.isAzimuthValid == (calc || fresh), "valid", "azimuth valid " << r.isAzimuthValid);
      VH_CHECK(same(r.azimuth, calc ? f.getMagneticAzimuth() : fresh ? dev : 0), "azimuth", "azimuth " << r.azimuth << " at " << ts);
      VH_CHECK(same(r.distance, step ? way : 0), "distance", "distance " << r.distance << " instead of " << way);
      VH_CHECK(r.stepCounter == (step ? count : 0), "counter", "counter " << r.stepCounter << " instead of " << count);
      VH_CHECK(r.lastMotionTs == (step ? at : 0), "time", "last motion at " << r.lastMotionTs);
      VH_CHECK(same(r.deltaAngle, step ? h - prev : 0), "turn", "turned by " << r.deltaAngle << " instead of " << h - prev);
      if (step) prev = h;
    }
  }
}
int main(int c, char** v) { return run(c, v, {walk}); }
