#include "core.h"
#include "sensor_fusion/complementary_filter.h"
#define navigation_core alone
#define ComplementaryFilter AloneFilter
#include "complementary_filter/src/complementary_filter.cpp"
#undef DOUBLE_EPSILON
#include "complementary_filter/src/quaternion.cpp"
#include "complementary_filter/src/vector3d.cpp"
#undef navigation_core
#undef ComplementaryFilter
using namespace vc;
struct V { double x, y, z; double len() const { return std::hypot(x, y, z); } V unit() const { double l = len(); return l > 0 ? V{x / l, y / l, z / l} : *this; } V operator*(double k) const { return {x * k, y * k, z * k}; } V operator+(V o) const { return {x + o.x, y + o.y, z + o.z}; } };
static V cross(V a, V b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
struct M { double m[3][3];        // rotation as a matrix
  V operator*(V v) const { return {m[0][0] * v.x + m[0][1] * v.y + m[0][2] * v.z, m[1][0] * v.x + m[1][1] * v.y + m[1][2] * v.z, m[2][0] * v.x + m[2][1] * v.y + m[2][2] * v.z}; }
  M t() const { M r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r.m[i][j] = m[j][i]; return r; }
  double roll() const { return std::atan2(m[2][1], m[2][2]); } double pitch() const { return std::asin(std::clamp(-m[2][0], -1.0, 1.0)); } double yaw() const { return std::atan2(m[1][0], m[0][0]); }
  bool gimbal() const { return std::fabs(m[2][0]) > 0.9999999; } };
template <class Q> M mat(const Q& q) { double w = q.w, x = q.x, y = q.y, z = q.z; return {{{1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)}, {2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)}, {2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)}}}; }
// turning by v: angle 2 atan(|v| / 2) about v
static M about(V v) { double l = v.len(), a = 2 * std::atan(l / 2); V u = l > 0 ? v * (1 / l) : V{1, 0, 0}; double c = std::cos(a), s = std::sin(a), k = 1 - c; return {{{c + k * u.x * u.x, k * u.x * u.y - s * u.z, k * u.x * u.z + s * u.y}, {k * u.x * u.y + s * u.z, c + k * u.y * u.y, k * u.y * u.z - s * u.x}, {k * u.x * u.z - s * u.y, k * u.y * u.z + s * u.x, c + k * u.z * u.z}}}; }
static M mul(const M& a, const M& b) { M r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { r.m[i][j] = 0; for (int k = 0; k < 3; ++k) r.m[i][j] += a.m[i][k] * b.m[k][j]; } return r; }
static double diff(const M& a, const M& b) { double d = 0; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) d = std::max(d, std::fabs(a.m[i][j] - b.m[i][j])); return d; }
static bool ang(double a, double b, double eps = 1e-6) { return std::fabs(std::remainder(a - b, 2 * M_PI)) < eps; }
struct Core { using F = ComplementaryFilter; using S = SensorMeasurement; static F make(double a, double m, double i, double life) { NavigationSettings ns; ns.commonSettings.deviceAzimuthLifetimeSeconds = life; return F(ns, a, m, i); }
  static S msr(int t, V v, long long ts) { S s; s.ts = ts; s.data.type = (SensorMeasurementData::Type)t; s.data.values = Vector3d(v.x, v.y, v.z); return s; } static V err(const F& f) { return {f.mIntergalError.x, f.mIntergalError.y, f.mIntergalError.z}; }
  static void more(const F& f, int t, long long ts, long long dev, double life) { VH_CHECK(f.isDeviceAzimuthOutdated() == (dev == -1 || (ts - dev) / 1000.0 > life), "outdated", "azimuth of the device outdated: " << f.isDeviceAzimuthOutdated()); if (t == 2) VH_CHECK(ang(f.getGyroHeading(), f.getFusedAzimuth()), "gyro heading", "heading of the rates differs"); } };
struct Alone { using F = navigine::alone::AloneFilter; using S = navigine::alone::SensorMeasurement; static F make(double a, double m, double i, double) { return F(a, m, i); }
  static S msr(int t, V v, long long ts) { S s; s.ts = ts; s.type = (S::Type)t; s.values = navigine::alone::Vector3d(v.x, v.y, v.z); return s; } static V err(const F& f) { return {f.mIntegralError.x, f.mIntegralError.y, f.mIntegralError.z}; }
  static void more(const F&, int, long long, long long, double) {} };
static V some(double s) { return chance(0.08) ? V{0, 0, 0} : chance(0.2) ? V{(double)irange(-1, 1) * s, (double)irange(-1, 1) * s, (double)irange(-1, 1) * s} : V{real(-s, s), real(-s, s), real(-s, s)}; }
template <class K> void walk(const char* name) {
  for (uint64_t n = 0; more(n); ++n) {
    double ka = chance(0.2) ? 0.1 : real(0, 1), km = chance(0.2) ? 0.05 : real(0, 1), ki = chance(0.5) ? 0 : real(0, 0.1), life = irange(0, 5); auto f = K::make(ka, km, ki, life);
    std::ostringstream o; o.precision(17); o << name << " ka " << ka << " km " << km << " ki " << ki; long long ts = irange(0, 1000), lastG = -1, dev = -1; bool stop = false; double az = 0, da = 0;
    for (int k = irange(1, 25); k > 0 && !stop; --k) {
      ts += chance(0.1) ? irange(0, 5000) : irange(0, 100); int t = irange(0, 5); V v = some(t == 2 ? 5 : t == 0 ? 12 : 60);
      o << " | " << "amgblo"[t] << ts << " " << v.x << "," << v.y << "," << v.z; input("filter", o.str());
      M m = mat(f.mQ), w = m; V e0 = K::err(f), e{0, 0, 0}, u = v.unit(); bool close = (v.len() > 0 && v.len() < 1e-6);
      if (t == 0) { e = cross(u, m.t() * V{0, 0, 1}); w = mul(m, about(e * ka)); }
      if (t == 1 && lastG == -1 && v.len() > 0) { V g = m * u; e = cross(u, m.t() * V{0, std::hypot(g.x, g.y), g.z}); w = mul(m, about(e * km)); }
      if (t == 2) { double dt = lastG == -1 ? 0 : (ts - lastG) / 1000.0; w = mul(m, about(v * dt + e0 * dt)); lastG = ts; }
      if (t == 5) dev = ts, da = v.x;
      if (close) break;
      f.update(K::msr(t, v, ts)); M r = mat(f.mQ); double nrm = std::sqrt(f.mQ.w * f.mQ.w + f.mQ.x * f.mQ.x + f.mQ.y * f.mQ.y + f.mQ.z * f.mQ.z);
      stop = !(std::fabs(nrm - 1) < 1e-9); VH_CHECK(!stop, "unit", "quaternion of length " << nrm); if (stop) break;
      stop = !(diff(r, w) < 1e-7); VH_CHECK(!stop, "rotation", "orientation off by " << diff(r, w));
      V e1 = K::err(f), we = ki > 1e-8 ? e0 + e * ki : e0; VH_CHECK(std::hypot(e1.x - we.x, e1.y - we.y, e1.z - we.z) < 1e-9, "error sum", "summed error " << e1.x << "," << e1.y << "," << e1.z);
      auto a = f.getFusedOrientation(); VH_CHECK(a.ts == ts && std::fabs(a.roll) <= M_PI + 1e-12 && std::fabs(a.pitch) <= M_PI / 2 + 1e-12 && std::fabs(a.yaw) <= M_PI + 1e-12, "ranges", "angles " << a.roll << " " << a.pitch << " " << a.yaw);
      if (!r.gimbal()) VH_CHECK(ang(a.roll, r.roll(), 1e-4) && ang(a.pitch, r.pitch(), 1e-4) && ang(a.yaw, r.yaw(), 1e-4) && ang(f.getFusedAzimuth(), -r.yaw(), 1e-4), "angles", "angles " << a.roll << " " << a.pitch << " " << a.yaw << " for " << r.roll() << " " << r.pitch() << " " << r.yaw());
      double z = f.getMagneticAzimuth(); VH_CHECK(z >= -M_PI && z < M_PI, "azimuth range", "magnetic azimuth " << z);
      if (t != 1) VH_CHECK(z == az, "azimuth kept", "magnetic azimuth changed to " << z);
      else if (v.len() > 0 && !r.gimbal()) { V h = r * u; double y = r.yaw(), hx = std::cos(y) * h.x + std::sin(y) * h.y, hy = -std::sin(y) * h.x + std::cos(y) * h.y; if (std::hypot(hx, hy) > 1e-3) VH_CHECK(ang(z, std::atan2(hy, hx) - M_PI / 2, 1e-4), "azimuth", "magnetic azimuth " << z << " instead of " << std::atan2(hy, hx) - M_PI / 2); }
      az = z; VH_CHECK(f.getDeviceAzimuth() == da, "device azimuth", "azimuth of the device " << f.getDeviceAzimuth() << " instead of " << da);
      K::more(f, t, ts, dev, life);
      double x = real(-60, 60), p = t == 3 && k % 2 ? navigine::alone::to_minus_Pi_Pi(x) : navigine::navigation_core::to_minus_Pi_Pi(x); VH_CHECK(p >= -M_PI && p < M_PI && ang(p, x), "angle", x << " becomes " << p);
    }
  }
}
template <class Q> void angles(const char* name) {
  for (uint64_t n = 0; more(n); ++n) {
    double a = chance(0.3) ? irange(-2, 2) * M_PI / 4 : real(-1.6, 1.6), b = chance(0.3) ? 0 : real(-3, 3), k = 1 + (chance(0.5) ? real(-1e-9, 1e-9) : 0), ca = std::cos(a / 2), sa = std::sin(a / 2), cb = std::cos(b / 2), sb = std::sin(b / 2);
    Q q(ca * cb * k, -sa * sb * k, sa * cb * k, ca * sb * k); std::ostringstream o; o.precision(17); o << name << " angles of " << q.w << "," << q.x << "," << q.y << "," << q.z; input("angles", o.str());
    auto e = q.toEuler(); double p = std::get<1>(e), y = std::get<2>(e); VH_CHECK(std::fabs(p - std::clamp(a, -M_PI / 2, M_PI / 2)) < (std::fabs(a) > 1.5 ? 0.15 : 1e-5), "pitch", "pitch " << p << " instead of " << a);
    if (std::fabs(a) < 1.5) VH_CHECK(ang(y, b, 1e-5), "yaw", "yaw " << y << " instead of " << b);
  }
}
static void core1() { angles<Quaternion>("core"); }
static void alone1() { angles<navigine::alone::Quaternion>("standalone"); }
static void core() { walk<Core>("core"); }
static void alone() { walk<Alone>("standalone"); }
int main(int c, char** v) { return run(c, v, {core, alone, core1, alone1}); }
