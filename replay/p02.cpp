#include "vh.h"
#include "geometry.h"
using namespace navigine::navigation_core;
using namespace vh;
// coordinates on a half-metre grid most of the time: the oracle is then exact (long double)
typedef long double ld;
static double co() { int k = irange(0, 3); return k == 0 ? real(-50, 50) : irange(-12, 12) * 0.5; }
static ld d2(ld ax, ld ay, ld bx, ld by) { return (ax - bx) * (ax - bx) + (ay - by) * (ay - by); }
static ld crs(ld ax, ld ay, ld bx, ld by, ld cx, ld cy) { return (bx - ax) * (cy - ay) - (cx - ax) * (by - ay); }
static ld segd(ld ax, ld ay, ld bx, ld by, ld px, ld py) {
  ld L = d2(ax, ay, bx, by); if (L == 0) return sqrtl(d2(ax, ay, px, py));
  ld t = ((px - ax) * (bx - ax) + (py - ay) * (by - ay)) / L; t = t < 0 ? 0 : t > 1 ? 1 : t;
  return sqrtl(d2(ax + t * (bx - ax), ay + t * (by - ay), px, py));
}
static LocationPoint lp(double x, double y, int lev) { LocationPoint p; p.x = x; p.y = y; p.level = LevelId(std::string(1, 'a' + lev)); return p; }
static void body() {
  for (uint64_t i = 0; more(i); ++i) {
    double a[8]; for (double& v : a) v = co();
    if (chance(0.3)) a[2] = a[0]; if (chance(0.3)) a[3] = a[1]; if (chance(0.2)) a[6] = a[4]; if (chance(0.2)) a[7] = a[5];
    std::ostringstream o; o << std::setprecision(17); for (double v : a) o << v << " ";
    input("geometry", o.str());
    double ax = a[0], ay = a[1], bx = a[2], by = a[3], cx = a[4], cy = a[5], dx = a[6], dy = a[7];
    ld L = d2(ax, ay, bx, by), M = d2(cx, cy, dx, dy);
    bool big = L > 1e-4, degen = L == 0;
    if (big || degen) {
      double r = SegmentPointDist({ax, ay}, {bx, by}, {cx, cy});
      VH_CHECK(near(r, (double)segd(ax, ay, bx, by, cx, cy), 1e-9), "segment-point", "distance " << r << " expected " << (double)segd(ax, ay, bx, by, cx, cy));
    }
    VH_CHECK(near(GetDist(ax, ay, bx, by), (double)sqrtl(L), 1e-12), "dist", "distance " << GetDist(ax, ay, bx, by));
    VH_CHECK(near(GetArea(ax, ay, bx, by, cx, cy) * 2, (double)crs(ax, ay, bx, by, cx, cy), 1e-12), "area", "area " << GetArea(ax, ay, bx, by, cx, cy));
    int l1 = irange(0, 1), l2 = chance(0.7) ? l1 : irange(0, 1), l3 = chance(0.7) ? l1 : irange(0, 1);
    LocationPoint A = lp(ax, ay, l1), B = lp(bx, by, l2), C = lp(cx, cy, l3);
    double dd = GetDist(A, B);
    VH_CHECK(std::isnan(dd) == (l1 != l2), "dist-level", "distance across levels " << dd);
    if (l1 == l2) VH_CHECK(near(dd, (double)sqrtl(L), 1e-12), "dist-points", "distance " << dd);
    double ar = GetArea(A, B, C); bool same = l1 == l2 && l1 == l3;
    VH_CHECK(std::isnan(ar) == !same, "area-level", "area across levels " << ar);
    if (same) VH_CHECK(near(ar * 2, (double)crs(ax, ay, bx, by, cx, cy), 1e-12), "area-points", "area " << ar);
    double ld_ = GetDist(A, B, C);
    if (!same || degen) VH_CHECK(std::isnan(ld_), "line-nan", "distance to a line across levels or to a degenerate line " << ld_);
    else if (big) VH_CHECK(near(ld_, (double)(fabsl(crs(ax, ay, bx, by, cx, cy)) / sqrtl(L)), 1e-9), "line-dist", "distance to line " << ld_);
    double px = -777, py = -777;
    double k = GetProjection(ax, ay, bx, by, cx, cy, &px, &py);
    if (big || degen) {
      ld kk = degen ? 0 : ((ld)(cx - ax) * (bx - ax) + (ld)(cy - ay) * (by - ay)) / L;
      VH_CHECK(near(k, (double)kk, 1e-9), "proj-k", "parameter " << k << " expected " << (double)kk);
      VH_CHECK(near(px, (double)(ax + kk * (bx - ax)), 1e-8) && near(py, (double)(ay + kk * (by - ay)), 1e-8), "proj-point", "projection " << px << "," << py);
      VH_CHECK(GetProjection(ax, ay, bx, by, cx, cy, nullptr, nullptr) == k, "proj-null", "null outputs change the parameter");
    }
    ld det = (ld)(bx - ax) * (dy - cy) - (ld)(dx - cx) * (by - ay);
    double ox = -777, oy = -777;
    double q = GetIntersection(ax, ay, bx, by, cx, cy, dx, dy, &ox, &oy);
    if (det == 0) VH_CHECK(std::isnan(q) && ox == -777, "inter-parallel", "parallel vectors meet at " << q);
    else if (fabsl(det) > 1e-4) {
      ld kk = ((ld)(cx - ax) * (dy - cy) - (ld)(cy - ay) * (dx - cx)) / det;
      ld ll = ((ld)(cx - ax) * (by - ay) - (ld)(cy - ay) * (bx - ax)) / det;
      bool in = kk > 1e-9 && kk < 1 - 1e-9 && ll > 1e-9 && ll < 1 - 1e-9;
      bool out = kk < -1e-9 || kk > 1 + 1e-9 || ll < -1e-9 || ll > 1 + 1e-9;
      if (in) VH_CHECK(near(q, (double)kk, 1e-8) && near(ox, (double)(ax + kk * (bx - ax)), 1e-7) && near(oy, (double)(ay + kk * (by - ay)), 1e-7), "inter-point", "intersection " << q << " at " << ox << "," << oy);
      if (out) VH_CHECK(std::isnan(q), "inter-none", "segments that do not meet give " << q);
    }
    ld s1 = crs(ax, ay, bx, by, cx, cy), s2 = crs(ax, ay, bx, by, dx, dy), s3 = crs(cx, cy, dx, dy, ax, ay), s4 = crs(cx, cy, dx, dy, bx, by);
    ld mn = std::min(std::min(fabsl(s1), fabsl(s2)), std::min(fabsl(s3), fabsl(s4)));
    bool ci = CheckIntersection(ax, ay, bx, by, cx, cy, dx, dy);
    if (mn > 1e-3) { bool e = s1 * s2 < 0 && s3 * s4 < 0; VH_CHECK(ci == e, "check-inter", "CheckIntersection says " << ci << ", crossing is " << e); }
    // point on segment: a point taken from the segment, and one clearly off it
    bool on = PointOnLine(cx, cy, ax, ay, bx, by);
    ld cr = crs(cx, cy, ax, ay, bx, by), dt = (ld)(ax - cx) * (bx - cx) + (ld)(ay - cy) * (by - cy);
    if (fabsl(cr) > 1e-6 || dt > 1e-6) VH_CHECK(!on, "online-off", "a point off the segment is accepted");
    if (cr == 0 && dt <= 0) VH_CHECK(on, "online-on", "a point of the segment is rejected");
    double m[9]; for (double& v : m) v = co();
    ld D = (ld)m[0] * ((ld)m[4] * m[8] - (ld)m[5] * m[7]) - (ld)m[1] * ((ld)m[3] * m[8] - (ld)m[5] * m[6]) + (ld)m[2] * ((ld)m[3] * m[7] - (ld)m[4] * m[6]);
    double dv = Determinant(m[0], m[1], m[2], m[3], m[4], m[5], m[6], m[7], m[8]);
    VH_CHECK(std::fabs(dv - (double)D) < 1e-6, "det3", "determinant " << dv << " expected " << (double)D);
  }
}
int main(int c, char** v) { return run(c, v, {body}); }
