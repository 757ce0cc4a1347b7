// Pose algebra, averaging and projection helpers against independent models,
// over complete grids of rotations, translations, lists and points.
#include "McCalib.hpp"
#include "geometrytools.hpp"
#include "world.hpp"
using namespace McCalib;
namespace {
using cv::Matx33d;
using cv::Vec3d;
struct Rv {
  Vec3d v;
  std::string name;
};
std::vector<Rv> rotations(const std::vector<double> &angles) {
  std::vector<Rv> r;
  for (int x = -1; x <= 1; x++)
    for (int y = -1; y <= 1; y++)
      for (int z = -1; z <= 1; z++) {
        if (!x && !y && !z)
          continue;
        for (size_t k = 0; k < angles.size(); k++) {
          Vec3d a(x, y * 1.1, z * 0.9);
          a *= angles[k] / cv::norm(a);
          r.push_back({a, vh::cat(x + 1, y + 1, z + 1, "_", k)});
        }
      }
  return r;
}
cv::Mat col(const Vec3d &v) { return (cv::Mat_<double>(3, 1) << v[0], v[1], v[2]); }
cv::Mat row(const Vec3d &v) { return (cv::Mat_<double>(1, 3) << v[0], v[1], v[2]); }
Matx33d R(const Vec3d &v) { return world::rotvec(v[0], v[1], v[2]); }
Matx33d M33(const cv::Mat &m) {
  Matx33d r;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++)
      r(i, j) = m.at<double>(i, j);
  return r;
}
double diff(const Matx33d &a, const Matx33d &b) { return cv::norm(a - b); }
// 4x4 against rotation + translation
double diff4(const cv::Mat &P, const Matx33d &r, const Vec3d &t) {
  if (P.rows != 4 || P.cols != 4 || P.type() != CV_64F)
    return 1e9;
  double d = 0;
  for (int i = 0; i < 4; i++)
    for (int j = 0; j < 4; j++) {
      double w = i == 3 ? (j == 3) : j == 3 ? t[i] : r(i, j);
      d = std::max(d, std::fabs(P.at<double>(i, j) - w));
      if (std::isnan(P.at<double>(i, j)))
        return 1e9;
    }
  return d;
}
// independent chordal mean: power iteration on the sum of q q'
struct Q {
  double v[4];
};
Q quat(const Vec3d &r) {
  double th = cv::norm(r), s = th < 1e-12 ? 0.5 : std::sin(th / 2) / th;
  return {{r[0] * s, r[1] * s, r[2] * s, std::cos(th / 2)}};
}
Matx33d rot(const Q &q) {
  double n = std::sqrt(q.v[0] * q.v[0] + q.v[1] * q.v[1] + q.v[2] * q.v[2] + q.v[3] * q.v[3]);
  double x = q.v[0] / n, y = q.v[1] / n, z = q.v[2] / n, w = q.v[3] / n;
  return Matx33d(1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w),
                 2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w),
                 2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y));
}
// returns false if the mean is not well defined
bool chordal(const std::vector<Vec3d> &r, Matx33d &out) {
  double A[4][4] = {};
  for (auto &v : r) {
    Q q = quat(v);
    for (int i = 0; i < 4; i++)
      for (int j = 0; j < 4; j++)
        A[i][j] += q.v[i] * q.v[j] / r.size();
  }
  // all eigenvalues by repeated deflation
  double val[2];
  Q vec[2];
  for (int e = 0; e < 2; e++) {
    Q q = {{0.31, 0.52, -0.23, 0.77}};
    double l = 0;
    for (int it = 0; it < 4000; it++) {
      Q p = {{0, 0, 0, 0}};
      for (int i = 0; i < 4; i++)
        for (int j = 0; j < 4; j++)
          p.v[i] += A[i][j] * q.v[j];
      l = std::sqrt(p.v[0] * p.v[0] + p.v[1] * p.v[1] + p.v[2] * p.v[2] + p.v[3] * p.v[3]);
      if (l < 1e-14)
        break;
      for (int i = 0; i < 4; i++)
        q.v[i] = p.v[i] / l;
    }
    val[e] = l;
    vec[e] = q;
    for (int i = 0; i < 4; i++)
      for (int j = 0; j < 4; j++)
        A[i][j] -= l * q.v[i] * q.v[j];
  }
  out = rot(vec[0]);
  return val[0] - val[1] > 0.05;
}
double med(std::vector<double> v) {
  std::sort(v.begin(), v.end());
  size_t n = v.size();
  return n == 0 ? 0 : n % 2 ? v[n / 2] : (v[n / 2] + v[n / 2 - 1]) / 2;
}
double sgn(const Vec3d &a, const Vec3d &b) { return diff(R(a), R(b)); }
} // namespace
int main(int argc, char **argv) {
  vh::Run run(argc, argv);
  world::quiet();
  run.retries = 0;
  const bool T = run.thorough();
  const std::vector<double> angles = {0, 1e-9, 1e-5, 0.3, 1.2, 1.57079632679, 2.0944, 2.5, 3.1,
                                      3.14159, 3.14159265358979};
  const auto rots = rotations(angles);
  const std::vector<Vec3d> trans = {{0, 0, 0}, {1, -2, 3}, {-0.25, 0.5, 1e-3}, {40, 0, -17}};
  // 1. representations of a pose, for every rotation x translation
  for (auto &r : rots)
    for (size_t k = 0; k < trans.size(); k++)
      run.run(vh::cat("pose_", r.name, "_", k), [&](vh::Case &c) {
        const Matx33d m = R(r.v);
        const Vec3d t = trans[k];
        auto chk = [&](const char *what, double d, double tol = 1e-7) {
          c.step();
          if (!(d < tol))
            c.fail(what, vh::cat(what, " off by ", d));
        };
        cv::Mat rm = cv::Mat(m).clone(), tm = col(t), rv = col(r.v);
        for (int asRow = 0; asRow < 2; asRow++) {
          rv = asRow ? row(r.v) : col(r.v);
          chk("RVecT2Proj", diff4(RVecT2Proj(rv, tm), m, t));
          cv::Mat ir, it;
          invertRvecT(rv, tm, ir, it);
          chk("invert", diff(R(Vec3d(ir.at<double>(0), ir.at<double>(1), ir.at<double>(2))), m.t()),
              5e-5);
          Vec3d ti = -(m.t() * t);
          chk("invert", cv::norm(Vec3d(it.at<double>(0), it.at<double>(1), it.at<double>(2)) - ti),
              5e-5);
          chk("constant", cv::norm(tm, col(t)) + cv::norm(rv, asRow ? row(r.v) : col(r.v)), 1e-15);
          cv::Mat ar = rv.clone(), at = tm.clone();
          invertRvecT(ar, at);
          chk("invert in place", cv::norm(at - it) + diff(R(Vec3d(ar.at<double>(0), ar.at<double>(1),
                                                                  ar.at<double>(2))),
                                                         m.t()),
              5e-5);
        }
        chk("RT2Proj", diff4(RT2Proj(rm, tm), m, t));
        cv::Mat P = RT2Proj(rm, tm), orv, ot;
        Proj2RT(P, orv, ot);
        chk("Proj2RT", sgn(Vec3d(orv.at<double>(0), orv.at<double>(1), orv.at<double>(2)), r.v), 5e-5);
        chk("Proj2RT", cv::norm(ot, tm));
        auto v6 = ProjToVec(P);
        chk("ProjToVec", sgn(Vec3d(v6[0], v6[1], v6[2]), r.v), 5e-5);
        chk("ProjToVec", cv::norm(Vec3d(v6[3], v6[4], v6[5]) - t), 1e-5);
        std::vector<float> pv = {(float)r.v[0], (float)r.v[1], (float)r.v[2],
                                 (float)t[0],   (float)t[1],   (float)t[2]};
        chk("vectorProj", diff4(vectorProj(pv), m, t), 1e-5);
        // quaternions
        cv::Mat q = convertRotationMatrixToQuaternion(rm);
        chk("quaternion norm", std::fabs(cv::norm(q) - 1));
        for (int s = -1; s <= 1; s += 2) {
          std::array<double, 4> qa;
          for (int i = 0; i < 4; i++)
            qa[i] = s * q.at<double>(i);
          chk("quaternion", diff(M33(convertQuaternionToRotationMatrix(qa)), m));
          Q w = quat(r.v);
          std::array<double, 4> qw;
          for (int i = 0; i < 4; i++)
            qw[i] = s * w.v[i];
          chk("quaternion to matrix", diff(M33(convertQuaternionToRotationMatrix(qw)), m));
        }
        // points
        std::vector<cv::Point3f> p;
        for (int n = 0; n <= 3; n++) {
          auto o = transform3DPts(p, rv, tm);
          if (o.size() != p.size())
            c.fail("transform", "number of points");
          for (size_t i = 0; i < o.size() && i < p.size(); i++) {
            Vec3d w = m * Vec3d(p[i].x, p[i].y, p[i].z) + t;
            chk("transform", cv::norm(Vec3d(o[i].x, o[i].y, o[i].z) - w), 2e-5);
          }
          p.emplace_back(0.5f * n - 1, 2.f - n, 0.25f * n);
        }
        c.state(c.id);
        c.trace();
      });
  // 2. median: every list
  for (int n = 0; n <= (T ? 8 : 7); n++) {
    std::vector<int> d(n, 0), rad(n, 4);
    const double val[4] = {-2, 0.5, 0.5000001, 1e6};
    uint64_t cnt = 0;
    do
      if (n < 5 || cnt++ % 1 == 0)
        run.run(vh::cat("median_", n, "_", vh::digits(d)), [&](vh::Case &c) {
          std::vector<double> v;
          for (int k : d)
            v.push_back(val[k]);
          double w = med(v), g = median(v);
          if (!(std::fabs(w - g) < 1e-12))
            c.fail("median", vh::cat(g, " instead of ", w));
          c.step();
          c.trace();
          c.state(c.id);
        });
    while (n && vh::nextDigits(d, rad));
  }
  // 3. mean of rotations and of pose lists: every list of up to 4 out of 7
  const Vec3d base[7] = {{0.1, -0.2, 0.3}, {0.12, -0.17, 0.33}, {1.9, 2.1, -0.7},
                         {-1.85, -2.15, 0.75}, {0, 0, 3.1}, {0.02, 0, -3.12}, {-0.4, 0.9, 0.6}};
  const Vec3d bt[7] = {{0, 0, 1}, {0.1, -0.1, 1.1}, {5, -7, 2}, {0.05, 0.2, 0.9},
                       {-1, 2, 3}, {0, 0, 0}, {100, -100, 50}};
  {
    McCalib::Calibration *cal = nullptr;
    std::string dir = world::tempDir(run);
    {
      std::ofstream f(dir + "/config.yml");
      f << "%YAML:1.0\n---\nnumber_camera: 1\nnumber_board: 1\nnumber_x_square: 4\n"
           "number_y_square: 4\nlength_square: 0.04\nlength_marker: 0.03\ndistortion_model: 0\n"
           "square_size: 0.1\nquaternion_averaging: 1\n";
    }
    cal = new McCalib::Calibration(dir + "/config.yml");
    auto average = [&](vh::Case &c, const std::vector<int> &d, int mode) {
            std::vector<Vec3d> rs;
            std::vector<double> a, b, e, tx, ty, tz;
            for (int k : d) {
              rs.push_back(base[k]);
              a.push_back(base[k][0]);
              b.push_back(base[k][1]);
              e.push_back(base[k][2]);
              tx.push_back(bt[k][0]);
              ty.push_back(bt[k][1]);
              tz.push_back(bt[k][2]);
            }
            Matx33d want;
            bool defined = true;
            if (mode)
              defined = chordal(rs, want);
            else
              want = R({med(a), med(b), med(e)});
            Vec3d wt(med(tx), med(ty), med(tz));
            auto a2 = a, b2 = b, e2 = e;
            cv::Mat g = getAverageRotation(a2, b2, e2, mode);
            Vec3d gv(g.at<double>(0), g.at<double>(1), g.at<double>(2));
            if (defined && !(diff(R(gv), want) < 1e-6))
              c.fail("mean", vh::cat(mode ? "quaternion" : "median", " mean of rotations off by ",
                                     diff(R(gv), want)));
            // the same through the averaging of pairwise poses
            std::map<std::pair<int, int>, std::vector<cv::Mat>> pairs;
            std::map<std::pair<int, int>, cv::Mat> out;
            for (int k : d) {
              pairs[{3, 1}].push_back(RVecT2Proj(col(base[k]), col(bt[k])));
              pairs[{1, 3}].push_back(RVecT2Proj(col(base[k]), col(bt[k])).inv());
            }
            pairs[{2, 2}].push_back(RVecT2Proj(col(base[5]), col(bt[6])));
            cal->quaternion_averaging_ = mode;
            cal->initInterTransform(pairs, out);
            if (out.size() != 3)
              c.fail("pairs", vh::cat(out.size(), " transforms"));
            else if (defined) {
              if (!(diff4(out[{3, 1}], want, wt) < 1e-6))
                c.fail("pair", vh::cat("pose mean off by ", diff4(out[{3, 1}], want, wt)));
              if (!(diff4(out[{2, 2}], R(base[5]), bt[6]) < 1e-6))
                c.fail("pair", "single pose changed");
              bool same = true;
              for (int k : d)
                same &= k == d[0];
              if (same && !(cv::norm(out[{3, 1}] * out[{1, 3}], cv::Mat::eye(4, 4, CV_64F)) < 1e-6))
                c.fail("inverse", "means of inverse poses are not inverse");
            }
            c.step(3);
            c.trace();
            c.state(c.id);
    };
    for (int n = 1; n <= (T ? 5 : 4); n++) {
      std::vector<int> d(n, 0), rad(n, 7);
      do
        for (int mode = 0; mode < 2; mode++)
          run.run(vh::cat("mean_", vh::digits(d), "_", mode),
                  [&](vh::Case &c) { average(c, d, mode); });
      while (vh::nextDigits(d, rad));
    }
    // long lists of two different poses: one after the other, in turn
    for (int n : {16, 31, 50, 64, 65, 99, 101, 128, 200, 256, 257, 500, 1001})
      for (int p = 0; p < 7; p++)
        for (int q = 0; q < 7; q++)
          for (int share = 1; share < 5 && p != q; share++)
            for (int order = 0; order < 2; order++)
              for (int mode = 0; mode < 2; mode++)
                run.run(vh::cat("long_", n, "_", p, q, "_", share, order, mode), [&](vh::Case &c) {
                  std::vector<int> d;
                  for (int i = 0; i < n; i++)
                    d.push_back((order ? i % 5 : i * 5 / n) < share ? p : q);
                  average(c, d, mode);
                });
  }
  // 4. line through points: every subset of 2-6 points of a 4x4 grid (sheared)
  for (int mask = 1; mask < 65536; mask++) {
    int n = __builtin_popcount(mask);
    if (n < 2 || n > (T ? 16 : 4))
      continue;
    run.run(vh::cat("line_", mask), [&](vh::Case &c) {
      for (int shear = 0; shear < 2; shear++) {
        std::vector<cv::Point2f> p;
        double mx = 0, my = 0, xx = 0, xy = 0, yy = 0;
        for (int k = 0; k < 16; k++)
          if (mask >> k & 1)
            p.emplace_back(100 + 10 * (k % 4) + (shear ? 3.f * (k / 4) : 0), 50 + 12 * (k / 4));
        for (auto &q : p)
          mx += q.x / n, my += q.y / n;
        for (auto &q : p)
          xx += (q.x - mx) * (q.x - mx), xy += (q.x - mx) * (q.y - my),
              yy += (q.y - my) * (q.y - my);
        double a, b, cc, res;
        calcLinePara(p, a, b, cc, res);
        double r = 0, gap = std::hypot(xx - yy, 2 * xy) / (xx + yy);
        for (auto &q : p)
          r += std::fabs(a * q.x + b * q.y + cc) / n;
        if (!(std::fabs(std::hypot(a, b) - 1) < 1e-4))
          c.fail("line", "direction is not a unit vector");
        if (!(std::fabs(r - res) < 1e-3 * (1 + r)))
          c.fail("line", vh::cat("residual ", res, " is not the mean distance ", r));
        if (!(std::fabs(a * mx + b * my + cc) < 1e-2))
          c.fail("line", "not through the centre");
        if (gap > 0.02) {
          double th = 0.5 * std::atan2(2 * xy, xx - yy), w = 0;
          for (auto &q : p)
            w += std::fabs(-std::sin(th) * (q.x - mx) + std::cos(th) * (q.y - my)) / n;
          if (!(std::fabs(w - res) < 2e-2 * (1 + w)))
            c.fail("line", vh::cat("residual ", res, " instead of ", w));
        }
        c.step();
      }
      c.trace();
      c.state(c.id);
    });
  }
  // 5. projection of both lens models against the formulas
  {
    const double D[6][5] = {{0, 0, 0, 0, 0},     {-0.2, 0.05, 0, 0, 0}, {0, 0, 0.003, 0, 0},
                            {0, 0, 0, -0.004, 0}, {0, 0, 0, 0, 0.06},    {0.1, -0.03, 0.002, 0.001, 0.01}};
    for (int model = 0; model < 2; model++)
      for (int d = 0; d < 6; d++)
        for (size_t r = 0; r < rots.size(); r += 3)
          for (int f = 0; f < 2; f++)
            run.run(vh::cat("proj_", model, "_", d, "_", rots[r].name, "_", f), [&](vh::Case &c) {
              world::Cam cam;
              cam.model = model;
              cam.fx = f ? 811 : 650;
              cam.fy = f ? 640 : 655;
              cam.u0 = 611.5;
              cam.v0 = 477.25;
              cam.d.assign(D[d], D[d] + (model ? 4 : 5));
              Matx33d m = R(rots[r].v);
              Vec3d t(0.1, -0.2, 2.5);
              std::vector<cv::Point3f> p;
              for (int i = -2; i <= 2; i++)
                for (int j = -2; j <= 2; j++)
                  p.emplace_back(0.3f * i, 0.25f * j, 0.1f * (i - j));
              cv::Mat K = (cv::Mat_<double>(3, 3) << cam.fx, 0, cam.u0, 0, cam.fy, cam.v0, 0, 0, 1);
              cv::Mat dv = cv::Mat(cam.d).clone().reshape(1, 1);
              std::vector<cv::Point2f> o;
              projectPointsWithDistortion(p, col(rots[r].v), col(t), K, dv, model, o);
              if (o.size() != p.size()) {
                c.fail("project", "number of points");
                return;
              }
              for (size_t i = 0; i < p.size(); i++) {
                cv::Vec2d w = world::projectModel(cam, m * Vec3d(p[i].x, p[i].y, p[i].z) + t);
                double e = std::hypot(o[i].x - w[0], o[i].y - w[1]);
                if (!(e < 1e-2))
                  c.fail("project", vh::cat("point ", i, " off by ", e));
                c.step();
              }
              c.trace();
              c.state(c.id);
            });
  }
  // 6. triangulation from every set of at least two of five views
  for (int mask = 1; mask < 32; mask++)
    for (int p = 0; p < 27; p++)
      for (int noise = 0; noise < 1; noise++)
        if (__builtin_popcount(mask) >= 2)
          run.run(vh::cat("tri_", mask, "_", p), [&](vh::Case &c) {
            cv::Mat K = (cv::Mat_<double>(3, 3) << 700, 0, 600, 0, 720, 400, 0, 0, 1);
            Vec3d X(0.4 * (p % 3 - 1), 0.4 * (p / 3 % 3 - 1), 0.3 * (p / 9 - 1));
            std::vector<cv::Point2f> px;
            std::vector<cv::Mat> rv, tv;
            for (int v = 0; v < 5; v++)
              if (mask >> v & 1) {
                Vec3d r(0.2 * (v % 3) - 0.2, 0.25 * v - 0.5, 0.4 * v);
                Vec3d t(0.5 * (v - 2), 0.3 * ((v * 2) % 5 - 2), 3 + 0.2 * v);
                Vec3d y = R(r) * X + t;
                px.emplace_back(700 * y[0] / y[2] + 600, 720 * y[1] / y[2] + 400);
                rv.push_back(col(r));
                tv.push_back(col(t));
              }
            cv::Point3f g = triangulateNViewLinearEigen(px, rv, tv, K);
            double e = cv::norm(Vec3d(g.x, g.y, g.z) - X);
            if (!(e < 1e-3))
              c.fail("triangulate", vh::cat("off by ", e));
            c.step();
            c.trace();
            c.state(c.id);
          });
  return run.finish();
}
