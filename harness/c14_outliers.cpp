// Robust pose estimation: every placement of gross outliers.
#include "registry.hpp"
#include "world.hpp"
#include <opencv2/calib3d.hpp>
using namespace world;
namespace {
cv::Point2f bad(int mode, int k, cv::Point2f p) {
  static const float O[8][2] = {{61, -47}, {-83, 39}, {35, 97},   {-52, -71},
                                {120, 20}, {-31, 88}, {74, 66}, {-99, -28}};
  if (mode == 0) // incoherent
    return p + cv::Point2f(O[k % 8][0], O[k % 8][1]);
  if (mode == 1) // all displaced by the same vector
    return p + cv::Point2f(-70, 55);
  return cv::Point2f(300, 200); // all collapsed on one pixel
}
std::string list(const std::vector<int> &v) {
  std::string s;
  for (int i : v)
    s += std::to_string(i) + " ";
  return s;
}
} // namespace
int main(int argc, char **argv) {
  vh::Run run(argc, argv);
  quiet();
  const std::string dir = tempDir(run);
  // 1. the estimator itself
  struct G {
    int nx, ny, maxOut;
  };
  // the corners listed are wrong
  auto one = [&](vh::Case &c, int nx, int ny, const std::vector<int> &wrong, int mode, int model, int pose,
                 float thresh, int iterations) {
                World w = World::standard(1, 1, 6, model, true);
                w.boards[0].nx = nx + 1;
                w.boards[0].ny = ny + 1;
                w.boards[0].sq = 0.11 * std::min(1.0, 5.0 / std::max(nx, ny));
                Obs o = w.observe(0, pose, 0);
                std::vector<cv::Point3f> X;
                std::vector<int> good;
                const int n = nx * ny;
                for (int k = 0, q = 0; k < n; k++) {
                  cv::Vec3d x = w.boards[0].pt(k);
                  X.emplace_back((float)x[0], (float)x[1], (float)x[2]);
                  if (std::binary_search(wrong.begin(), wrong.end(), k))
                    o.px[k] = bad(mode, q++, o.px[k]);
                  else
                    good.push_back(k);
                }
                const Cam &K = w.cams[0];
                cv::Mat A = (cv::Mat_<double>(3, 3) << K.fx, 0, K.u0, 0, K.fy, K.v0, 0, 0, 1);
                cv::Mat D(1, (int)K.d.size(), CV_64F);
                for (size_t i = 0; i < K.d.size(); i++)
                  D.at<double>((int)i) = K.d[i];
                cv::Mat r(1, 3, CV_64F), t(1, 3, CV_64F);
                cv::Mat in = McCalib::ransacP3PDistortion(X, o.px, A, D, r, t, thresh,
                                                          iterations, model);
                c.trace();
                c.step(n);
                c.state(c.id);
                std::vector<int> got;
                for (int i = 0; i < in.rows; i++)
                  got.push_back(in.at<int>(i));
                if (got != good)
                  return c.fail("inliers", "inliers " + list(got) + "expected " + list(good));
                r.convertTo(r, CV_64F);
                t.convertTo(t, CV_64F);
                Pose P{rotvec(r.at<double>(0), r.at<double>(1), r.at<double>(2)),
                       {t.at<double>(0), t.at<double>(1), t.at<double>(2)}};
                Pose T = w.camFromBoard(0, pose, 0);
                if (rotAngle(P.R, T.R) > 2e-3 || transErr(P, T) > 2e-3)
                  c.fail("pose", vh::cat("rotation error ", rotAngle(P.R, T.R),
                                         " translation error ", transErr(P, T)));
                c.sample("inliers " + list(got));
  };
  for (G g : std::vector<G>{{4, 2, 2}, {3, 3, 2}, {4, 3, run.thorough() ? 4 : 3}, {5, 4, 2}})
    for (int mode = 0; mode < 3; mode++)
      for (int model = 0; model < 2; model++)
        for (int pose = 0; pose < (run.thorough() ? 6 : 2); pose++)
          for (float thresh : {1.f, 3.f, 8.f}) {
            if (thresh > 5 && g.nx * g.ny < 12)
              continue; // other poses may explain more corners within 8 px
            const int n = g.nx * g.ny;
            for (int m = 0; m < 1 << n; m++) {
              if (__builtin_popcount(m) > g.maxOut)
                continue;
              run.run(vh::cat("p", g.nx, "x", g.ny, "_o", mode, "_m", model, "_q", pose,
                              "_t", thresh, "_", m),
                      [&](vh::Case &c) {
                std::vector<int> wrong;
                for (int k = 0; k < n; k++)
                  if (m >> k & 1)
                    wrong.push_back(k);
                one(c, g.nx, g.ny, wrong, mode, model, pose, thresh, 1000);
              });
            }
          }
  // boards of many corners: outliers spread evenly or in one block
  for (auto &dim : std::vector<std::pair<int, int>>{{12, 8}, {16, 13}, {20, 13}, {26, 20}})
    for (int mode = 0; mode < 3; mode++)
      for (int model = 0; model < 2; model++)
        for (float thresh : {1.f, 3.f, 8.f})
          for (int period : {0, 5, 6, 11, 50, 1000})
            for (int first = 0; first < (period ? std::min(period, 3) : 1); first++)
              for (int block = 0; block < (period ? 2 : 1); block++) {
                std::vector<int> wrong;
                const int n = dim.first * dim.second;
                for (int k = 0; k < n; k++)
                  if (period && (block ? k >= first * (n / 3) && k < first * (n / 3) + n / period
                                       : k % period == first))
                    wrong.push_back(k);
                run.run(vh::cat("many", dim.first, "x", dim.second, "_o", mode, "_m", model, "_t", thresh,
                                "_", period, first, block),
                        [&](vh::Case &c) { one(c, dim.first, dim.second, wrong, mode, model, first, thresh, 1000); });
              }
  // 2. fewer than four points: no pose and no inliers, no failure
  for (int n = 0; n < 4; n++)
    for (int model = 0; model < 2; model++)
      run.run(vh::cat("few_", n, "_", model), [&](vh::Case &c) {
        if (n == 0 && model == 1)
          return; // OpenCV refuses an empty fisheye undistortion
        World w = World::standard(1, 1, 1, model, true);
        Obs o = w.observe(0, 0, 0);
        o.px.resize(n);
        std::vector<cv::Point3f> X;
        for (int k = 0; k < n; k++) {
          cv::Vec3d x = w.boards[0].pt(k);
          X.emplace_back((float)x[0], (float)x[1], (float)x[2]);
        }
        cv::Mat A = cv::Mat::eye(3, 3, CV_64F) * 700, D = cv::Mat::zeros(1, model ? 4 : 5, CV_64F);
        A.at<double>(2, 2) = 1;
        cv::Mat r(1, 3, CV_64F), t(1, 3, CV_64F);
        cv::Mat in = McCalib::ransacP3PDistortion(X, o.px, A, D, r, t, 3, 100, model);
        c.trace();
        c.step();
        if (in.rows >= 4)
          c.fail("few", vh::cat(in.rows, " inliers of ", n, " points"));
      });
  // 3. whole calibration: up to two gross outliers at every place of every
  // observation
  World w = World::standard(2, 2, 3, 2, true);
  std::vector<Obs> clean;
  for (int f = 0; f < 3; f++)
    for (int c = 0; c < 2; c++)
      for (int b = 0; b < 2; b++)
        if ((c + f + b) % 4 != 3)
          clean.push_back(w.observe(c, f, b));
  for (int q = 0; q < (int)clean.size(); q++)
    for (int i = 0; i < (int)clean[q].ids.size(); i++)
      for (int j = i; j < (int)clean[q].ids.size(); j++)
        for (int mode = 0; mode < 2; mode++) {
          if (!run.thorough() && (i * 5 + j * 3 + q + mode) % 4 && i != j)
            continue;
          run.run(vh::cat("bb_", q, "_", i, "_", j, "_", mode), [&](vh::Case &c) {
            std::vector<Obs> obs = clean;
            obs[q].px[i] = bad(mode, 0, obs[q].px[i]);
            if (j != i)
              obs[q].px[j] = bad(mode, 1, obs[q].px[j]);
            // and one in another observation
            int q2 = (q + 3) % clean.size();
            int k2 = (i * 7 + j) % clean[q2].ids.size();
            obs[q2].px[k2] = bad(mode, 2, obs[q2].px[k2]);
            Options o;
            o.iterations = 100;
            Result r = calibrate(w, obs, o, dir + "/bb");
            c.trace();
            c.step(obs.size());
            if (r.rc)
              return c.fail("bb-rc", vh::cat("status ", r.rc));
            if (resultPartition(r).key() != referenceModel(w, obs).key())
              return c.fail("bb-partition", resultPartition(r).key());
            auto e = compareWithTruth(w, obs, r);
            if (!e.empty())
              return c.fail("bb-pose", e);
            int nb = 0, want = 0;
            for (auto &G : r.groups)
              for (auto &F : G.frames)
                for (auto &k : F.cams) {
                  nb += k.nb;
                  for (float x : k.err)
                    if (!(x < 0.1f))
                      return c.fail("bb-error", vh::cat("residual ", x));
                }
            for (auto &x : obs)
              want += x.ids.size();
            want -= j == i ? 2 : 3;
            if (nb != want)
              return c.fail("bb-points", vh::cat(nb, " points reported, expected ", want));
          });
        }
  return run.finish();
}
