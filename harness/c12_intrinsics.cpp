// Intrinsics: untouched when fixed, recovered when free (from a wrong initial
// guess or from nothing); the reference camera carries the identity.
#include "world.hpp"
#include <filesystem>
using namespace world;
namespace {
enum Start { Given, Scratch };
void judge(vh::Case &c, const World &w, const std::vector<Obs> &obs, const Options &o,
           const Result &r, double tolF, double tolPose) {
  if (r.rc != 0)
    return c.fail("rc", vh::cat("exit status ", r.rc));
  std::map<int, int> ref;
  double worstF = 0, worstD = 0;
  for (int k = 0; k < (int)w.cams.size(); k++) {
    const CamOut &q = r.cams[k];
    if (std::none_of(obs.begin(), obs.end(), [&](const Obs &x) { return x.c == k; })) {
      if (q.present)
        c.fail("invented", vh::cat("camera ", k, " is written although it saw nothing"));
      continue;
    }
    if (!q.present)
      return c.fail("missing", vh::cat("camera ", k, " not written"));
    if (!ref.count(q.group)) {
      ref[q.group] = k;
      if (cv::norm(q.P, cv::Mat::eye(4, 4, CV_64F), cv::NORM_INF) > 1e-12)
        c.fail("reference", vh::cat("camera ", k, ": the reference camera is not at the identity"));
    }
    if (o.fix_intrinsic) {
      cv::Mat K, D;
      initialIntrinsics(w, o, k, K, D);
      if (cv::norm(K, q.K, cv::NORM_INF) != 0 ||
          cv::norm(D.reshape(1, 1), q.D.reshape(1, 1), cv::NORM_INF) != 0)
        c.fail("fixed", vh::cat("camera ", k, ": fixed intrinsics were modified"));
      continue;
    }
    const Cam &t = w.cams[k];
    const double want[4] = {t.fx, t.fy, t.u0, t.v0};
    const double got[4] = {q.K.at<double>(0, 0), q.K.at<double>(1, 1), q.K.at<double>(0, 2),
                           q.K.at<double>(1, 2)};
    for (int i = 0; i < 4; i++) {
      worstF = std::max(worstF, std::abs(want[i] - got[i]));
      if (!(std::abs(want[i] - got[i]) < tolF))
        c.fail("intrinsics", vh::cat("camera ", k, " parameter ", i, " is ", got[i], " instead of ",
                                     want[i]));
    }
    if (q.K.at<double>(0, 1) != 0 || q.K.at<double>(1, 0) != 0 || q.K.at<double>(2, 0) != 0 ||
        q.K.at<double>(2, 1) != 0 || q.K.at<double>(2, 2) != 1)
      c.fail("form", vh::cat("camera ", k, ": malformed camera matrix"));
    // distortion is judged by where it moves points of the image
    Cam g = t;
    g.fx = got[0], g.fy = got[1], g.u0 = got[2], g.v0 = got[3];
    for (size_t i = 0; i < g.d.size(); i++)
      g.d[i] = q.D.at<double>((int)i);
    for (double x = -0.45; x <= 0.46; x += 0.15)
      for (double y = -0.3; y <= 0.31; y += 0.15) {
        double e = cv::norm(projectModel(t, {x, y, 1}) - projectModel(g, {x, y, 1}));
        worstD = std::max(worstD, e);
        if (!(e < tolF))
          c.fail("projection", vh::cat("camera ", k, " projects ", e, " px away from the true pixel"));
      }
  }
  if (!o.fix_intrinsic) {
    std::string e = compareWithTruth(w, obs, r, tolPose);
    if (!e.empty())
      c.fail("pose", e);
  }
  c.sample(vh::cat("worst intrinsic error ", worstF, ", worst projection error ", worstD, " px"));
  c.state(c.id);
}
} // namespace
int main(int argc, char **argv) {
  vh::Run run(argc, argv);
  quiet();
  const std::string dir = std::filesystem::absolute(tempDir(run));
  auto world = [&](int n, int nb, int nf, int model) { return World::standard(n, nb, nf, model, true); };
  // 1. every set partition of up to 3 cameras x every assignment of an initial
  // error to each camera x fixed or free
  for (int n = 1; n <= 3; n++) {
    std::vector<int> part(n, 0);
    std::function<void(int, int)> rec = [&](int i, int mx) {
      if (i < n) {
        for (int v = 0; v <= mx; v++) {
          part[i] = v;
          rec(i + 1, std::max(mx, v + 1));
        }
        return;
      }
      std::vector<int> err(n, 0), rad(n, 4);
      do
        for (int model = 0; model < 3; model++)
          for (int fix = 0; fix < 2; fix++) {
            if (n == 3 && !run.thorough() && (err[0] + 2 * err[1] + 3 * err[2] + model + fix) % 4)
              continue;
            run.run(vh::cat("p", vh::digits(part), "_e", vh::digits(err), "_m", model, "_f", fix),
                    [&](vh::Case &c) {
                      World w = world(n, mx, 10 * mx, model);
                      std::vector<Obs> obs;
                      for (int k = 0; k < n; k++)
                        for (int f = 0; f < 10; f++)
                          obs.push_back(w.observe(k, 10 * part[k] + f, part[k]));
                      Options o;
                      o.fix_intrinsic = fix;
                      for (int k = 0; k < n; k++) {
                        // the first refinement starts from a wrong camera
                        o.focalPerturb.push_back(err[k] == 1 ? 0.02 : err[k] == 2 ? -0.015 : 0);
                        o.centerPerturb.push_back(err[k] == 3 ? 6 : err[k] == 2 ? -4 : 0);
                        o.distPerturb.push_back(err[k] == 3 ? 0.01 : 0);
                      }
                      o.ransac = 25;
                      Result r = calibrate(w, obs, o, dir);
                      c.trace();
                      c.step(obs.size());
                      judge(c, w, obs, o, r, 0.05, 2e-3);
                    });
          }
      while (vh::nextDigits(err, rad));
    };
    rec(0, 0);
  }
  // 2. from nothing: number of views x boards x models x cameras
  std::vector<int> views;
  for (int nf = 6; nf <= (run.thorough() ? 36 : 24); nf += run.thorough() ? 1 : 3)
    views.push_back(nf);
  for (int nf : {51, 70, 101})
    views.push_back(nf);
  for (int nb = 1; nb <= 3; nb++)
    for (int nf : views)
      for (int model = 0; model < 3; model++)
        for (int n = 1; n <= (nf > 50 ? 1 : 3) && (nf <= 50 || nb == 1); n++) {
          run.run(vh::cat("scratch_", nb, "_", nf, "_", model, "_", n), [&](vh::Case &c) {
            World w = world(n, nb, nf, model);
            std::vector<Obs> obs;
            for (int k = 0; k < n; k++)
              for (int f = 0; f < nf; f++)
                for (int b = 0; b < nb; b++)
                  obs.push_back(w.observe(k, f, b));
            Options o;
            o.fix_intrinsic = 0;
            o.camParams = false;
            Result r = calibrate(w, obs, o, dir);
            c.trace();
            c.step(obs.size());
            judge(c, w, obs, o, r, 0.05, 2e-3);
          });
        }
  // 3. from nothing, with cameras that never see a board
  for (int n = 2; n <= (run.thorough() ? 5 : 4); n++)
    for (int mask = 1; mask < (1 << n) - 1; mask++)
      for (int model = 0; model < 3; model++)
        run.run(vh::cat("blind_", n, "_", mask, "_", model), [&](vh::Case &c) {
          World w = world(n, 2, 9, model);
          std::vector<Obs> obs;
          for (int k = 0; k < n; k++)
            for (int f = 0; f < 9 && mask >> k & 1; f++)
              for (int b = 0; b < 2; b++)
                obs.push_back(w.observe(k, f, b));
          Options o;
          o.fix_intrinsic = 0;
          o.camParams = false;
          Result r = calibrate(w, obs, o, dir);
          c.trace();
          c.step(obs.size());
          judge(c, w, obs, o, r, 0.05, 2e-3);
        });
  // 4. from nothing, some views touch the border of the image
  for (int mask = 1; mask < 16; mask++)
    for (int model = 0; model < 2; model++)
      for (int nb = 1; nb <= (run.thorough() ? 3 : 2); nb++)
        run.run(vh::cat("border_", mask, "_", model, "_", nb), [&](vh::Case &c) {
          World w = world(1, nb, 12, model);
          std::vector<Obs> obs;
          for (int f = 0; f < 12; f++) {
            const int side = f % 3 == 1 ? f / 3 : -1; // left, right, top, bottom
            if (side >= 0 && mask >> side & 1) {
              // push the body until the outermost corner is near the border
              for (int k = 0; k < 4000; k++) {
                double lo = 1e9, hi = -1e9;
                for (int b = 0; b < nb; b++)
                  for (auto &p : w.observe(0, f, b).px) {
                    const double q = side < 2 ? p.x : p.y;
                    lo = std::min(lo, q), hi = std::max(hi, q);
                  }
                const double size = side < 2 ? w.cams[0].w : w.cams[0].h;
                if (side % 2 ? hi > 0.97 * size : lo < 0.03 * size)
                  break;
                Pose step = w.cams[0].T.inv() *
                            make(0, 0, 0, side == 0 ? -0.004 : side == 1 ? 0.004 : 0,
                                 side == 2 ? -0.004 : side == 3 ? 0.004 : 0, 0) *
                            w.cams[0].T;
                w.motion[f] = step * w.motion[f];
              }
            }
            for (int b = 0; b < nb; b++)
              obs.push_back(w.observe(0, f, b));
          }
          Options o;
          o.fix_intrinsic = 0;
          o.camParams = false;
          o.ransac = 25;
          Result r = calibrate(w, obs, o, dir);
          c.trace();
          c.step(obs.size());
          judge(c, w, obs, o, r, 0.05, 2e-3);
        });
  return run.finish();
}
