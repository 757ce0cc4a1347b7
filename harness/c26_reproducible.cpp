// The result is a function of the observations and the configuration: what the
// memory held before and which random draws are made do not show in it.
#include "world.hpp"
using namespace world;
namespace {
struct Env {
  int fill;
  uint64_t draw;
  int order = 0; // where small blocks lie
};
struct Image {
  std::string structure; // groups, objects, frames, counts
  std::vector<std::vector<cv::Vec2d>> pred;
  std::vector<double> intr, ext;
};
std::string shape(const World &, const Result &r) {
  std::string s = vh::cat("rc", r.rc, " n", r.nbCamera, " g", r.nbGroups);
  for (size_t c = 0; c < r.cams.size(); c++)
    s += vh::cat(" c", c, ":", r.cams[c].present, ",", r.cams[c].group, ",", r.cams[c].type, ",",
                 r.cams[c].w, "x", r.cams[c].h);
  for (auto &o : r.objs) {
    s += vh::cat(" o", o.first, ":", o.second.pts.cols, ",", o.second.poses.cols, ",");
    for (int i = 0; i < o.second.pts.cols; i++)
      s += vh::cat(o.second.pts.at<float>(3, i), ".", o.second.pts.at<float>(4, i), ";");
  }
  for (auto &g : r.groups) {
    s += vh::cat(" G", g.id, "[");
    for (auto &f : g.frames) {
      s += vh::cat(f.frame, ":");
      for (auto &k : f.cams)
        s += vh::cat(k.cam, "x", k.nb, "/", k.err.size(), " ");
    }
    s += "]";
  }
  return s;
}
struct Judge {
  vh::Run &run;
  const World &w;
  const std::vector<Obs> &obs;
  Options o;
  std::vector<Obs> predicted; // observations whose corners are compared
  double worst = 0, worstK = 0, worstT = 0;
  std::string once(const Env &e, Image &im) {
    vh::heapFill(e.fill);
    vh::heapOrder(e.order);
    vh::seedRandomDevice(0xABCDEF * e.draw + 17);
    drawSalt = e.draw;
    Result r = calibrate(w, obs, o, tempDir(run));
    drawSalt = 0;
    vh::heapFill(0xFE);
    vh::heapOrder(0);
    if (r.rc)
      return vh::cat("exit status ", r.rc);
    im.structure = shape(w, r);
    std::string s = predict(w, predicted, r, im.pred);
    if (!s.empty())
      return s;
    for (auto &c : r.cams) {
      if (!c.present)
        continue;
      for (int i : {0, 4, 2, 5})
        im.intr.push_back(c.K.at<double>(i / 3, i % 3));
      for (int i = 0; i < 3; i++)
        im.ext.push_back(c.pose.t[i]);
      for (int i = 0; i < 9; i++)
        im.ext.push_back(c.pose.R(i / 3, i % 3));
    }
    return "";
  }
  void operator()(vh::Case &c, const std::vector<Env> &envs, double tol, double tolK, double tolT) {
    Image ref;
    for (size_t k = 0; k < envs.size(); k++) {
      Image im;
      const std::string who = vh::cat("memory ", envs[k].fill, " draws ", envs[k].draw,
                                     " addresses ", envs[k].order);
      std::string e = once(envs[k], im);
      c.trace();
      c.step(obs.size());
      if (!e.empty())
        return c.fail("run", who + ": " + e);
      if (!k) {
        ref = im;
        continue;
      }
      if (im.structure != ref.structure)
        return c.fail("structure", who + ": " + im.structure.substr(0, 300) + " instead of " +
                                       ref.structure.substr(0, 300));
      for (size_t i = 0; i < im.pred.size(); i++)
        for (size_t j = 0; j < im.pred[i].size(); j++) {
          double d = cv::norm(im.pred[i][j] - ref.pred[i][j]);
          worst = std::isfinite(d) ? std::max(worst, d) : 1e300;
        }
      auto cmp = [](const std::vector<double> &a, const std::vector<double> &b, double &w) {
        for (size_t i = 0; i < a.size(); i++) {
          double d = std::fabs(a[i] - b[i]);
          w = std::isfinite(d) ? std::max(w, d) : 1e300;
        }
      };
      cmp(im.intr, ref.intr, worstK);
      cmp(im.ext, ref.ext, worstT);
      if (worst > tol)
        return c.fail("predictions", vh::cat(who, ": corners move by ", worst, " px"));
      if (worstK > tolK)
        return c.fail("intrinsics", vh::cat(who, ": intrinsics move by ", worstK));
      if (worstT > tolT)
        return c.fail("extrinsics", vh::cat(who, ": camera poses move by ", worstT));
    }
    c.state(ref.structure);
    c.sample(vh::cat("corners ", worst, " px, intrinsics ", worstK, ", camera poses ", worstT));
  }
};
} // namespace
int main(int argc, char **argv) {
  vh::Run run(argc, argv);
  quiet();
  const bool T = run.thorough();
  std::vector<Env> envs;
  if (T) {
    for (int f : {0x00, 0xFE, 0xFF, 0x01, 0x7F, 0x40, 0xBF})
      for (uint64_t d = 0; d < 3; d++)
        envs.push_back({f, d, (int)d});
  } else
    envs = {{0x00, 0}, {0xFF, 0}, {0x01, 0}, {0x7F, 0}, {0xFE, 1, 1}, {0x00, 2, 2}, {0xFE, 0, 1}};
  // every visibility pattern; what is seen is seen whole, or by few corners
  auto grid = [&](int C, int F, int B, int model, double noise, int few, int stride) {
    World w = World::standard(C, B, F, model, true);
    const int n = C * F * B;
    for (long m = 1; m < 1L << n; m += stride)
      run.run(vh::cat("grid", C, F, B, "m", model, "_", m, "_n", noise, "_w", few), [&](vh::Case &c) {
        std::vector<Obs> obs, good;
        int j = 0;
        for (int f = 0; f < F; f++)
          for (int cam = 0; cam < C; cam++)
            for (int b = 0; b < B; b++, j++) {
              if (m >> j & 1)
                good.push_back(w.observe(cam, f, b));
              else if (few) { // too little to be used
                Obs o = w.observe(cam, f, b);
                o.ids.resize(few);
                o.px.resize(few);
                obs.push_back(o);
                continue;
              } else
                continue;
              if (noise > 0) {
                std::vector<Obs> one = {good.back()};
                disturb(one, (int)m, noise);
                good.back() = one[0];
              }
              obs.push_back(good.back());
            }
        Options o;
        o.iterations = 300;
        Judge J{run, w, obs, o, good};
        J(c, envs, 0.01, 0, 1e-4);
      });
  };
  for (int model = 0; model < 3; model++) {
    grid(2, 2, 2, model, 0, 0, T ? 1 : 2);
    grid(3, 2, 1, model, 0.05, 0, 1);
    grid(1, 2, 3, model, 0.05, 0, 1);
    grid(2, 2, 1, model, 0, 3, 1);
    grid(1, 2, 2, model, 0, 2, 1);
    if (T) {
      grid(3, 3, 1, model, 0.05, 0, 1);
      grid(2, 2, 2, model, 0.05, 0, 1);
      grid(2, 2, 2, model, 0, 3, 1);
      grid(2, 3, 1, model, 0.05, 3, 1);
    }
  }
  // well observed rigs: intrinsics free, from wrong values or from nothing;
  // groups sharing no view
  for (int C = 1; C <= 3; C++)
    for (int B = 1; B <= 2; B++)
      for (int model = 0; model < 3; model++)
        for (int kind = 0; kind < 4; kind++)
          for (int p = 0; p < (T ? 4 : 1); p++)
            run.run(vh::cat("rig", C, B, model, "_", kind, "_", p), [&](vh::Case &c) {
              const int F = kind == 3 ? 14 : 8;
              World w = World::standard(C, kind == 3 ? C : B, F, model, kind != 1);
              std::vector<Obs> obs;
              for (int f = 0; f < F; f++)
                for (int k = 0; k < C; k++)
                  for (int b = 0; b < (int)w.boards.size(); b++)
                    if (kind != 3 || k == b)
                      obs.push_back(w.observe(k, f, b));
              if (p || kind == 2)
                disturb(obs, p, 0.1);
              Options o;
              o.iterations = 300;
              o.fix_intrinsic = kind == 3;
              o.he_approach = B - 1;
              if (kind == 1)
                o.camParams = model == 1 || model == 2; // fisheye needs a start
              if (kind != 1)
                o.intrinsicPerturb = kind == 0 ? 0.02 : 0;
              if (kind < 3)
                o.ransac = 20; // views are judged with intrinsics that are still wrong
              Judge J{run, w, obs, o, obs};
              J(c, envs, 0.02, 0.1, 1e-4);
            });
  return run.finish();
}
