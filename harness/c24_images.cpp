// Saved images: for every visibility pattern, save option and set of
// unreadable files, exactly the right images are written, marked at exactly
// the observed and predicted corners.
#include "stubs_cv.hpp"
#include "world.hpp"
using namespace world;
namespace fs = std::filesystem;
namespace {
std::map<std::string, cv::Mat> g_written;
std::set<std::pair<int, int>> g_bad; // unreadable images
const World *g_w = nullptr;
std::vector<std::string> g_twice;
int g_unknown = 0;
std::string num(int v, int n) {
  std::string s = std::to_string(v);
  return std::string(std::max(0, n - (int)s.size()), '0') + s;
}
const cv::Vec3b BG(255, 255, 255);
cv::Vec3b at(const cv::Mat &m, double x, double y) {
  return m.at<cv::Vec3b>((int)y, (int)x);
}
// every painted pixel is near one of the points
void nothingElse(vh::Case &c, const std::string &name, const cv::Mat &m,
                 const std::vector<cv::Point2d> &p) {
  cv::Mat left = m.clone();
  for (auto &q : p)
    cv::circle(left, cv::Point((int)q.x, (int)q.y), 6, cv::Scalar(255, 255, 255), cv::FILLED);
  cv::Mat d;
  cv::Mat white(m.size(), m.type(), cv::Scalar(255, 255, 255));
  if (cv::norm(left, white, cv::NORM_INF) > 0)
    c.fail("stray", name + ": marks away from any corner");
}
void check(vh::Run &run, vh::Case &c, const World &w, std::vector<Obs> obs, int det, int rep,
           double noise) {
  g_w = &w;
  g_written.clear();
  g_twice.clear();
  g_unknown = 0;
  if (noise > 0)
    disturb(obs, 1, noise);
  Options o;
  o.iterations = 60;
  o.ransac = 60;
  o.saveDetection = det;
  o.saveReprojection = rep;
  std::string dir = tempDir(run);
  Result r = calibrate(w, obs, o, dir);
  c.trace();
  if (r.rc != 0)
    return c.fail("rc", vh::cat("exit status ", r.rc));
  if (g_unknown)
    c.fail("read", "an image that does not belong to the data was read");
  std::vector<std::vector<cv::Vec2d>> pred;
  std::string e = predict(w, obs, r, pred);
  if (!e.empty())
    return c.fail("result", e);
  for (auto &t : g_twice)
    c.fail("twice", t + " written twice");
  std::map<std::pair<int, int>, std::vector<size_t>> im;
  for (size_t k = 0; k < obs.size(); k++)
    im[{obs[k].c, obs[k].f}].push_back(k);
  std::set<std::string> want;
  auto of = resultPartition(r);
  for (int kind = 0; kind < 2; kind++) {
    if (!(kind ? rep : det))
      continue;
    for (auto &x : im) {
      if (g_bad.count(x.first))
        continue;
      std::string name = std::string(kind ? "Reprojection/" : "Detection/") +
                         num(x.first.first, 3) + "/" + num(x.first.second, 6) + ".jpg";
      std::string full = fs::weakly_canonical(dir + "/out/" + name).string();
      want.insert(full);
      auto it = g_written.find(full);
      if (it == g_written.end()) {
        c.fail("missing", name + " is not written");
        continue;
      }
      if (!fs::is_directory(fs::path(full).parent_path()))
        c.fail("folder", name + ": folder missing");
      const cv::Mat &m = it->second;
      if (m.size() != cv::Size(w.cams[x.first.first].w, w.cams[x.first.first].h)) {
        c.fail("size", name);
        continue;
      }
      std::vector<cv::Point2d> all;
      std::map<int, cv::Vec3b> colour; // per object
      for (size_t k : x.second)
        for (size_t i = 0; i < obs[k].ids.size(); i++) {
          cv::Point2d d(obs[k].px[i].x, obs[k].px[i].y), q(pred[k][i][0], pred[k][i][1]);
          all.push_back(d);
          if (kind)
            all.push_back(q);
          c.step();
          // other marks nearby make the colours undecidable here
          bool lonely = true;
          for (size_t k2 : x.second)
            for (size_t i2 = 0; i2 < obs[k2].ids.size(); i2++)
              if ((k2 != k || i2 != i) &&
                  (std::hypot(obs[k2].px[i2].x - d.x, obs[k2].px[i2].y - d.y) < 16 ||
                   (kind && std::hypot(pred[k2][i2][0] - d.x, pred[k2][i2][1] - d.y) < 16)))
                lonely = false;
          if (!lonely || d.x < 8 || d.y < 8 || d.x > m.cols - 8 || d.y > m.rows - 8)
            continue;
          const cv::Vec3b mid = at(m, d.x, d.y);
          if (kind == 0) {
            int obj = -1;
            for (size_t s = 0; s < of.objects.size(); s++)
              if (of.objects[s].count(obs[k].b))
                obj = (int)s;
            if (mid == BG)
              c.fail("detection", vh::cat(name, ": corner at ", d.x, ",", d.y, " not marked"));
            else if (colour.count(obj) && colour[obj] != mid)
              c.fail("colour", name + ": two colours for one object");
            else
              colour[obj] = mid;
          } else {
            if (mid != cv::Vec3b(0, 255, 0))
              c.fail("detection", vh::cat(name, ": corner at ", d.x, ",", d.y, " not marked"));
            double dx = q.x - d.x, dy = q.y - d.y, n = std::hypot(dx, dy);
            if (n > 3.2 && q.x > 8 && q.y > 8 && q.x < m.cols - 8 && q.y < m.rows - 8) {
              // the far side of the predicted mark stays visible
              double s = (n + 2.3) / n;
              if (s * n > 6.2 || true) {
                double px = d.x + dx * s, py = d.y + dy * s;
                if (std::hypot(px - d.x, py - d.y) > 5.4 &&
                    at(m, px, py) != cv::Vec3b(0, 0, 255))
                  c.fail("prediction", vh::cat(name, ": prediction ", q.x, ",", q.y,
                                               " of the corner at ", d.x, ",", d.y,
                                               " not marked"));
              }
            }
          }
        }
      nothingElse(c, name, m, all);
    }
  }
  for (auto &x : g_written)
    if (!want.count(x.first))
      c.fail("extra", x.first.substr(std::min(x.first.size(), dir.size())) + " should not be written");
  c.state(c.id);
}
std::vector<Obs> pattern(const World &w, long m, int C, int F, int B) {
  std::vector<Obs> obs;
  int k = 0;
  for (int f = 0; f < F; f++)
    for (int cam = 0; cam < C; cam++)
      for (int b = 0; b < B; b++)
        if (m >> k++ & 1)
          obs.push_back(w.observe(cam, f, b));
  return obs;
}
} // namespace
int main(int argc, char **argv) {
  vh::Run run(argc, argv);
  quiet();
  stubs::imread = [](const std::string &p) {
    int c = -1, f = -1, n = 0;
    if (p.empty())
      return cv::Mat();
    if (sscanf(p.c_str(), "img_%d_%d%n", &c, &f, &n) != 2 || n != (int)p.size() || c < 0 ||
        c >= (int)g_w->cams.size()) {
      g_unknown++;
      return cv::Mat();
    }
    if (g_bad.count({c, f}))
      return cv::Mat();
    return cv::Mat(g_w->cams[c].h, g_w->cams[c].w, CV_8UC3, cv::Scalar(255, 255, 255));
  };
  stubs::imwrite = [](const std::string &p, const cv::Mat &m) {
    std::string k = fs::weakly_canonical(p).string();
    if (g_written.count(k))
      g_twice.push_back(k);
    g_written[k] = m.clone();
    return true;
  };
  const bool T = run.thorough();
  // 1. every visibility pattern
  auto grid = [&](int C, int F, int B, int model, int stride, double noise) {
    World w = World::standard(C, B, F, model, true);
    for (auto &k : w.cams)
      k.w = 1280 + 8 * (&k - &w.cams[0]);
    for (long m = 1; m < 1L << (C * F * B); m += stride)
      run.run(vh::cat("pat_c", C, "f", F, "b", B, "_", model, "_", m, "_", noise),
              [&](vh::Case &c) {
                g_bad.clear();
                check(run, c, w, pattern(w, m, C, F, B), 1, 1, noise);
              });
  };
  grid(2, 2, 2, 0, 1, 0);
  grid(2, 3, 1, 2, 1, 6);
  grid(3, 2, 1, 0, 1, 0);
  grid(1, 3, 2, 1, 1, 6);
  grid(2, 3, 2, 0, T ? 1 : 3, 6);
  if (T)
    grid(3, 2, 2, 2, 1, 6);
  // 2. every pattern of unreadable images x save options
  for (int bad = 0; bad < 64; bad++)
    for (int opt = 0; opt < 4; opt++)
      run.run(vh::cat("bad_", bad, "_", opt), [&](vh::Case &c) {
        World w = World::standard(2, 2, 3, 0, true);
        g_bad.clear();
        for (int k = 0; k < 6; k++)
          if (bad >> k & 1)
            g_bad.insert({k / 3, k % 3});
        check(run, c, w, pattern(w, 0xfff, 2, 3, 2), opt & 1, opt >> 1, 6);
      });
  // 3. frame and camera numbers, sparse frames
  for (int n : {2, 5, 11, 13})
    for (int shift : {0, 9, 998, 123456})
      run.run(vh::cat("num_", n, "_", shift), [&](vh::Case &c) {
        World w = World::standard(n, 2, 3, 0, true);
        std::vector<Obs> obs = pattern(w, (1L << std::min(60, n * 6)) - 1, n, 2, 2);
        std::vector<Obs> o2;
        for (int f = 0; f < 3; f++)
          for (int k = 0; k < n; k++)
            for (int b = 0; b < 2; b++)
              if (k % 3 != f || k == 0) {
                Obs q = w.observe(k, f, b);
                q.f = f * (shift ? 7 : 1) + shift;
                o2.push_back(q);
              }
        g_bad.clear();
        check(run, c, w, o2, 1, 1, 6);
      });
  return run.finish();
}
