// The written camera file: complete, well formed, true, in the configured
// place, and good as the initial guess of a further calibration.
#include "world.hpp"
#include <filesystem>
using namespace world;
namespace fs = std::filesystem;
namespace {
bool same(const cv::Mat &a, const cv::Mat &b) {
  return a.size() == b.size() && a.type() == b.type() && cv::norm(a, b, cv::NORM_INF) == 0;
}
// blocks of cameras, each seeing its own board in its own frames
std::vector<Obs> blocks(const World &w, const std::vector<int> &part) {
  std::vector<Obs> o;
  for (size_t c = 0; c < part.size(); c++)
    if (part[c] >= 0)
      for (int f = 0; f < 3; f++)
        o.push_back(w.observe((int)c, 3 * part[c] + f, part[c]));
  return o;
}
void judge(vh::Case &c, const World &w, const std::vector<Obs> &obs, const Options &o,
           const Result &r, const std::vector<int> &part) {
  if (r.rc != 0)
    return c.fail("rc", vh::cat("exit status ", r.rc));
  const int n = (int)w.cams.size();
  if (r.nbCamera != n)
    c.fail("nb_camera", vh::cat(r.nbCamera, " instead of ", n));
  std::map<int, int> groupOf;
  for (int k = 0; k < n; k++) {
    const CamOut &q = r.cams[k];
    std::string who = "camera " + std::to_string(k) + ": ";
    if (part[k] < 0) {
      if (q.present)
        c.fail("phantom", who + "never observed but written");
      continue;
    }
    if (!q.present) {
      c.fail("missing", who + "not written");
      continue;
    }
    const int nd = w.cams[k].model == 0 ? 5 : 4;
    if (q.type != w.cams[k].model)
      c.fail("type", vh::cat(who, "distortion_type ", q.type));
    if (q.w != w.cams[k].w || q.h != w.cams[k].h)
      c.fail("size", vh::cat(who, "image size ", q.w, "x", q.h));
    if (q.K.rows != 3 || q.K.cols != 3 || q.K.type() != CV_64F || (int)q.D.total() != nd ||
        q.D.type() != CV_64F || q.P.rows != 4 || q.P.cols != 4 || q.P.type() != CV_64F) {
      c.fail("shape", who + "matrix of a wrong shape");
      continue;
    }
    if (o.fix_intrinsic) {
      cv::Mat K, D;
      initialIntrinsics(w, o, k, K, D);
      if (o.camParamsPath.empty() && (!same(K, q.K) || cv::norm(D.reshape(1, 1), q.D.reshape(1, 1)) != 0))
        c.fail("fixed", who + "fixed intrinsics are not the given ones");
    }
    const double *P = q.P.ptr<double>(3);
    if (P[0] != 0 || P[1] != 0 || P[2] != 0 || std::abs(P[3] - 1) > 1e-12)
      c.fail("pose_row", who + "last row of the pose");
    cv::Mat R = q.P(cv::Rect(0, 0, 3, 3));
    if (cv::norm(R * R.t() - cv::Mat::eye(3, 3, CV_64F)) > 1e-8 || cv::determinant(R) < 0)
      c.fail("pose_rigid", who + "pose is not rigid");
    if (groupOf.count(part[k]) && groupOf[part[k]] != q.group)
      c.fail("group", who + "not in the group of its block");
    groupOf[part[k]] = q.group;
  }
  std::set<int> ids, rep;
  for (auto &g : groupOf)
    if (!ids.insert(g.second).second)
      c.fail("group", "two unrelated blocks share a group");
  for (auto &g : r.groups)
    rep.insert(g.id);
  if (rep != ids || r.nbGroups != (int)ids.size())
    c.fail("report_groups", "groups of the report are not those of the camera file");
  std::string e = compareWithTruth(w, obs, r, 3e-3);
  if (!e.empty())
    c.fail("pose", e);
  c.state(resultPartition(r).key());
}
// names found in an output directory
std::set<std::string> listing(const std::string &d) {
  std::set<std::string> s;
  if (fs::exists(d))
    for (auto &e : fs::directory_iterator(d))
      s.insert(e.path().filename());
  return s;
}
} // namespace
int main(int argc, char **argv) {
  vh::Run run(argc, argv);
  quiet();
  const std::string dir = fs::absolute(tempDir(run));
  auto go = [&](vh::Case &c, int n, int modelMask, const std::vector<int> &part, int fix, bool reload) {
    int nb = 0;
    for (int p : part)
      nb = std::max(nb, p + 1);
    World w = World::standard(n, nb, 3 * nb, 0, true);
    World w1 = World::standard(n, nb, 3 * nb, 1, true);
    for (int k = 0; k < n; k++)
      if (modelMask >> k & 1)
        w.cams[k] = w1.cams[k];
    auto obs = blocks(w, part);
    Options o;
    o.fix_intrinsic = fix;
    Result r = calibrate(w, obs, o, dir);
    c.trace();
    c.step(n);
    judge(c, w, obs, o, r, part);
    c.sample(resultPartition(r).key());
    if (!reload || c.fails)
      return;
    // the file feeds the next calibration
    fs::copy_file(dir + "/out/calibrated_cameras_data.yml", dir + "/again.yml",
                  fs::copy_options::overwrite_existing);
    Options o2 = o;
    o2.camParamsPath = dir + "/again.yml";
    o2.fix_intrinsic = 1;
    Result r2 = calibrate(w, obs, o2, dir);
    c.trace();
    judge(c, w, obs, o2, r2, part);
    for (int k = 0; k < n; k++)
      if (r.cams[k].present && r2.cams[k].present &&
          (!same(r.cams[k].K, r2.cams[k].K) || !same(r.cams[k].D, r2.cams[k].D)))
        c.fail("reload", vh::cat("camera ", k, ": intrinsics change when the file is read back"));
  };
  // 1. all model assignments x all set partitions of the cameras
  for (int n = 1; n <= 4; n++) {
    std::vector<int> part(n, 0);
    std::function<void(int, int)> rec = [&](int i, int mx) {
      if (i == n) {
        for (int m = 0; m < (1 << n); m++)
          for (int fix = 0; fix < 2; fix++) {
            if (n == 4 && !run.thorough() && (m + fix + mx) % 4)
              continue;
            run.run(vh::cat("p", vh::digits(part), "_m", m, "_f", fix),
                    [&](vh::Case &c) { go(c, n, m, part, fix, n < 4 || run.thorough()); });
          }
        return;
      }
      for (int v = 0; v <= mx; v++) {
        part[i] = v;
        rec(i + 1, std::max(mx, v + 1));
      }
    };
    rec(0, 0);
  }
  // 2. every non-empty set of observed cameras
  for (int n = 2; n <= (run.thorough() ? 6 : 5); n++)
    for (int m = 1; m < (1 << n); m++)
      for (int mode = 0; mode < 3; mode++)
        run.run(vh::cat("obs", n, "_", m, "_", mode), [&](vh::Case &c) {
          std::vector<int> part;
          int k = 0;
          for (int i = 0; i < n; i++)
            part.push_back(m >> i & 1 ? (mode == 0 ? 0 : mode == 1 ? k++ : k++ / 2) : -1);
          go(c, n, mode == 2 ? 0x2d : 0, part, 1, false);
        });
  // 3. many cameras
  for (int n = 5; n <= (run.thorough() ? 24 : 14); n++)
    for (int q = 0; q < 3; q++)
      run.run(vh::cat("many", n, "_", q), [&](vh::Case &c) {
        std::vector<int> part;
        for (int i = 0; i < n; i++)
          part.push_back(q == 0 ? 0 : q == 1 ? i % 3 : (n - 1 - i) / 2);
        go(c, n, q == 0 ? 0 : 0x25a6, part, 1, true);
      });
  // 4. where the files go
  const std::vector<std::string> places = {"a",   "a/b/c", "a/",     "a/b/c/",  "with space",
                                           "d.x", "a/./b", "a/../b", "é", "pre/existing/"};
  const std::vector<std::string> names = {"", "cams.yml", "my cameras.yml", "rig.v2.yml", "rig.yaml",
                                          "calibrated_cameras_data.yml"};
  for (size_t p = 0; p < places.size(); p++)
    for (size_t q = 0; q < names.size(); q++)
      for (int rel = 0; rel < 2; rel++)
        for (int pre = 0; pre < 2; pre++)
          run.run(vh::cat("place", p, "_", q, "_", rel, "_", pre), [&](vh::Case &c) {
            const std::string base = dir + "/where";
            fs::remove_all(base);
            fs::create_directories(base);
            auto cwd = fs::current_path();
            fs::current_path(base);
            Options o;
            o.camFile = names[q];
            o.savePath = (rel ? std::string() : base + "/") + places[p];
            if (pre)
              fs::create_directories(base + "/" + places[p]);
            World w = World::standard(2, 1, 3);
            std::vector<int> part = {0, 0};
            auto obs = blocks(w, part);
            Result r = calibrate(w, obs, o, dir);
            fs::current_path(cwd);
            c.trace();
            std::set<std::string> want = {o.camFile.empty() ? "calibrated_cameras_data.yml" : o.camFile,
                                          "calibrated_objects_data.yml",
                                          "calibrated_objects_pose_data.yml",
                                          "reprojection_error_data.yml", "detected_keypoints_data.yml"};
            auto got = listing(base + "/" + places[p]);
            for (auto &x : want)
              if (!got.count(x))
                c.fail("place", x + " is not in the configured directory");
            if (rel) { // read back by absolute name
              o.savePath = base + "/" + places[p];
              int rc = r.rc;
              r = readOutputs(w, dir, o);
              r.rc = rc;
            }
            if (!c.fails)
              judge(c, w, obs, o, r, part);
            fs::remove_all(base);
          });
  return run.finish();
}
