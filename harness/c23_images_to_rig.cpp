// From images to the calibrated rig: the boards the generator prints are
// rendered into every camera's images with its own lens, and the complete
// application, with real image files and real detection, has to recover the rig.
#include "world.hpp"
#include <opencv2/opencv.hpp>
namespace fs = std::filesystem;
using namespace world;
int boards_main(int argc, char **argv);
namespace {
const int SQ = 90; // printed pixels per square
struct Scene {
  World w;
  int refine = 1;
  bool unknownIntrinsics = false;
  int fix = 1, iterations = 100;
  Options lens; // how wrong the given lenses are
  std::string ext = "png";
  std::set<std::pair<int, int>> unreadable; // camera, frame
};
World rig(int C, int B, int F, int model) {
  World w;
  static const double CT[4][6] = {{0.06, -0.16, 0.1, 0.02, -0.01, 1.62},
                                  {-0.10, 0.20, 0.5, -0.03, 0.02, 1.70},
                                  {0.18, -0.05, -0.4, 0.02, 0.03, 1.58},
                                  {-0.05, -0.18, 1.6, 0.0, 0.02, 1.66}};
  for (int c = 0; c < C; c++) {
    Cam k;
    const double *q = CT[c % 4];
    k.T = make(q[0], q[1], q[2], q[3], q[4], q[5]);
    k.model = model == 2 ? c % 2 : model;
    k.w = 880 + 16 * c;
    k.h = 820 + 8 * c;
    k.fx = 850 + 15 * c;
    k.fy = 840 + 12 * c;
    k.u0 = 443 + 6 * c;
    k.v0 = 408 - 5 * c;
    k.d = k.model ? std::vector<double>{0.03, -0.01, 0, 0}
                  : std::vector<double>{-0.08 + 0.02 * c, 0.03, 0.001, -0.0008, 0};
    w.cams.push_back(k);
  }
  // centre of the board in the body frame
  static const double BT[3][6] = {{0.10, 0.14, 0.05, -0.245, -0.17, 0.02},
                                  {-0.14, -0.10, 1.45, 0.245, -0.16, 0.05},
                                  {0.12, -0.14, -0.3, 0.01, 0.25, 0.0}};
  static const int NX[3] = {5, 4, 5}, NY[3] = {4, 5, 4};
  for (int b = 0; b < B; b++) {
    Brd k;
    const double *q = BT[b % 3];
    k.nx = NX[b % 3];
    k.ny = NY[b % 3];
    k.sq = 0.088 - 0.002 * (b % 3);
    k.B = make(q[0], q[1], q[2], q[3], q[4], q[5]) *
          make(0, 0, 0, -k.sq * (k.nx - 2) / 2, -k.sq * (k.ny - 2) / 2, 0);
    w.boards.push_back(k);
  }
  static const double MT[12][6] = {
      {0.0, 0.0, 0.0, 0, 0, 0},           {0.24, 0.1, 0.12, .02, 0, .05}, {-0.22, 0.16, -0.2, 0, .03, -.05},
      {0.1, -0.24, 0.3, -.03, 0, .1},     {0.2, 0.2, -0.3, 0, -.03, 0},   {-0.2, -0.2, 0.1, 0, 0, .08},
      {0.05, 0.25, 0.4, .02, .02, -.06},  {-0.18, 0.1, -0.4, 0, .02, .1}, {0.22, -0.16, 0.3, 0, 0, -.03},
      {-0.17, 0.22, 0.25, .01, -.02, .1}, {0.25, 0.1, -0.1, 0, .03, .04}, {-0.1, -0.24, -0.35, .01, 0, -.08}};
  for (int f = 0; f < F; f++) {
    const double *q = MT[f % 12];
    w.motion.push_back(make(q[0], q[1], q[2] + 0.5 * (f / 12), q[3], q[4], q[5]));
  }
  return w;
}
// viewing ray of every pixel (inverse of the lens model by Newton iteration)
std::vector<cv::Vec2d> rays(const Cam &k) {
  std::vector<cv::Vec2d> out(k.w * k.h);
  for (int y = 0; y < k.h; y++) {
    cv::Vec2d g((0 - k.u0) / k.fx, (y - k.v0) / k.fy);
    for (int x = 0; x < k.w; x++) {
      for (int i = 0; i < 6; i++) { // neighbouring pixel is a close start
        cv::Vec2d p = projectModel(k, {g[0], g[1], 1});
        cv::Vec2d e((p[0] - x) / k.fx, (p[1] - y) / k.fy);
        g -= e;
        if (std::abs(e[0]) + std::abs(e[1]) < 1e-7)
          break;
      }
      out[y * k.w + x] = g;
    }
  }
  return out;
}
const std::vector<cv::Vec2d> &raysOf(const Cam &k) {
  static std::map<std::string, std::vector<cv::Vec2d>> cache;
  std::string key = vh::cat(k.w, " ", k.h, " ", k.fx, " ", k.model, " ", k.d[0]);
  auto it = cache.find(key);
  if (it == cache.end())
    it = cache.emplace(key, rays(k)).first;
  return it->second;
}
// corner k of a board lies at this printed pixel
cv::Mat render(const World &w, const std::vector<cv::Mat> &print, int c, int f,
               const std::vector<int> &shown) {
  const Cam &k = w.cams[c];
  auto &ray = raysOf(k);
  cv::Mat im(k.h, k.w, CV_8U, cv::Scalar(150));
  for (int b : shown) {
    const Brd &B = w.boards[b];
    Pose P = w.camFromBoard(c, f, b);
    // plane of the board: n.(X - o) = 0, in-plane axes u, v
    cv::Vec3d n(P.R(0, 2), P.R(1, 2), P.R(2, 2)), u(P.R(0, 0), P.R(1, 0), P.R(2, 0)),
        v(P.R(0, 1), P.R(1, 1), P.R(2, 1));
    // bounding box of the print
    double lo[2] = {1e9, 1e9}, hi[2] = {-1e9, -1e9};
    for (int i = 0; i < 4; i++) {
      cv::Vec2d p = projectModel(k, P({(i % 2 ? B.nx : -1.3) * B.sq, (i / 2 ? B.ny : -1.3) * B.sq, 0}));
      for (int j = 0; j < 2; j++) {
        lo[j] = std::min(lo[j], p[j]);
        hi[j] = std::max(hi[j], p[j]);
      }
    }
    const double s = SQ / B.sq, d = n.dot(P.t);
    for (int y = std::max(0, (int)lo[1] - 8); y < std::min(k.h, (int)hi[1] + 8); y++)
      for (int x = std::max(0, (int)lo[0] - 8); x < std::min(k.w, (int)hi[0] + 8); x++) {
        cv::Vec2d g = ray[y * k.w + x];
        cv::Vec3d r(g[0], g[1], 1), X = r * (d / n.dot(r)) - P.t;
        double px = 10 + SQ - 0.5 + s * u.dot(X), py = 10 + SQ - 0.5 + s * v.dot(X);
        const cv::Mat &m = print[b];
        if (px < 0 || py < 0 || px >= m.cols - 1 || py >= m.rows - 1)
          continue;
        int x0 = (int)px, y0 = (int)py;
        double a = px - x0, e = py - y0;
        const uchar *q0 = m.ptr(y0), *q1 = m.ptr(y0 + 1);
        im.at<uchar>(y, x) = cv::saturate_cast<uchar>((q0[x0] * (1 - a) + q0[x0 + 1] * a) * (1 - e) +
                                                      (q1[x0] * (1 - a) + q1[x0 + 1] * a) * e);
      }
  }
  return im;
}
template <class F> std::string list(size_t n, F f) {
  std::string s = "[";
  for (size_t i = 0; i < n; i++)
    s += (i ? ", " : " ") + vh::cat(f(i));
  return s + " ]";
}
} // namespace
int main(int argc, char **argv) {
  vh::Run run(argc, argv);
  quiet();
  run.retries = 1;
  cv::setNumThreads(1);
  const bool T = run.thorough();
  const std::string dir = fs::absolute(tempDir(run)).string() + "/c";
  double worstPose = 0, worstK = 0;
  auto go = [&](vh::Case &c, const Scene &s, const std::vector<Obs> &shown) {
    const World &w = s.w;
    fs::remove_all(dir);
    fs::create_directories(dir);
    std::ofstream(dir + "/config.yml")
        << "%YAML:1.0\n---\nnumber_x_square: 5\nnumber_y_square: 4\nresolution_x: 500\n"
           "resolution_y: 500\nlength_square: 0.04\nlength_marker: 0.024\nnumber_board: "
        << w.boards.size() << "\nboards_index: []\nsquare_size: 0.1\nnumber_x_square_per_board: "
        << list(w.boards.size(), [&](int b) { return w.boards[b].nx; })
        << "\nnumber_y_square_per_board: "
        << list(w.boards.size(), [&](int b) { return w.boards[b].ny; })
        << "\nresolution_x_per_board: "
        << list(w.boards.size(), [&](int b) { return 20 + SQ * w.boards[b].nx; })
        << "\nresolution_y_per_board: "
        << list(w.boards.size(), [&](int b) { return 20 + SQ * w.boards[b].ny; })
        << "\nsquare_size_per_board: "
        << list(w.boards.size(), [&](int b) { return w.boards[b].sq; })
        << "\ndistortion_model: 0\ndistortion_per_camera: "
        << list(w.cams.size(), [&](int k) { return w.cams[k].model; })
        << "\nnumber_camera: " << w.cams.size() << "\nrefine_corner: " << s.refine
        << "\nmin_perc_pts: 0.5\ncam_params_path: \""
        << (s.unknownIntrinsics ? std::string("None") : dir + "/cams.yml")
        << "\"\nfix_intrinsic: " << s.fix << "\nroot_path: \"" << dir
        << "/images\"\ncam_prefix: \"Cam_\"\nkeypoints_path: \"None\"\nquaternion_averaging: 1\n"
           "ransac_threshold: 5\nnumber_iterations: "
        << s.iterations << "\nhe_approach: 0\nsave_path: \"" << dir
        << "/out\"\nsave_detection: 0\nsave_reprojection: 0\ncamera_params_file_name: \"\"\n";
    if (!s.unknownIntrinsics) {
      cv::FileStorage st(dir + "/cams.yml", cv::FileStorage::WRITE);
      st << "nb_camera" << (int)w.cams.size();
      for (int k = 0; k < (int)w.cams.size(); k++) {
        cv::Mat K, D;
        initialIntrinsics(w, s.lens, k, K, D);
        st << "camera_" + std::to_string(k) << "{" << "camera_matrix" << K << "distortion_vector" << D
           << "}";
      }
    }
    auto old = fs::current_path();
    fs::current_path(dir);
    std::string cfg = dir + "/config.yml";
    char *a[] = {(char *)"app", cfg.data(), nullptr};
    int rc = boards_main(2, a);
    fs::current_path(old);
    if (rc != 0)
      return c.fail("generator", vh::cat("status ", rc));
    std::vector<cv::Mat> print;
    for (size_t b = 0; b < w.boards.size(); b++) {
      cv::Mat m = cv::imread(dir + "/charuco_boards/charuco_board_" + vh::cat("00", b) + ".bmp",
                             cv::IMREAD_GRAYSCALE);
      if (m.cols != 20 + SQ * w.boards[b].nx || m.rows != 20 + SQ * w.boards[b].ny)
        return c.fail("print", vh::cat("board ", b, " printed as ", m.cols, "x", m.rows));
      cv::GaussianBlur(m, m, cv::Size(0, 0), 0.9);
      print.push_back(m);
    }
    std::map<std::pair<int, int>, std::vector<int>> in;
    for (auto &o : shown)
      in[{o.c, o.f}].push_back(o.b);
    std::vector<Obs> obs;
    for (int k = 0; k < (int)w.cams.size(); k++) {
      std::string d = dir + "/images/Cam_" + vh::cat("00", k + 1);
      fs::create_directories(d);
      for (int f = 0; f < (int)w.motion.size(); f++) {
        std::string p = d + "/" + vh::cat("im", f / 10, f % 10, ".", s.ext);
        if (s.unreadable.count({k, f})) {
          std::ofstream(p) << "broken";
          continue;
        }
        auto it = in.find({k, f});
        cv::imwrite(p, render(w, print, k, f, it == in.end() ? std::vector<int>() : it->second));
        for (auto &o : shown)
          if (o.c == k && o.f == f)
            obs.push_back(o);
        c.step();
      }
    }
    cv::theRNG().state = 0x12345678 + run.salt;
    rc = calibrate_main(2, a);
    c.trace();
    if (rc != 0)
      return c.fail("rc", vh::cat("exit status ", rc));
    Result r = readOutputs(w, dir, Options());
    ModelOut m = referenceModel(w, obs), g = resultPartition(r);
    c.state(m.key() + c.id);
    if (r.nbCamera != (int)w.cams.size())
      return c.fail("nb_camera", vh::cat("declares ", r.nbCamera));
    if (g.key() != m.key())
      return c.fail("partition", g.key() + " expected " + m.key());
    double tol = 0.04;
    for (double q = tol / 64; q <= tol; q *= 2)
      if (compareWithTruth(w, obs, r, q) == "") {
        worstPose = std::max(worstPose, q / tol);
        break;
      }
    std::string e = compareWithTruth(w, obs, r, tol);
    if (!e.empty())
      c.fail("pose", e);
    e = comparePoses(w, obs, r, 2 * tol);
    if (!e.empty())
      c.fail("object_pose", e);
    for (size_t k = 0; k < w.cams.size(); k++)
      if (r.cams[k].present) {
        if (r.cams[k].w != w.cams[k].w || r.cams[k].h != w.cams[k].h)
          c.fail("size", vh::cat("camera ", k, ": ", r.cams[k].w, "x", r.cams[k].h));
        double df = std::max(std::abs(r.cams[k].K.at<double>(0, 0) / w.cams[k].fx - 1),
                             std::abs(r.cams[k].K.at<double>(1, 1) / w.cams[k].fy - 1));
        worstK = std::max(worstK, df);
        if (!(df < (s.fix && !s.unknownIntrinsics ? 1e-9 : 0.03)))
          c.fail("focal", vh::cat("camera ", k, ": relative error of the focal length ", df));
      }
  };
  // 1. every visibility pattern with known lenses
  auto grid = [&](int C, int F, int B, int model, int stride, int first) {
    const int n = C * F * B;
    for (long m = first; m < 1L << n; m += stride)
      run.run(vh::cat("vis_c", C, "f", F, "b", B, "m", model, "_", m), [&](vh::Case &c) {
        Scene s;
        s.w = rig(C, B, F, model);
        s.refine = m % 2;
        s.ext = m % 3 == 0 ? "bmp" : "png";
        std::vector<Obs> obs;
        int k = 0;
        for (int f = 0; f < F; f++)
          for (int cam = 0; cam < C; cam++)
            for (int b = 0; b < B; b++)
              if (m >> k++ & 1)
                obs.push_back(s.w.observe(cam, f, b));
        go(c, s, obs);
      });
  };
  grid(2, 2, 2, 2, T ? 1 : 3, 1);
  grid(3, 2, 1, 0, 1, 1);
  grid(1, 2, 3, 1, T ? 1 : 2, 1);
  if (T)
    grid(3, 3, 1, 2, 1, 1);
  // 2. unknown lenses: everything from images alone
  for (int C = 1; C <= 3; C++)
    for (int B = 1; B <= 3; B++)
      for (int model = 0; model < 3; model++)
        for (int refine = 0; refine < 2; refine++)
          for (int F : {8, 12}) {
            if (!T && (C + B + model + refine + F / 4) % 3)
              continue;
            run.run(vh::cat("blind_c", C, "b", B, "m", model, "_", refine, "_", F), [&](vh::Case &c) {
              Scene s;
              s.w = rig(C, B, F, model);
              s.refine = refine;
              // the fisheye estimation from nothing belongs to OpenCV, which
              // gives up on narrow lenses: start them from approximate values
              s.unknownIntrinsics = model == 0;
              s.lens.intrinsicPerturb = 0.04;
              s.lens.centerPerturb = {5, -4, 3};
              s.fix = 0;
              std::vector<Obs> obs;
              for (int k = 0; k < C; k++)
                for (int f = 0; f < F; f++)
                  for (int b = 0; b < B; b++)
                    obs.push_back(s.w.observe(k, f, b));
              go(c, s, obs);
            });
          }
  // 3. every pattern of unreadable images
  for (int bad = 1; bad < 64; bad += T ? 1 : 2)
    run.run(vh::cat("unreadable_", bad), [&](vh::Case &c) {
      Scene s;
      s.w = rig(2, 2, 3, 2);
      s.refine = 1;
      std::vector<Obs> obs;
      for (int k = 0; k < 2; k++)
        for (int f = 0; f < 3; f++) {
          if (bad >> (k * 3 + f) & 1)
            s.unreadable.insert({k, f});
          for (int b = 0; b < 2; b++)
            obs.push_back(s.w.observe(k, f, b));
        }
      go(c, s, obs);
    });
  run.extra["largest_pose_error_share_of_tolerance"] = vh::cat(worstPose);
  run.extra["largest_focal_error"] = vh::cat(worstK);
  return run.finish();
}
