// Image folders -> registered detections: every subset of corners, folder
// contents, unreadable images, board/camera combinations.
#include "registry.hpp"
#include "stubs_cv.hpp"
#include "world.hpp"
namespace fs = std::filesystem;
using registry::Item;
namespace {
struct Cfg {
  int cams = 1;
  std::vector<std::array<int, 2>> boards; // nx, ny
  std::vector<double> sqs;                // square size per board, empty: sq for all
  double size(int b) const { return sqs.empty() ? sq : sqs[b]; }
  double sq = 0.1;
  double perc = 0.5;
  std::string prefix = "Cam_";
  int refine = 0;
};
void writeConfig(const std::string &dir, const Cfg &c) {
  std::ofstream o(dir + "/config.yml");
  std::string nx, ny, sq;
  int at = 0;
  for (auto &b : c.boards) {
    nx += (nx.empty() ? "" : ",") + std::to_string(b[0]);
    ny += (ny.empty() ? "" : ",") + std::to_string(b[1]);
    sq += (sq.empty() ? "" : ",") + vh::cat(c.size(at++));
  }
  o << "%YAML:1.0\n---\nnumber_x_square: 5\nnumber_y_square: 4\n"
       "resolution_x: 500\nresolution_y: 500\nlength_square: 0.04\n"
       "length_marker: 0.03\nnumber_board: "
    << c.boards.size() << "\nboards_index: []\nsquare_size: 0.1\n"
    << "number_x_square_per_board: [" << nx << "]\nnumber_y_square_per_board: ["
    << ny << "]\nsquare_size_per_board: [" << sq
    << "]\ndistortion_model: 0\ndistortion_per_camera: []\nnumber_camera: " << c.cams
    << "\nrefine_corner: " << c.refine << "\nmin_perc_pts: " << c.perc
    << "\ncam_params_path: \"None\"\nfix_intrinsic: 0\nroot_path: \"" << dir
    << "/images\"\ncam_prefix: \"" << c.prefix
    << "\"\nkeypoints_path: \"None\"\nquaternion_averaging: 1\nransac_threshold: 3\n"
       "number_iterations: 60\nhe_approach: 0\nsave_path: \""
    << dir << "/out\"\nsave_detection: 0\nsave_reprojection: 0\n"
    << "camera_params_file_name: \"\"\n";
}
// mean distance to the total-least-squares line, or a negative value when the
// line is not unique
double lineResidual(const std::vector<cv::Point2d> &p) {
  double mx = 0, my = 0, a = 0, b = 0, c = 0;
  for (auto &q : p)
    mx += q.x / p.size(), my += q.y / p.size();
  for (auto &q : p) {
    a += (q.x - mx) * (q.x - mx);
    b += (q.x - mx) * (q.y - my);
    c += (q.y - my) * (q.y - my);
  }
  if (std::hypot(a - c, 2 * b) < 1e-3 * (a + c))
    return -1;
  double th = 0.5 * std::atan2(2 * b, a - c), r = 0;
  for (auto &q : p)
    r += std::fabs(-std::sin(th) * (q.x - mx) + std::cos(th) * (q.y - my));
  return r / p.size();
}
// what the stand-in detector finds: key camera, file name, board
std::map<std::tuple<int, std::string, int>, stubs::Corners> g_found;
std::map<std::pair<int, std::string>, cv::Size> g_size; // absent: unreadable
std::vector<std::pair<int, std::string>> g_index;
std::string g_root, g_prefix;
std::pair<int, std::string> whereIs(const std::string &p) {
  std::string rel = p.substr(std::min(p.size(), g_root.size() + 1));
  size_t s = rel.find('/');
  if (s == std::string::npos)
    return {-1, rel};
  return {atoi(rel.substr(g_prefix.size(), 3).c_str()) - 1, rel.substr(s + 1)};
}
} // namespace
int main(int argc, char **argv) {
  vh::Run run(argc, argv);
  world::quiet();
  run.retries = 0;
  const std::string dir = fs::absolute(world::tempDir(run)).string();
  McCalib::Calibration *cal = nullptr;
  stubs::imread = [&](const std::string &p) {
    auto k = whereIs(p);
    auto it = g_size.find(k);
    if (it == g_size.end())
      return cv::Mat();
    cv::Mat m(it->second, CV_8UC3, cv::Scalar(0, 0, 0));
    int idx = std::find(g_index.begin(), g_index.end(), k) - g_index.begin();
    m.at<cv::Vec3b>(0, 0) = cv::Vec3b(idx % 256, idx / 256, 9);
    return m;
  };
  auto keyOf = [&](const cv::Mat &m) {
    cv::Vec3b p = m.at<cv::Vec3b>(0, 0);
    return g_index.at(p[0] + 256 * p[1]);
  };
  stubs::markers = [&](const cv::Mat &m, const cv::aruco::Dictionary *,
                       const cv::aruco::DetectorParameters *) {
    auto k = keyOf(m);
    std::vector<int> v;
    for (auto &x : cal->boards_3d_) {
      auto it = g_found.find({k.first, k.second, x.first});
      if (it != g_found.end())
        v.push_back(x.first);
    }
    return v;
  };
  stubs::corners = [&](const cv::Mat &m, const cv::aruco::CharucoBoard *b,
                       const std::vector<int> &) {
    auto k = keyOf(m);
    for (auto &x : cal->boards_3d_)
      if (x.second->charuco_board_.get() == b) {
        auto it = g_found.find({k.first, k.second, x.first});
        if (it != g_found.end())
          return it->second;
      }
    return stubs::Corners();
  };
  auto reset = [&](const Cfg &cfg) {
    fs::remove_all(dir + "/images");
    fs::create_directories(dir + "/images");
    g_found.clear();
    g_size.clear();
    g_index.clear();
    g_root = dir + "/images";
    g_prefix = cfg.prefix;
    writeConfig(dir, cfg);
  };
  auto folder = [&](const Cfg &cfg, int c) {
    char b[8];
    snprintf(b, sizeof b, "%03d", c + 1);
    return g_root + "/" + cfg.prefix + b;
  };
  auto put = [&](const Cfg &cfg, int c, const std::string &name, bool readable = true,
                 cv::Size sz = {8, 6}) {
    std::string p = folder(cfg, c) + "/" + name;
    fs::create_directories(fs::path(p).parent_path());
    std::ofstream(p) << "x";
    if (readable)
      g_size[{c, name}] = sz;
    g_index.push_back({c, name});
  };
  auto accept = [&](const Cfg &cfg, int b, const stubs::Corners &k, bool &unsure) {
    const int nx = cfg.boards[b][0] - 1, ny = cfg.boards[b][1] - 1;
    const int n = k.ids.size();
    if (n <= 4 || n <= (int)std::floor(cfg.perc * (nx * ny) + 0.5))
      return false;
    std::vector<cv::Point2d> p;
    for (int id : k.ids)
      p.emplace_back((id % nx) * cfg.size(b), (id / nx) * cfg.size(b));
    double r = lineResidual(p);
    if (r < 0)
      return true; // isotropic set: far from any line
    unsure = std::fabs(r - 0.1 * cfg.size(b)) < 0.004 * cfg.size(b);
    return r > 0.1 * cfg.size(b);
  };
  auto judge = [&](vh::Case &c, const Cfg &cfg) {
    static const std::set<std::string> EXT = {"jpg", "png", "bmp", "jpeg", "jp2", "tiff"};
    std::vector<Item> want;
    std::vector<cv::Size> size(cfg.cams);
    for (int cam = 0; cam < cfg.cams; cam++) {
      std::vector<std::string> files;
      if (fs::exists(folder(cfg, cam)))
        for (auto &e : fs::recursive_directory_iterator(folder(cfg, cam)))
          if (e.is_regular_file()) {
            std::string p = e.path().string();
            size_t d = p.rfind('.');
            if (d != std::string::npos && EXT.count(p.substr(d + 1)))
              files.push_back(p);
          }
      std::sort(files.begin(), files.end());
      for (size_t f = 0; f < files.size(); f++) {
        auto k = whereIs(files[f]);
        auto sz = g_size.find(k);
        if (sz == g_size.end())
          continue;
        if (size[cam].width == 0)
          size[cam] = sz->second;
        for (int b = 0; b < (int)cfg.boards.size(); b++) {
          auto it = g_found.find({cam, k.second, b});
          bool unsure = false;
          if (it == g_found.end() || !accept(cfg, b, it->second, unsure))
            continue;
          want.push_back({cam, (int)f, b, it->second.ids, it->second.px, files[f]});
        }
      }
    }
    McCalib::Calibration k(dir + "/config.yml");
    cal = &k;
    k.boardExtraction();
    cal = nullptr;
    c.trace();
    c.step(g_index.size());
    c.state(registry::key(want));
    auto e = registry::verify(k, want);
    if (!e.empty())
      return c.fail("extraction", e);
    for (int cam = 0; cam < cfg.cams; cam++)
      if (size[cam].width && (k.cams_[cam]->im_cols_ != size[cam].width ||
                              k.cams_[cam]->im_rows_ != size[cam].height))
        return c.fail("size", vh::cat("image size of camera ", cam, " is ",
                                      k.cams_[cam]->im_cols_, "x", k.cams_[cam]->im_rows_));
    c.sample(vh::cat(want.size(), " accepted detections"));
  };
  auto subset = [&](const Cfg &cfg, int b, int mask, int salt) {
    stubs::Corners k;
    const int n = (cfg.boards[b][0] - 1) * (cfg.boards[b][1] - 1);
    for (int i = 0; i < n; i++)
      if (mask >> i & 1) {
        k.ids.push_back(i);
        k.px.emplace_back(i * 3.25f + salt, 100 - i * 1.5f + b);
      }
    return k;
  };
  // 1. every subset of corners of a board x acceptance share
  for (auto &sz : std::vector<std::array<int, 2>>{{4, 4}, {5, 4}, {3, 6}, {6, 3}})
    for (double perc : {0.0, 0.3, 0.4, 0.5, 0.7, 0.95, 1.0})
      for (int blk = 0; blk < 1 << ((sz[0] - 1) * (sz[1] - 1)); blk += 128) {
        if (!run.thorough() && sz[0] * sz[1] == 20 && perc != 0.3 && perc != 0.5)
          continue;
        run.run(vh::cat("sub_", sz[0], "x", sz[1], "_", perc, "_", blk), [&](vh::Case &c) {
          Cfg cfg;
          cfg.boards = {sz};
          cfg.perc = perc;
          cfg.sq = 0.1 + 0.3 * (blk / 128 % 3);
          reset(cfg);
          const int n = 1 << ((sz[0] - 1) * (sz[1] - 1));
          for (int m = blk; m < blk + 128 && m < n; m++) {
            auto k = subset(cfg, 0, m, m % 7);
            bool unsure = false;
            accept(cfg, 0, k, unsure);
            if (unsure)
              continue; // at the threshold of the collinearity test
            char nm[32];
            snprintf(nm, sizeof nm, "i%05d.png", m);
            put(cfg, 0, nm);
            g_found[{0, nm, 0}] = k;
          }
          judge(c, cfg);
        });
      }
  // 2. folder contents: every subset of a set of names
  const std::vector<std::string> N = {"10.png",     "2.jpg",    "a.bmp",   "sub/b.jpeg",
                                      "z.jp2",      "B.tiff",   "n.txt",   "x.png.bak",
                                      "x.tar.png",  "d/e/f.png", "1.gif",  "sub/c.yml"};
  const int nn = N.size();
  for (int m = 0; m < 1 << nn; m++) {
    if (!run.thorough() && m % 3 && __builtin_popcount(m) > 3)
      continue;
    run.run(vh::cat("dir_", m), [&](vh::Case &c) {
      Cfg cfg;
      cfg.cams = 2;
      cfg.boards = {{5, 4}};
      reset(cfg);
      for (int cam = 0; cam < 2; cam++) {
        fs::create_directories(folder(cfg, cam));
        for (int i = 0; i < nn; i++)
          if ((cam ? (m * 5 + 1) : m) >> i & 1) {
            put(cfg, cam, N[i], true, {8 + cam, 6 + i % 2 * 0});
            g_found[{cam, N[i], 0}] = subset(cfg, 0, 0xFFF, i);
          }
      }
      judge(c, cfg);
    });
  }
  // 3. unreadable images: every fault pattern over 6 images of 2 cameras
  for (int m = 0; m < 1 << 12; m++) {
    if (!run.thorough() && __builtin_popcount(m) > 4 && __builtin_popcount(m) < 9)
      continue;
    if ((m & 63) == 63 || (m >> 6) == 63)
      continue; // no readable image at all
    run.run(vh::cat("bad_", m), [&](vh::Case &c) {
      Cfg cfg;
      cfg.cams = 2;
      cfg.boards = {{5, 4}, {4, 4}};
      reset(cfg);
      for (int q = 0; q < 12; q++) {
        std::string nm = vh::cat("f", q % 6, ".png");
        put(cfg, q / 6, nm, !(m >> q & 1), {20 + q / 6, 10 + q / 6});
        g_found[{q / 6, nm, q % 2}] = subset(cfg, q % 2, 0x1FF, q);
        if (q % 3 == 0)
          g_found[{q / 6, nm, 1 - q % 2}] = subset(cfg, 1 - q % 2, 0x1EF, q);
      }
      judge(c, cfg);
    });
  }
  // 4. detection status of every (camera, frame, board)
  const int cells = run.thorough() ? 8 : 6;
  std::vector<int> st(cells, 0), rad(cells, 4);
  do
    run.run("stat_" + vh::digits(st), [&](vh::Case &c) {
      Cfg cfg;
      cfg.cams = 2;
      cfg.boards = {{5, 4}, {4, 4}, {6, 3}};
      if (cells == 8)
        cfg.boards = {{5, 4}, {6, 3}};
      cfg.perc = 0.4;
      reset(cfg);
      const int nb = cfg.boards.size();
      const int F = cells == 8 ? 2 : 1;
      for (int cam = 0; cam < 2; cam++)
        for (int f = 0; f < F; f++) {
          std::string nm = vh::cat("f", f, ".jpg");
          put(cfg, cam, nm);
          for (int b = 0; b < nb; b++) {
            int s = st[(cam * F + f) * nb + b];
            int nx = cfg.boards[b][0] - 1, n = nx * (cfg.boards[b][1] - 1);
            if (s == 1)
              g_found[{cam, nm, b}] = subset(cfg, b, 0x0F, cam); // too few
            if (s == 2) { // one row or column only
              int mk = 0;
              for (int i = 0; i < n; i++)
                if (nx >= 5 ? i / nx == 0 : i % nx == 0)
                  mk |= 1 << i;
              g_found[{cam, nm, b}] = subset(cfg, b, mk, cam);
            }
            if (s == 3)
              g_found[{cam, nm, b}] = subset(cfg, b, (1 << n) - 1, cam + f);
          }
        }
      judge(c, cfg);
    });
  while (vh::nextDigits(st, rad));
  // 4b. boards of different sizes side by side: each number of corners found of each of them
  const std::vector<std::array<int, 2>> S = {{4, 4}, {5, 4}, {3, 6}, {9, 7}, {12, 9}};
  for (size_t p = 0; p < S.size() * S.size() * S.size(); p++)
    for (double perc : {0.0, 0.3, 0.5, 0.8})
      for (int scale = 0; scale < 3; scale++)
        run.run(vh::cat("mix_", p, "_", perc, "_", scale), [&](vh::Case &c) {
          Cfg cfg;
          cfg.boards = {S[p % 5], S[p / 5 % 5], S[p / 25]};
          cfg.perc = perc;
          if (scale)
            cfg.sqs = scale == 1 ? std::vector<double>{0.05, 0.2, 0.6}
                                 : std::vector<double>{2.0, 0.3, 0.04};
          reset(cfg);
          for (int f = 0; f < 89; f++) {
            char nm[32];
            snprintf(nm, sizeof nm, "i%03d.png", f);
            put(cfg, 0, nm);
            for (int b = 0; b < 3; b++) {
              const int n = (cfg.boards[b][0] - 1) * (cfg.boards[b][1] - 1);
              auto all = subset(cfg, b, 0, 0);
              // every second corner first: never on one line
              for (int k = 0, found = (f * (b ? 5 * b : 1) + b) % (n + 1); k < found; k++) {
                int id = 2 * k < n ? 2 * k : 2 * (k - (n + 1) / 2) + 1;
                all.ids.push_back(id);
                all.px.emplace_back(id * 3.25f + f, 100 - id * 1.5f + b);
              }
              bool unsure = false;
              accept(cfg, b, all, unsure);
              if (!unsure)
                g_found[{0, nm, b}] = all;
            }
          }
          judge(c, cfg);
        });
  // 5. camera folders: count x prefix, one image more in every next camera
  for (int n : {1, 2, 9, 10, 11, 12, 101})
    for (std::string pre : {"Cam_", "camera", "", "C 1_"})
      run.run(vh::cat("cams_", n, "_", pre), [&](vh::Case &c) {
        Cfg cfg;
        cfg.cams = n;
        cfg.prefix = pre;
        cfg.boards = {{5, 4}};
        reset(cfg);
        for (int cam = 0; cam < n; cam++)
          for (int f = 0; f < 1 + cam % 12; f++) {
            std::string nm = vh::cat(f, ".png");
            put(cfg, cam, nm, true, {10 + cam, 9});
            g_found[{cam, nm, 0}] = subset(cfg, 0, 0xFFF - (1 << (cam % 12)), f);
          }
        judge(c, cfg);
      });
  // 6. many images, some unreadable, names of any length
  for (int n : {99, 101, 255, 257, 1001})
    for (int style = 0; style < 3; style++)
      for (int period : {0, 2, 7})
        run.run(vh::cat("images_", n, "_", style, "_", period), [&](vh::Case &c) {
          Cfg cfg;
          cfg.cams = 2;
          cfg.boards = {{5, 4}, {4, 4}};
          reset(cfg);
          for (int cam = 0; cam < 2; cam++)
            for (int f = 0; f < n - 3 * cam; f++) {
              char b[32];
              snprintf(b, sizeof b, style == 0 ? "%d.png" : style == 1 ? "im%06d.jpg" : "x_%d_y.tiff", f * 3 + cam);
              const bool readable = !period || f % period != 1;
              put(cfg, cam, b, readable, {10 + cam, 9});
              if (readable && f % 3 != 2)
                g_found[{cam, b, f % 2}] = subset(cfg, f % 2, f % 2 ? 0x1FF : 0xFFF - (1 << (f % 12)), f);
            }
          judge(c, cfg);
        });
  // 7. large boards: every number of corners found
  for (auto &sz : std::vector<std::array<int, 2>>{{17, 17}, {24, 19}, {31, 32}})
    for (double perc : {0.0, 0.3, 0.5, 0.95})
      for (int order = 0; order < 3; order++)
        run.run(vh::cat("largeboard_", sz[0], "_", perc, "_", order), [&](vh::Case &c) {
          Cfg cfg;
          cfg.boards = {sz};
          cfg.perc = perc;
          reset(cfg);
          const int n = (sz[0] - 1) * (sz[1] - 1);
          for (int found = 0; found <= n; found += found < 12 || std::abs(found - perc * n) < 6 || n - found < 9 ? 1 : 7) {
            std::string nm = vh::cat("f", 1000 + found, ".png");
            put(cfg, 0, nm);
            stubs::Corners k;
            for (int i = 0; i < found; i++) {
              const int id = order == 0 ? i : order == 1 ? n - 1 - i : (i * 7) % n;
              k.ids.push_back(id);
              k.px.emplace_back(id * 1.25f, 700 - id * 0.5f);
            }
            if (found)
              g_found[{0, nm, 0}] = k;
          }
          judge(c, cfg);
        });
  return run.finish();
}
