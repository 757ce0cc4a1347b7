// Configuration file -> calibration object: every combination of the lists
// describing boards and cameras, every option; misuse of the command lines.
#include "McCalib.hpp"
#include "world.hpp"
#include <sys/wait.h>
namespace fs = std::filesystem;
int boards_main(int argc, char **argv);
namespace {
struct Cfg {
  int nb = 1;
  std::vector<int> index;
  std::vector<int> nx, ny;
  std::vector<double> sq;
  int cams = 2, model = 0;
  std::vector<int> perCam;
  std::map<std::string, std::string> opt;
};
template <class T> std::string list(const std::vector<T> &v) {
  std::ostringstream o;
  o << "[";
  for (size_t i = 0; i < v.size(); i++)
    o << (i ? ", " : " ") << v[i];
  o << " ]";
  return o.str();
}
void write(const std::string &path, const Cfg &c) {
  std::map<std::string, std::string> o = {
      {"number_x_square", "7"},
      {"number_y_square", "3"},
      {"resolution_x", "321"},
      {"resolution_y", "222"},
      {"length_square", "0.0425"},
      {"length_marker", "0.03125"},
      {"number_board", std::to_string(c.nb)},
      {"boards_index", list(c.index)},
      {"square_size", "0.1875"},
      {"number_x_square_per_board", list(c.nx)},
      {"number_y_square_per_board", list(c.ny)},
      {"square_size_per_board", list(c.sq)},
      {"distortion_model", std::to_string(c.model)},
      {"distortion_per_camera", list(c.perCam)},
      {"number_camera", std::to_string(c.cams)},
      {"refine_corner", "1"},
      {"min_perc_pts", "0.5"},
      {"cam_params_path", "\"None\""},
      {"fix_intrinsic", "0"},
      {"root_path", "\"images\""},
      {"cam_prefix", "\"Cam_\""},
      {"keypoints_path", "\"None\""},
      {"quaternion_averaging", "1"},
      {"ransac_threshold", "10"},
      {"number_iterations", "1000"},
      {"he_approach", "0"},
      {"save_path", "\"\""},
      {"save_detection", "0"},
      {"save_reprojection", "0"},
      {"camera_params_file_name", "\"\""}};
  for (auto &k : c.opt)
    o[k.first] = k.second;
  std::ofstream f(path);
  f << "%YAML:1.0\n---\n";
  for (auto &k : o)
    f << k.first << ": " << k.second << "\n";
}
const int GX[] = {4, 6, 3, 8, 5}, GY[] = {5, 3, 7, 4, 6};
const double GS[] = {0.125, 0.25, 0.0625, 0.5, 0.375};
// every board of the object: right geometry, right markers
void checkBoards(vh::Case &c, const Cfg &g, const McCalib::Calibration &cal) {
  std::vector<int> idx = g.index;
  if (idx.empty())
    for (int i = 0; i < g.nb; i++)
      idx.push_back(i);
  if (cal.nb_board_ != idx.size() || cal.boards_3d_.size() != idx.size()) {
    c.fail("count", vh::cat(cal.nb_board_, " boards, ", cal.boards_3d_.size(), " built, expected ",
                            idx.size()));
    return;
  }
  auto shape = [&](int k) {
    return std::make_pair(g.nx.empty() ? 7 : g.nx[k], g.ny.empty() ? 3 : g.ny[k]);
  };
  for (size_t i = 0; i < idx.size(); i++) {
    auto it = cal.boards_3d_.find((int)i);
    if (it == cal.boards_3d_.end()) {
      c.fail("count", vh::cat("board ", i, " missing"));
      return;
    }
    const McCalib::Board &b = *it->second;
    auto [nx, ny] = shape(idx[i]);
    const double sq = g.sq.empty() ? 0.1875 : g.sq[idx[i]];
    if (b.board_id_ != (int)i || b.nb_x_square_ != nx || b.nb_y_square_ != ny)
      c.fail("shape", vh::cat("board ", i, " (", idx[i], "): id ", b.board_id_, " ", b.nb_x_square_,
                              "x", b.nb_y_square_, " instead of ", nx, "x", ny));
    if ((int)b.nb_pts_ != (nx - 1) * (ny - 1) || b.pts_3d_.size() != b.nb_pts_)
      c.fail("points", vh::cat("board ", i, ": ", b.nb_pts_, " points"));
    for (size_t k = 0; k < b.pts_3d_.size(); k++) {
      double X = (double)(k % (nx - 1)) * sq, Y = (double)(k / (nx - 1)) * sq;
      if (std::fabs(b.pts_3d_[k].x - X) > 1e-5 || std::fabs(b.pts_3d_[k].y - Y) > 1e-5 ||
          b.pts_3d_[k].z != 0)
        c.fail("geometry", vh::cat("board ", i, " point ", k, ": ", b.pts_3d_[k].x, " ",
                                   b.pts_3d_[k].y, " ", b.pts_3d_[k].z));
    }
    if (!b.charuco_board_) {
      c.fail("pattern", "no pattern");
      return;
    }
    cv::Size s = b.charuco_board_->getChessboardSize();
    if (s != cv::Size(nx, ny))
      c.fail("pattern", vh::cat("board ", i, ": pattern ", s.width, "x", s.height));
    if (std::fabs(b.charuco_board_->getSquareLength() - 0.0425) > 1e-6 ||
        std::fabs(b.charuco_board_->getMarkerLength() - 0.03125) > 1e-6)
      c.fail("pattern", "lengths of the pattern");
    int off = 0;
    for (int k = 0; k < idx[i]; k++)
      off += shape(k).first * shape(k).second / 2;
    auto ids = b.charuco_board_->ids;
    if ((int)ids.size() != nx * ny / 2)
      c.fail("markers", vh::cat("board ", i, ": ", ids.size(), " markers"));
    for (size_t k = 0; k < ids.size(); k++)
      if (ids[k] != off + (int)k) {
        c.fail("markers", vh::cat("board ", i, " (", idx[i], ") marker ", k, " is ", ids[k],
                                  " instead of ", off + k));
        break;
      }
    c.step();
  }
}
void checkCameras(vh::Case &c, const Cfg &g, const McCalib::Calibration &cal) {
  if ((int)cal.nb_camera_ != g.cams || (int)cal.cams_.size() != g.cams) {
    c.fail("cameras", vh::cat(cal.cams_.size(), " cameras"));
    return;
  }
  for (int i = 0; i < g.cams; i++) {
    auto it = cal.cams_.find(i);
    if (it == cal.cams_.end() || it->second->cam_idx_ != i) {
      c.fail("cameras", vh::cat("camera ", i));
      return;
    }
    int m = g.perCam.empty() ? g.model : g.perCam[i];
    if (it->second->distortion_model_ != m)
      c.fail("model", vh::cat("camera ", i, ": model ", it->second->distortion_model_,
                              " instead of ", m));
    c.step();
  }
}
struct Ext {
  int code = -1;
  bool signalled = false;
};
template <class F> Ext child(F f) {
  fflush(nullptr);
  pid_t p = fork();
  if (p == 0) {
    alarm(30);
    int r = f();
    fflush(nullptr);
    _exit(r & 0xff);
  }
  int st = 0;
  waitpid(p, &st, 0);
  Ext e;
  e.signalled = WIFSIGNALED(st);
  e.code = e.signalled ? WTERMSIG(st) : WEXITSTATUS(st);
  return e;
}
void subsets(int n, int maxLen, std::vector<int> cur, std::vector<std::vector<int>> &out) {
  if (!cur.empty())
    out.push_back(cur);
  if ((int)cur.size() == maxLen)
    return;
  for (int i = 0; i < n; i++)
    if (std::find(cur.begin(), cur.end(), i) == cur.end()) {
      auto d = cur;
      d.push_back(i);
      subsets(n, maxLen, d, out);
    }
}
} // namespace
int main(int argc, char **argv) {
  vh::Run run(argc, argv);
  world::quiet();
  const std::string dir = fs::absolute(world::tempDir(run)).string();
  const std::string cfg = dir + "/config.yml";
  const bool T = run.thorough();
  // 1. boards: index list (ordered), declared number, presence of each list
  std::vector<std::vector<int>> idx = {{}};
  subsets(5, T ? 5 : 3, {}, idx);
  subsets(4, 4, {}, idx);
  std::sort(idx.begin(), idx.end());
  idx.erase(std::unique(idx.begin(), idx.end()), idx.end());
  for (auto &ix : idx)
    for (int nb = 1; nb <= 5; nb++)
      for (int mask = 0; mask < 8; mask++)
        for (int len = 0; len < 2; len++) {
          if (!ix.empty() && !T && nb != 1 && nb != (int)ix.size())
            continue;
          std::vector<int> id(ix);
          run.run(vh::cat("boards_", vh::digits(id), "_", nb, "_", mask, "_", len),
                  [&](vh::Case &c) {
                    Cfg g;
                    g.nb = nb;
                    g.index = ix;
                    int n = ix.empty() ? nb : 1 + *std::max_element(ix.begin(), ix.end());
                    if (len)
                      n = 5;
                    if (mask & 1)
                      g.nx.assign(GX, GX + n);
                    if (mask & 2)
                      g.ny.assign(GY, GY + n);
                    if (mask & 4)
                      g.sq.assign(GS, GS + n);
                    write(cfg, g);
                    McCalib::Calibration cal(cfg);
                    checkBoards(c, g, cal);
                    checkCameras(c, g, cal);
                    c.state(c.id);
                    c.trace();
                    if (mask == 7 && ix.size() == 2)
                      c.sample(vh::cat("boards ", list(ix), " of ", n));
                  });
        }
  // many and large boards
  for (int nb : {6, 9, 10, 11, 16, 25})
    for (int mask = 0; mask < 8; mask++)
      for (int order = 0; order < 5; order++)
        run.run(vh::cat("many_", nb, "_", mask, "_", order), [&](vh::Case &c) {
          Cfg g;
          g.nb = nb;
          for (int i = 0; i < nb; i++) {
            if (order == 1)
              g.index.push_back(nb - 1 - i);
            if (order == 2 && i % 2)
              g.index.push_back(i);
            if (order == 3 && i % 3 != 1)
              g.index.push_back((i * 7 + 3) % 27 % nb);
            if (mask & 1)
              g.nx.push_back(3 + i * 5 % 7);
            if (mask & 2)
              g.ny.push_back(3 + i * 3 % 8);
            if (mask & 4)
              g.sq.push_back(0.0625 * (1 + i));
          }
          if (order == 4)
            g.index = {nb - 1};
          std::vector<int> u = g.index;
          std::sort(u.begin(), u.end());
          if (std::unique(u.begin(), u.end()) != u.end())
            return; // a board is selected once
          if (order == 2)
            g.nb = g.index.size();
          write(cfg, g);
          McCalib::Calibration cal(cfg);
          checkBoards(c, g, cal);
          c.state(c.id);
          c.trace();
        });
  for (auto &d : std::vector<std::array<int, 2>>{{40, 3}, {3, 40}, {31, 32}, {20, 21}})
    for (int before = 0; before < 3; before++)
      run.run(vh::cat("large_", d[0], "_", before), [&](vh::Case &c) {
        Cfg g;
        g.nb = 1;
        g.index = {before};
        for (int i = 0; i <= before; i++) {
          g.nx.push_back(i < before ? 3 : d[0]);
          g.ny.push_back(i < before ? 3 : d[1]);
        }
        write(cfg, g);
        McCalib::Calibration cal(cfg);
        checkBoards(c, g, cal);
        c.state(c.id);
        c.trace();
      });
  for (int n : {7, 9, 10, 11, 26, 101})
    for (int model = 0; model < 2; model++)
      for (int m = 0; m < 7; m++)
        run.run(vh::cat("manycams_", n, "_", model, "_", m), [&](vh::Case &c) {
          Cfg g;
          g.cams = n;
          g.model = model;
          for (int i = 0; m && i < n; i++)
            g.perCam.push_back(m == 1 ? i == n - 1 : m == 2 ? i != 0 : (i * m / 3) % 2);
          write(cfg, g);
          McCalib::Calibration cal(cfg);
          checkCameras(c, g, cal);
          c.state(c.id);
          c.trace();
        });
  // 2. cameras: number, default model, every list of models
  for (int n = 1; n <= (T ? 6 : 5); n++)
    for (int model = 0; model < 2; model++)
      for (int m = -1; m < (1 << n); m++)
        run.run(vh::cat("cams_", n, "_", model, "_", m), [&](vh::Case &c) {
          Cfg g;
          g.cams = n;
          g.model = model;
          for (int i = 0; m >= 0 && i < n; i++)
            g.perCam.push_back(m >> i & 1);
          write(cfg, g);
          McCalib::Calibration cal(cfg);
          checkCameras(c, g, cal);
          checkBoards(c, g, cal);
          c.state(c.id);
          c.trace();
        });
  // 3. options: every pair of options, each with every one of its values
  struct Opt {
    std::string name;
    std::vector<std::string> values;
    std::function<std::string(const McCalib::Calibration &)> get;
    std::string def;
  };
  auto S = [](auto v) { return vh::cat(v); };
  const std::vector<Opt> opts = {
      {"refine_corner", {"0", "1"}, [&](auto &k) { return S((int)k.refine_corner_); }, "1"},
      {"min_perc_pts", {"0", "0.125", "0.75", "1"}, [&](auto &k) { return S(k.min_perc_pts_); },
       "0.5"},
      {"fix_intrinsic", {"0", "1"}, [&](auto &k) { return S(k.fix_intrinsic_); }, "0"},
      {"quaternion_averaging", {"0", "1"},
       [&](auto &k) { return S((int)k.quaternion_averaging_); }, "1"},
      {"ransac_threshold", {"1", "2.5", "25"}, [&](auto &k) { return S(k.ransac_thresh_); },
       "10"},
      {"number_iterations", {"1", "77", "5000"}, [&](auto &k) { return S(k.nb_iterations_); },
       "1000"},
      {"he_approach", {"0", "1"}, [&](auto &k) { return S(k.he_approach_); }, "0"},
      {"save_detection", {"0", "1"}, [&](auto &k) { return S(k.save_detect_); }, "0"},
      {"save_reprojection", {"0", "1"}, [&](auto &k) { return S(k.save_repro_); }, "0"},
      {"root_path", {"\"a b/c\"", "\"/x/y\""}, [&](auto &k) { return "\"" + k.root_path_.string() + "\""; },
       "\"images\""},
      {"cam_prefix", {"\"left-\"", "\"\"", "\"Cam 0\""},
       [&](auto &k) { return "\"" + k.cam_prefix_ + "\""; }, "\"Cam_\""},
      {"cam_params_path", {"\"p/q.yml\"", "\"\""},
       [&](auto &k) { return "\"" + k.cam_params_path_.string() + "\""; }, "\"None\""},
      {"keypoints_path", {"\"k/p.yml\"", "\"\""},
       [&](auto &k) { return "\"" + k.keypoints_path_.string() + "\""; }, "\"None\""},
      {"camera_params_file_name", {"\"n.yml\""},
       [&](auto &k) { return "\"" + k.camera_params_file_name_.string() + "\""; }, "\"\""},
      {"save_path", {"\"" + dir + "/s/t\""},
       [&](auto &k) { return "\"" + k.save_path_.string() + "\""; }, "\"\""},
  };
  for (size_t a = 0; a < opts.size(); a++)
    for (size_t b = a; b < opts.size(); b++)
      for (size_t i = 0; i < opts[a].values.size(); i++)
        for (size_t j = 0; j < opts[b].values.size(); j++) {
          if (a == b && i != j)
            continue;
          run.run(vh::cat("opt_", a, "_", i, "_", b, "_", j), [&](vh::Case &c) {
            Cfg g;
            g.opt[opts[a].name] = opts[a].values[i];
            g.opt[opts[b].name] = opts[b].values[j];
            write(cfg, g);
            McCalib::Calibration cal(cfg);
            for (auto &o : opts) {
              std::string want = g.opt.count(o.name) ? g.opt[o.name] : o.def;
              if (o.get(cal) != want)
                c.fail("option", vh::cat(o.name, " is ", o.get(cal), " instead of ", want));
              c.step();
            }
            if (g.opt.count("save_path") && !fs::is_directory(dir + "/s/t"))
              c.fail("save", "the save directory is not created");
            fs::remove_all(dir + "/s");
            checkCameras(c, g, cal);
            checkBoards(c, g, cal);
            c.state(c.id);
            c.trace();
          });
        }
  // 4. command lines
  {
    fs::create_directories(dir + "/sub");
    struct Arg {
      std::string name, path;
      bool make;
    };
    const std::vector<Arg> args = {{"none", "", false},
                                   {"missing", dir + "/missing.yml", false},
                                   {"missingdir", dir + "/nowhere/c.yml", false},
                                   {"txt", dir + "/c.txt", true},
                                   {"yaml", dir + "/c.yaml", true},
                                   {"noext", dir + "/config", true},
                                   {"hidden", dir + "/.yml", true},
                                   {"dir", dir + "/sub", false},
                                   {"slash", dir + "/sub/", false},
                                   {"suffix", dir + "/c.yml.bak", true},
                                   {"empty", "", false}};
    for (int app = 0; app < 2; app++)
      for (auto &a : args)
        for (int extra = 0; extra < 2; extra++) {
          if (extra && a.name == "none")
            continue;
          run.run(vh::cat("cli_", app, "_", a.name, "_", extra), [&](vh::Case &c) {
            if (a.make) {
              Cfg g;
              write(a.path, g);
            }
            const std::string work = dir + "/work";
            fs::remove_all(work);
            fs::create_directories(work);
            Ext e = child([&]() {
              if (chdir(work.c_str()))
                return 0;
              std::vector<std::string> v = {"app"};
              if (a.name != "none")
                v.push_back(a.path);
              if (extra)
                v.push_back("surplus");
              std::vector<char *> p;
              for (auto &s : v)
                p.push_back(s.data());
              p.push_back(nullptr);
              return app ? boards_main((int)v.size(), p.data())
                         : calibrate_main((int)v.size(), p.data());
            });
            if (e.signalled)
              c.fail("crash", vh::cat("signal ", e.code));
            else if (e.code == 0)
              c.fail("status", "success reported without a configuration");
            if (!fs::is_empty(work))
              c.fail("files", "files written without a configuration");
            if (a.make)
              fs::remove(a.path);
            c.state(c.id);
            c.trace();
            c.step();
          });
        }
  }
  return run.finish();
}
