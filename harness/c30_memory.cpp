// A broad set of scenes. Under the sanitizers: no access outside what is owned
// and alive. With the counting heap: repeated calibrations in one process keep
// no memory, file or thread.
#include "world.hpp"
#include <malloc.h>
#include <opencv2/opencv.hpp>
using namespace world;
namespace fs = std::filesystem;
int boards_main(int argc, char **argv);
namespace {
#if defined(__SANITIZE_ADDRESS__)
constexpr bool ASAN = true;
#else
constexpr bool ASAN = false;
#endif
long entries(const char *d) {
  return std::distance(fs::directory_iterator(d), fs::directory_iterator());
}
struct Left {
  long blocks, bytes, files, threads;
};
Left left() {
#if defined(__SANITIZE_ADDRESS__)
  return {0, 0, 0, 0};
#else
  return {vh::heapBlocks(), vh::heapBytes(), entries("/proc/self/fd"), entries("/proc/self/task")};
#endif
}
// frontal images of one board at integer shifts, cut by every border
void images(const std::string &dir, int cams, const std::vector<cv::Point> &shift, int refine,
            bool turn, int save, bool broken) {
  fs::remove_all(dir);
  fs::create_directories(dir);
  std::ofstream(dir + "/config.yml")
      << "%YAML:1.0\n---\nnumber_x_square: 5\nnumber_y_square: 4\nresolution_x: 200\n"
         "resolution_y: 160\nlength_square: 0.04\nlength_marker: 0.026\nnumber_board: 1\n"
         "boards_index: []\nsquare_size: 0.1\nnumber_x_square_per_board: []\n"
         "number_y_square_per_board: []\nresolution_x_per_board: []\nresolution_y_per_board: []\n"
         "square_size_per_board: []\ndistortion_model: 0\ndistortion_per_camera: []\n"
         "number_camera: "
      << cams << "\nrefine_corner: " << refine << "\nmin_perc_pts: 0.3\ncam_params_path: \"" << dir
      << "/cams.yml\"\nfix_intrinsic: 1\nroot_path: \"" << dir
      << "/images\"\ncam_prefix: \"Cam_\"\nkeypoints_path: \"None\"\nquaternion_averaging: 1\n"
         "ransac_threshold: 8\nnumber_iterations: 20\nhe_approach: 0\nsave_path: \""
      << dir << "/out\"\nsave_detection: " << save << "\nsave_reprojection: " << save
      << "\ncamera_params_file_name: \"\"\n";
  auto old = fs::current_path();
  fs::current_path(dir);
  std::string cfg = dir + "/config.yml";
  char *a[] = {(char *)"app", cfg.data(), nullptr};
  boards_main(2, a);
  fs::current_path(old);
  cv::Mat print = cv::imread(dir + "/charuco_boards/charuco_board_000.bmp", cv::IMREAD_GRAYSCALE);
  cv::FileStorage st(dir + "/cams.yml", cv::FileStorage::WRITE);
  st << "nb_camera" << cams;
  for (int k = 0; k < cams; k++) {
    cv::Mat K = (cv::Mat_<double>(3, 3) << 300, 0, 115, 0, 300, 95, 0, 0, 1);
    st << "camera_" + std::to_string(k) << "{" << "camera_matrix" << K << "distortion_vector"
       << cv::Mat::zeros(1, 5, CV_64F) << "}";
    std::string d = dir + "/images/Cam_" + vh::cat("00", k + 1);
    fs::create_directories(d);
    for (size_t f = 0; f < shift.size(); f++) {
      const std::string p = d + "/" + vh::cat("im", f / 10, f % 10, ".png");
      if (broken && (f + k) % 3 == 1) {
        std::ofstream(p) << "broken";
        continue;
      }
      cv::Mat im(190, 230, CV_8U, cv::Scalar(200)), m = print;
      if (turn)
        cv::rotate(print, m, f % 2 ? cv::ROTATE_90_CLOCKWISE : cv::ROTATE_180);
      cv::Rect to = cv::Rect(shift[f] + cv::Point(3 * k, -2 * k), m.size()) &
                    cv::Rect(0, 0, im.cols, im.rows);
      if (to.area() > 0)
        m(to - shift[f] - cv::Point(3 * k, -2 * k)).copyTo(im(to));
      cv::imwrite(p, im);
    }
  }
}
} // namespace
int main(int argc, char **argv) {
  vh::Run run(argc, argv);
  quiet();
  cv::setNumThreads(1);
  const bool T = run.thorough();
  // every run has its own directory: what is kept per file or directory counts too
  const std::string base = fs::absolute(tempDir(run)).string() + "/m";
  std::string dir;
  long number = 0;
  long most = 0;
  // once under the sanitizers; five times with the counting heap
  auto judge = [&](vh::Case &c, const std::function<int()> &one) {
    const int times = ASAN ? 1 : 5;
    std::vector<Left> at;
    for (int i = 0; i < times; i++) {
      cv::theRNG().state = 0x1234 + run.salt;
      vh::seedRandomDevice(31 + run.salt);
      if (!dir.empty())
        fs::remove_all(dir);
      dir = vh::cat(base, 1000000 + number++);
      int rc = 0;
      try {
        rc = one();
      } catch (const cv::Exception &) { // an input OpenCV does not accept
        rc = -1;
      }
      c.trace();
      c.step();
      if (rc)
        c.sample(vh::cat("status ", rc));
      at.push_back(left());
    }
    c.state(c.id);
    if (ASAN)
      return;
    // the first runs fill caches of the libraries; later ones must not grow
    auto grows = [&](auto get) {
      long d = LONG_MAX;
      for (int i = 3; i < times; i++)
        d = std::min(d, get(at[i]) - get(at[i - 1]));
      return d;
    };
    const long blocks = grows([](const Left &l) { return l.blocks; });
    const long bytes = grows([](const Left &l) { return l.bytes; });
    most = std::max(most, blocks);
    if (blocks > 0)
      c.fail("blocks", vh::cat("each calibration keeps ", blocks, " blocks of memory"));
    if (bytes > 0)
      c.fail("bytes", vh::cat("each calibration keeps ", bytes, " bytes"));
    if (grows([](const Left &l) { return l.files; }) > 0)
      c.fail("files", "each calibration keeps a file open");
    if (grows([](const Left &l) { return l.threads; }) > 0)
      c.fail("threads", "each calibration keeps a thread");
  };
  auto keypoints = [&](const std::string &id, const World &w, const std::vector<Obs> &obs,
                       const Options &o) {
    run.run(id, [&](vh::Case &c) {
      judge(c, [&] {
        fs::create_directories(dir);
        fs::remove_all(dir + "/out");
        writeInputs(w, obs, o, dir);
        std::string a0 = "calibrate", a1 = dir + "/config.yml";
        char *a[] = {a0.data(), a1.data(), nullptr};
        return calibrate_main(2, a);
      });
    });
  };
  auto weak = [](Obs o, int kind, int salt) {
    if (kind < 12) {
      std::vector<int> ids;
      std::vector<cv::Point2f> px;
      for (int i = 0; i <= kind && i < (int)o.ids.size(); i++) {
        int j = (i + salt) % (int)o.ids.size();
        ids.push_back(o.ids[j]);
        px.push_back(o.px[j]);
      }
      o.ids = ids;
      o.px = px;
    } else
      for (size_t i = 0; i < o.px.size(); i++)
        o.px[i] = cv::Point2f(100.f + (float)((i * 7919 + salt * 131) % 1000),
                              60.f + (float)((i * i * 3571 + salt * 97) % 800));
    return o;
  };
  Options fast;
  fast.iterations = 20;
  // 1. every visibility pattern of two cameras, boards and frames
  for (int m = 1; m < 256; m++)
    for (int model = 0; model < 3; model++) {
      if (!T && (m + model) % (ASAN ? 3 : 2))
        continue;
      World w = World::standard(2, 2, 2, model, true);
      std::vector<Obs> obs;
      for (int q = 0; q < 8; q++)
        if (m >> q & 1)
          obs.push_back(w.observe(q & 1, q >> 1 & 1, q >> 2));
      Options o = fast;
      o.he_approach = m % 2;
      o.quaternion_averaging = m / 2 % 2;
      o.fix_intrinsic = m % 5 != 0;
      o.saveDetection = o.saveReprojection = m % 7 == 0;
      keypoints(vh::cat("grid_", m, "_", model), w, obs, o);
    }
  // 2. views of every number of corners at every place, unusable views
  for (int kind = 0; kind < 13; kind++)
    for (int cells = 1; cells < 16; cells++)
      for (int salt = 0; salt < (T ? 12 : 2); salt++) {
        World w = World::standard(2, 2, 1, 2, true);
        std::vector<Obs> obs;
        for (int q = 0; q < 4; q++) {
          Obs o = w.observe(q & 1, 0, q >> 1);
          obs.push_back(cells >> q & 1 ? weak(o, kind, salt * 5 + q) : o);
        }
        keypoints(vh::cat("weak_", kind, "_", cells, "_", salt), w, obs, fast);
      }
  // 3. chains of cameras and boards of every length, with numbers left out
  for (int C = 1; C <= (T ? 14 : 12); C++)
    for (int B = 1; B <= (T ? 13 : 12); B++)
      for (int gap = 0; gap < 3; gap++) {
        if (!T && (C + B + gap) % 4)
          continue;
        World w = World::standard(C, B, 3, 2, true);
        std::vector<Obs> obs;
        for (int c = 0; c < C; c++)
          for (int b = 0; b < B; b++)
            for (int f = 0; f < 3; f++)
              if (std::abs(c * (B - 1) - b * (C - 1)) <= std::max(B, C) &&
                  !(gap == 1 && (c == C / 2 || b == B / 2)) && !(gap == 2 && (c + b + f) % 3))
                obs.push_back(w.observe(c, f, b));
        if (!obs.empty())
          keypoints(vh::cat("chain_", C, "_", B, "_", gap), w, obs, fast);
      }
  // 4. groups of cameras without a common view
  for (int he = 0; he < 2; he++)
    for (int groups = 2; groups <= 4; groups++)
      for (int F = 1; F <= (T ? 12 : 9); F++)
        for (int holes = 0; holes < 3; holes++) {
          World w = World::standard(groups + 1, groups, F, 2, true);
          std::vector<Obs> obs;
          for (int f = 0; f < F; f++)
            for (int g = 0; g < groups; g++)
              if (!holes || (f + g) % (holes + 2)) {
                obs.push_back(w.observe(g, f, g));
                if (g == 0)
                  obs.push_back(w.observe(groups, f, g));
              }
          Options o = fast;
          o.he_approach = he;
          o.saveReprojection = holes;
          keypoints(vh::cat("groups_", he, "_", groups, "_", F, "_", holes), w, obs, o);
        }
  // 5. unknown lenses, refined lenses
  for (int model = 0; model < 2; model++)
    for (int F = 3; F <= (T ? 14 : 9); F++)
      for (int B = 1; B <= 2; B++)
        for (int given = 0; given < 2; given++) {
          World w = World::standard(2, B, F, model, true);
          std::vector<Obs> obs;
          for (int f = 0; f < F; f++)
            for (int c = 0; c < 2; c++)
              for (int b = 0; b < B; b++)
                obs.push_back(w.observe(c, f, b));
          Options o = fast;
          o.fix_intrinsic = 0;
          o.camParams = given;
          o.intrinsicPerturb = 0.01;
          o.ransac = 15;
          keypoints(vh::cat("lens_", model, F, B, given), w, obs, o);
        }
  for (int F : {49, 50, 51, 60, 75, 99, 100, 101, 120}) // more views than are used at first
    for (int B = 1; B <= 2; B++) {
      World w = World::standard(1, B, F, 0, true);
      std::vector<Obs> obs;
      for (int f = 0; f < F; f++)
        for (int b = 0; b < B; b++)
          obs.push_back(w.observe(0, f, b));
      Options o = fast;
      o.iterations = 10;
      o.fix_intrinsic = F % 2;
      o.camParams = false;
      keypoints(vh::cat("views_", F, "_", B), w, obs, o);
    }
  // 6. images: the board cut by each border at every shift
  auto image = [&](const std::string &id, int cams, const std::vector<cv::Point> &s, int refine,
                   bool turn, int save, bool broken) {
    run.run(id, [&](vh::Case &c) {
      judge(c, [&] {
        images(dir, cams, s, refine, turn, save, broken);
        std::string a0 = "calibrate", a1 = dir + "/config.yml";
        char *a[] = {a0.data(), a1.data(), nullptr};
        return calibrate_main(2, a);
      });
    });
  };
  const int step = T ? 1 : 3;
  for (int side = 0; side < 4; side++)
    for (int k = -70; k < 20; k += 4 * step)
      for (int turn = 0; turn < 2; turn++) {
        std::vector<cv::Point> s;
        for (int i = 0; i < 4; i++) {
          const int d = k + i * step;
          s.push_back(side == 0   ? cv::Point(d, 15)
                      : side == 1 ? cv::Point(15, d)
                      : side == 2 ? cv::Point(30 - d, 15)
                                  : cv::Point(15, 30 - d));
        }
        image(vh::cat("border_", side, "_", k, "_", turn), 1, s, 1, turn, turn, false);
      }
  for (int cams = 1; cams <= 3; cams++)
    for (int n = 1; n <= (T ? 9 : 4); n++)
      for (int broken = 0; broken < 2; broken++) {
        std::vector<cv::Point> s;
        for (int i = 0; i < n; i++)
          s.push_back({5 + 4 * i, 12 + 3 * (i % 4)});
        image(vh::cat("images_", cams, "_", n, "_", broken), cams, s, n % 2, false, 1, broken);
      }
  run.extra["most_blocks_kept"] = vh::cat(most);
  return run.finish();
}
