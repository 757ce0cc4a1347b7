// Detection with corner refinement: every corner that lies on a saddle is moved
// onto it and every other one keeps its detected position, for every assignment
// of corner kinds to the corners of the boards of an image.
#include "McCalib.hpp"
#include "stubs_cv.hpp"
#include "world.hpp"
namespace fs = std::filesystem;
namespace {
// kinds: 0 saddle, 1 flat surroundings, 2 bump (an extremum), 3 saddle too far
const int NX = 3, NY = 2, N = NX * NY, STEP = 40;
const double PI = 3.14159265358979;
struct Spot {
  int kind;
  cv::Point2d at;      // true position
  cv::Point2f found;   // what the detector reports
};
// the corners of board b in frame f, in the order the detector lists them
std::vector<Spot> spots(const std::vector<int> &kinds, int b, int f) {
  std::vector<Spot> s;
  for (int k = 0; k < N; k++) {
    Spot p;
    p.kind = kinds[k];
    p.at = {30 + STEP * (k % NX) + 0.1 * ((k + f) % 7), 30 + STEP * (k / NX + NY * b) + 0.13 * (k % 5)};
    double a = k + 0.7 * f + b, d = p.kind == 3 ? 2.6 : 0.6;
    p.found = {(float)(p.at.x + d * std::cos(a)), (float)(p.at.y + d * std::sin(a))};
    s.push_back(p);
  }
  return s;
}
void paint(cv::Mat &m, const Spot &s, int salt) {
  const int R = STEP / 2;
  for (int y = (int)s.at.y - R + 1; y < s.at.y + R; y++)
    for (int x = (int)s.at.x - R + 1; x < s.at.x + R; x++) {
      const double dx = x - s.at.x, dy = y - s.at.y, t = 0.4 * salt;
      double u = dx * std::cos(t) + dy * std::sin(t), v = -dx * std::sin(t) + dy * std::cos(t), g = 128;
      u = std::max(-9.0, std::min(9.0, u));
      v = std::max(-9.0, std::min(9.0, v));
      if (s.kind == 0 || s.kind == 3)
        g += 1.2 * u * v;
      else if (s.kind == 2)
        g -= 0.8 * (u * u + v * v) - 60;
      int q = std::max(0, std::min(255, (int)std::lround(g)));
      m.at<cv::Vec3b>(y, x) = cv::Vec3b(q, q, q);
    }
}
} // namespace
int main(int argc, char **argv) {
  vh::Run run(argc, argv);
  world::quiet();
  run.retries = 0;
  const std::string dir = fs::absolute(world::tempDir(run)).string();
  std::vector<std::vector<std::vector<Spot>>> frames; // frame, board, corner
  McCalib::Calibration *cal = nullptr;
  stubs::imread = [&](const std::string &p) {
    int f = atoi(fs::path(p).stem().string().c_str());
    cv::Mat m(60 + STEP * 2 * NY, 60 + STEP * NX, CV_8UC3, cv::Scalar(128, 128, 128));
    for (size_t b = 0; b < frames[f].size(); b++)
      for (int k = 0; k < N; k++)
        paint(m, frames[f][b][k], k + f + b);
    m.at<cv::Vec3b>(0, 0) = cv::Vec3b(f, 0, 77);
    return m;
  };
  stubs::markers = [&](const cv::Mat &, const cv::aruco::Dictionary *,
                       const cv::aruco::DetectorParameters *) { return std::vector<int>{0, 1}; };
  stubs::corners = [&](const cv::Mat &m, const cv::aruco::CharucoBoard *b, const std::vector<int> &) {
    stubs::Corners o;
    for (auto &x : cal->boards_3d_)
      if (x.second->charuco_board_.get() == b)
        for (int k = 0; k < N; k++) {
          o.ids.push_back(k);
          o.px.push_back(frames[m.at<cv::Vec3b>(0, 0)[0]][x.first][k].found);
        }
    return o;
  };
  std::vector<int> d(N, 0), rad(N, 4);
  std::vector<std::vector<int>> all;
  do
    all.push_back(d);
  while (vh::nextDigits(d, rad));
  const int per = 64;
  for (int refine = 0; refine < 2; refine++)
    for (size_t blk = 0; blk < all.size(); blk += per) {
      if (!refine && blk % (8 * per))
        continue; // without refinement nothing moves
      run.run(vh::cat("kinds_", refine, "_", blk), [&](vh::Case &c) {
        fs::remove_all(dir + "/images");
        fs::create_directories(dir + "/images/Cam_001");
        frames.clear();
        for (int f = 0; f < per; f++) {
          char nm[32];
          snprintf(nm, sizeof nm, "/images/Cam_001/%03d.png", f);
          std::ofstream(dir + nm) << "x";
          auto k1 = all[blk + f], k2 = all[(blk + 5 * f + 77) % all.size()];
          frames.push_back({spots(k1, 0, f), spots(k2, 1, f)});
        }
        std::ofstream(dir + "/config.yml")
            << "%YAML:1.0\n---\nnumber_x_square: 4\nnumber_y_square: 3\nresolution_x: 500\n"
               "resolution_y: 500\nlength_square: 0.04\nlength_marker: 0.03\nnumber_board: 2\n"
               "boards_index: []\nsquare_size: 0.1\nnumber_x_square_per_board: []\n"
               "number_y_square_per_board: []\nsquare_size_per_board: []\ndistortion_model: 0\n"
               "distortion_per_camera: []\nnumber_camera: 1\nrefine_corner: "
            << refine
            << "\nmin_perc_pts: 0.4\ncam_params_path: \"None\"\nfix_intrinsic: 0\nroot_path: \"" << dir
            << "/images\"\ncam_prefix: \"Cam_\"\nkeypoints_path: \"None\"\nquaternion_averaging: 1\n"
               "ransac_threshold: 3\nnumber_iterations: 60\nhe_approach: 0\nsave_path: \""
            << dir << "/out\"\nsave_detection: 0\nsave_reprojection: 0\ncamera_params_file_name: \"\"\n";
        McCalib::Calibration k(dir + "/config.yml");
        cal = &k;
        k.boardExtraction();
        cal = nullptr;
        c.trace(per);
        c.state(c.id);
        size_t seen = 0;
        for (auto &x : k.board_observations_) {
          auto &o = *x.second;
          seen++;
          if (o.charuco_id_.size() != N || o.pts_2d_.size() != N)
            return c.fail("corners", "corners were lost");
          for (int i = 0; i < N; i++) {
            c.step();
            const Spot &s = frames.at(o.frame_id_).at(o.board_id_).at(o.charuco_id_[i]);
            const cv::Point2f p = o.pts_2d_[i];
            const bool move = refine && s.kind == 0;
            const double e = move ? std::hypot(p.x - s.at.x, p.y - s.at.y)
                                  : std::hypot(p.x - s.found.x, p.y - s.found.y);
            if (!(e <= (move ? 0.1 : 0)))
              c.fail(move ? "unrefined" : "moved",
                     vh::cat("frame ", o.frame_id_, " board ", o.board_id_, " corner ", i, " of kind ",
                             s.kind, ": off by ", e, " px"));
          }
        }
        if (seen != 2 * per)
          c.fail("boards", vh::cat(seen, " boards registered instead of ", 2 * per));
      });
    }
  return run.finish();
}
