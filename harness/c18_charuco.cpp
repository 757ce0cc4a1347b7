// Printed boards -> images -> registered corners: the real pattern generator
// and the real detection, on rendered views of the printed boards.
#include "McCalib.hpp"
#include "world.hpp"
#include <set>
namespace fs = std::filesystem;
int boards_main(int argc, char **argv);
namespace {
#ifndef TOL
constexpr double TOL = 0.3;
#endif
constexpr int FLIP = 0; // rows counted from the top of the print
struct Cfg {
  int nb = 1;
  std::vector<int> nx, ny, rx, ry; // per board
  bool perBoard = true, perRes = true;
  std::vector<int> index;
  int cams = 1, refine = 1;
  double perc = 0.5, sq = 0.1, marker = 0.024;
};
template <class T> std::string list(const std::vector<T> &v) {
  std::ostringstream o;
  o << "[";
  for (size_t i = 0; i < v.size(); i++)
    o << (i ? ", " : " ") << v[i];
  o << " ]";
  return o.str();
}
void write(const std::string &dir, const Cfg &c) {
  std::ofstream f(dir + "/config.yml");
  f << "%YAML:1.0\n---\nnumber_x_square: " << c.nx[0] << "\nnumber_y_square: " << c.ny[0]
    << "\nresolution_x: " << c.rx[0] << "\nresolution_y: " << c.ry[0]
    << "\nlength_square: 0.04\nlength_marker: " << c.marker << "\nnumber_board: " << c.nb
    << "\nboards_index: " << list(c.index) << "\nsquare_size: " << c.sq
    << "\nnumber_x_square_per_board: " << (c.perBoard ? list(c.nx) : "[]")
    << "\nnumber_y_square_per_board: " << (c.perBoard ? list(c.ny) : "[]")
    << "\nresolution_x_per_board: " << (c.perRes ? list(c.rx) : "[]")
    << "\nresolution_y_per_board: " << (c.perRes ? list(c.ry) : "[]")
    << "\nsquare_size_per_board: []\ndistortion_model: 0\ndistortion_per_camera: []\n"
       "number_camera: "
    << c.cams << "\nrefine_corner: " << c.refine << "\nmin_perc_pts: " << c.perc
    << "\ncam_params_path: \"None\"\nfix_intrinsic: 0\nroot_path: \"" << dir
    << "/images\"\ncam_prefix: \"Cam_\"\nkeypoints_path: \"None\"\nquaternion_averaging: 1\n"
       "ransac_threshold: 3\nnumber_iterations: 60\nhe_approach: 0\nsave_path: \"" << dir
    << "/out\"\nsave_detection: 0\nsave_reprojection: 0\ncamera_params_file_name: \"\"\n";
}
// runs the generator in dir; images of all boards
std::vector<cv::Mat> print(const std::string &dir, const Cfg &c) {
  fs::remove_all(dir);
  fs::create_directories(dir);
  write(dir, c);
  auto old = fs::current_path();
  fs::current_path(dir);
  std::string p = dir + "/config.yml";
  char *a[] = {(char *)"app", p.data(), nullptr};
  int rc = boards_main(2, a);
  fs::current_path(old);
  if (rc != 0)
    throw std::runtime_error(vh::cat("generator returned ", rc));
  std::vector<cv::Mat> r;
  for (int i = 0; i < c.nb; i++)
    r.push_back(cv::imread(dir + "/charuco_boards/charuco_board_" +
                               vh::cat(i / 100, i / 10 % 10, i % 10) + ".bmp",
                           cv::IMREAD_GRAYSCALE));
  return r;
}
// inner corners of the printed board, row by row in the image: where the
// colours of the four neighbouring squares alternate, near the regular grid
std::vector<cv::Point2d> printed(const cv::Mat &im, int nx, int ny) {
  const double m = 10, W = im.cols - 2 * m, H = im.rows - 2 * m;
  const double s = std::min(W / nx, H / ny), ox = m + (W - s * nx) / 2, oy = m + (H - s * ny) / 2;
  std::vector<cv::Point2d> v;
  for (int y = 1; y < ny; y++)
    for (int x = 1; x < nx; x++) {
      const int cx = cvRound(ox + s * x), cy = cvRound(oy + s * y);
      double best = 1e9;
      cv::Point2d at;
      for (int by = cy - 4; by <= cy + 4; by++)
        for (int bx = cx - 4; bx <= cx + 4; bx++) {
          bool ok = true, dark = im.at<uchar>(by - 1, bx - 1) < 128;
          for (int j = -3; j < 3; j++)
            for (int i = -3; i < 3; i++)
              ok &= (im.at<uchar>(by + j, bx + i) < 128) == (dark == ((i < 0) == (j < 0)));
          double d = std::hypot(bx - ox - s * x, by - oy - s * y);
          if (ok && d < best) {
            best = d;
            at = {bx - 0.5, by - 0.5};
          }
        }
      if (best > 100)
        throw std::runtime_error(vh::cat("no printed corner ", x, ",", y));
      v.push_back(at);
    }
  return v;
}
cv::Point2d apply(const cv::Matx33d &H, const cv::Point2d &p) {
  cv::Vec3d q = H * cv::Vec3d(p.x, p.y, 1);
  return {q[0] / q[2], q[1] / q[2]};
}
struct View {
  int board;
  cv::Matx33d H; // printed pixel -> image pixel
};
cv::Mat render(const std::vector<cv::Mat> &boards, const std::vector<View> &views, cv::Size sz,
               double blur) {
  cv::Mat out(sz, CV_8U, cv::Scalar(150));
  for (auto &v : views) {
    cv::Mat w, mask, one(boards[v.board].size(), CV_8U, cv::Scalar(255));
    // supersampled warp
    const int S = 3;
    cv::Matx33d up(S, 0, (S - 1) / 2., 0, S, (S - 1) / 2., 0, 0, 1);
    cv::warpPerspective(boards[v.board], w, cv::Mat(up * v.H), sz * S, cv::INTER_LINEAR);
    cv::warpPerspective(one, mask, cv::Mat(up * v.H), sz * S, cv::INTER_NEAREST);
    cv::resize(w, w, sz, 0, 0, cv::INTER_AREA);
    cv::resize(mask, mask, sz, 0, 0, cv::INTER_AREA);
    w.copyTo(out, mask == 255);
  }
  if (blur > 0)
    cv::GaussianBlur(out, out, cv::Size(0, 0), blur);
  return out;
}
// homography centred on the board
cv::Matx33d homography(const cv::Mat &b, cv::Point2d at, double scale, double roll, double tx,
                       double ty, bool flip = false) {
  const double W = b.cols, H = b.rows, f = 1000;
  cv::Matx33d R = world::rotvec(tx, 0, 0) * world::rotvec(0, ty, 0) * world::rotvec(0, 0, roll);
  // plane point (X,Y,0) at depth f, then perspective
  cv::Matx33d P(R(0, 0), R(0, 1), 0, R(1, 0), R(1, 1), 0, R(2, 0) / f, R(2, 1) / f, 1);
  cv::Matx33d S(scale, 0, at.x, 0, scale, at.y, 0, 0, 1);
  cv::Matx33d C(1, 0, -(W - 1) / 2, 0, 1, -(H - 1) / 2, 0, 0, 1);
  return S * P * C;
}
// which printed corner carries which local identifier: row by row from one of
// the four corners of the board
int order(int k, int nx, int ny, bool flipY) {
  int w = nx - 1, x = k % w, y = k / w;
  return (flipY ? ny - 2 - y : y) * w + x;
}
struct Want {
  int cam, frame, board;
  std::vector<cv::Point2d> px; // in printed order
  int nx, ny;
};
} // namespace
int main(int argc, char **argv) {
  vh::Run run(argc, argv);
  world::quiet();
  cv::setNumThreads(1);
  run.retries = 0;
  const std::string dir = fs::absolute(world::tempDir(run)).string() + "/c";
  const bool T = run.thorough();
  double worst = 0, worstShift = 0;
  // compare everything the extraction registered with what is in the images
  auto judge = [&](vh::Case &c, const Cfg &g, const std::vector<Want> &want, double tol,
                   int slack = 0) {
    McCalib::Calibration cal(dir + "/config.yml");
    cal.boardExtraction();
    std::vector<int> hit(want.size());
    for (auto &it : cal.board_observations_) {
      auto &o = *it.second;
      int k = -1;
      for (size_t i = 0; i < want.size(); i++)
        if (want[i].cam == o.camera_id_ && want[i].frame == o.frame_id_ &&
            want[i].board == o.board_id_)
          k = i;
      if (k < 0) {
        c.fail("phantom", vh::cat("camera ", o.camera_id_, " frame ", o.frame_id_, " board ",
                                  o.board_id_, " is not in the image"));
        continue;
      }
      hit[k]++;
      auto &w = want[k];
      std::set<int> ids(o.charuco_id_.begin(), o.charuco_id_.end());
      if (ids.size() != o.charuco_id_.size() || o.pts_2d_.size() != o.charuco_id_.size())
        c.fail("ids", "repeated corner identifiers");
      if (ids.size() > w.px.size() || ids.size() + slack < w.px.size())
        c.fail("missing", vh::cat("camera ", w.cam, " frame ", w.frame, " board ", w.board, ": ",
                                  ids.size(), " corners of ", w.px.size()));
      double best = 1e9, shift = 0;
      for (int fl = 0; fl < 2; fl++) {
        double m = 0, sx = 0, sy = 0;
        for (size_t i = 0; i < o.pts_2d_.size(); i++) {
          int id = o.charuco_id_[i];
          if (id < 0 || id >= (int)w.px.size()) {
            m = 1e9;
            continue;
          }
          auto p = w.px[order(id, w.nx, w.ny, fl)];
          m = std::max(m, std::hypot(o.pts_2d_[i].x - p.x, o.pts_2d_[i].y - p.y));
          sx += o.pts_2d_[i].x - p.x, sy += o.pts_2d_[i].y - p.y;
        }
        // the orientation must be the same for all boards: rows counted from
        // the same side of the printed board
        if (fl == FLIP) {
          best = m;
          shift = std::hypot(sx, sy) / o.pts_2d_.size();
        }
      }
      worst = std::max(worst, best);
      worstShift = std::max(worstShift, shift);
      // without refinement OpenCV reports corners half a pixel to the lower right
      if (!(shift < (g.refine ? 0.25 : 0.95)))
        c.fail("shift", vh::cat("camera ", w.cam, " frame ", w.frame, " board ", w.board,
                                ": the corners are shifted by ", shift, " px on average"));
      if (!(best < tol))
        c.fail("position", vh::cat("camera ", w.cam, " frame ", w.frame, " board ", w.board,
                                   ": corner off by ", best, " px"));
      c.step(o.pts_2d_.size());
    }
    for (size_t i = 0; i < want.size(); i++)
      if (hit[i] != 1)
        c.fail("lost", vh::cat("camera ", want[i].cam, " frame ", want[i].frame, " board ",
                               want[i].board, " registered ", hit[i], " times"));
    c.trace(want.size());
  };
  auto save = [&](int cam, int frame, const cv::Mat &im, const std::string &ext = "png") {
    std::string d = dir + "/images/Cam_" + vh::cat(cam / 99, (cam + 1) / 10 % 10, (cam + 1) % 10);
    fs::create_directories(d);
    cv::imwrite(d + "/" + vh::cat(frame / 100, frame / 10 % 10, frame % 10) + "." + ext, im);
  };
  auto wanted = [&](const Cfg &g, int cam, int frame, int pos, const cv::Mat &b, int id,
                    const cv::Matx33d &H) {
    Want w{cam, frame, pos, {}, g.nx[id], g.ny[id]};
    for (auto &p : printed(b, g.nx[id], g.ny[id]))
      w.px.push_back(apply(H, p));
    return w;
  };
  // 1. the printed files: every board shape x resolution; sizes, disjoint
  // boards, each detected alone in its own print as the right board
  const std::vector<std::array<int, 2>> shapes = {{5, 4}, {4, 5}, {5, 5}, {6, 4},
                                                  {3, 7}, {7, 3}, {6, 5}, {4, 4}};
  const std::vector<std::array<int, 2>> res = {{600, 500}, {500, 600}, {560, 560}};
  for (size_t a = 0; a < shapes.size(); a++)
    for (size_t b = 0; b < shapes.size(); b++)
      for (size_t r = 0; r < res.size(); r++)
        for (int mode = 0; mode < 3; mode++) {
          if (mode && (a != b))
            continue; // common shape/resolution lists only for equal boards
          run.run(vh::cat("print_", a, b, "_", r, "_", mode), [&](vh::Case &c) {
            Cfg g;
            g.nb = 3;
            g.nx = {shapes[a][0], shapes[b][0], shapes[a][0]};
            g.ny = {shapes[a][1], shapes[b][1], shapes[a][1]};
            int r2 = mode ? r : (r + 1) % res.size();
            g.rx = {res[r][0], res[r2][0], res[r][0]};
            g.ry = {res[r][1], res[r2][1], res[r][1]};
            g.marker = (a + b) % 2 ? 0.03 : 0.024;
            g.perBoard = mode != 1;
            g.perRes = mode != 2;
            g.cams = 1;
            auto im = print(dir, g);
            std::vector<Want> want;
            for (int i = 0; i < 3; i++) {
              if (im[i].empty() || im[i].size() != cv::Size(g.rx[i], g.ry[i])) {
                c.fail("file", vh::cat("board ", i, " printed as ", im[i].cols, "x", im[i].rows));
                return;
              }
              cv::Matx33d H = homography(im[i], {350, 340}, 1.0, 0, 0, 0);
              save(0, i, render(im, {{i, H}}, {700, 680}, 0.6));
              want.push_back(wanted(g, 0, i, i, im[i], i, H));
            }
            // large markers disturb the refinement of their neighbour corners
            judge(c, g, want, g.marker > 0.025 ? 2 : TOL);
            c.state(c.id);
            if (a != b)
              c.sample(vh::cat("boards ", list(g.nx), " x ", list(g.ny), " at ", list(g.rx)));
          });
        }
  // 2. pose grid: roll x tilt x scale x refinement, images rendered from prints
  for (int shape = 0; shape < (T ? 8 : 3); shape++)
    for (int roll = 0; roll < (T ? 24 : 12); roll++)
      for (int tilt = 0; tilt < 9; tilt++)
        for (int sc = 0; sc < (T ? 3 : 2); sc++)
          for (int refine = 0; refine < 2; refine++)
            run.run(vh::cat("pose_", shape, "_", roll, "_", tilt, "_", sc, "_", refine),
                    [&](vh::Case &c) {
                      Cfg g;
                      g.nb = 1;
                      g.nx = {shapes[shape][0]};
                      g.ny = {shapes[shape][1]};
                      g.rx = {600};
                      g.ry = {500};
                      g.refine = refine;
                      auto im = print(dir, g);
                      double s = sc == 0 ? 1.0 : sc == 1 ? 0.85 : 0.92;
                      double tx = tilt % 3 - 1, ty = tilt / 3 - 1;
                      cv::Matx33d H = homography(im[0], {405.3, 398.6}, s, roll * 2 * M_PI / (T ? 24 : 12) + 0.03,
                                                 tx * 0.5, ty * 0.5);
                      save(0, 0, render(im, {{0, H}}, {810, 800}, 0.6));
                      judge(c, g, {wanted(g, 0, 0, 0, im[0], 0, H)}, refine ? TOL : 1.1);
                      c.state(c.id);
                    });
  // 3. every subset of three boards in an image, every (ordered) selection of
  // boards in use, one or two cameras
  {
    std::vector<std::vector<int>> sel = {{}};
    for (int i = 0; i < 3; i++) {
      sel.push_back({i});
      for (int j = 0; j < 3; j++)
        if (j != i) {
          sel.push_back({i, j});
          sel.push_back({i, j, 3 - i - j});
        }
    }
    for (int s1 = 0; s1 < 8; s1++)
      for (int s2 = 0; s2 < 8; s2++)
        for (size_t q = 0; q < sel.size(); q++)
          for (int twoCams = 0; twoCams < 2; twoCams++) {
            if (!T && (s1 * 8 + s2 + q) % 4 != (twoCams ? 0 : 2))
              continue;
            run.run(vh::cat("subset_", s1, s2, "_", vh::digits(sel[q]), "_", twoCams),
                    [&](vh::Case &c) {
                      Cfg g;
                      g.nb = 3;
                      g.nx = {5, 4, 6};
                      g.ny = {4, 5, 4};
                      g.rx = {420, 330, 460};
                      g.ry = {340, 410, 320};
                      g.index = sel[q];
                      g.cams = 1 + twoCams;
                      auto im = print(dir, g);
                      std::vector<Want> want;
                      const cv::Point2d at[3] = {{260, 250}, {720, 260}, {480, 640}};
                      for (int k = 0; k < 2; k++) {
                        std::vector<View> v;
                        int cam = twoCams ? k : 0, frame = twoCams ? 0 : k;
                        for (int b = 0; b < 3; b++)
                          if ((k ? s2 : s1) >> b & 1) {
                            cv::Matx33d H = homography(im[b], at[(b + k) % 3], 0.9,
                                                       1.1 * b + 2.3 * k + 0.4, 0.25, -0.2);
                            v.push_back({b, H});
                            int pos = b;
                            if (!sel[q].empty()) {
                              auto it = std::find(sel[q].begin(), sel[q].end(), b);
                              pos = it == sel[q].end() ? -1 : it - sel[q].begin();
                            }
                            if (pos >= 0)
                              want.push_back(wanted(g, cam, frame, pos, im[b], b, H));
                          }
                        save(cam, frame, render(im, v, {960, 900}, 0.6));
                      }
                      judge(c, g, want, TOL);
                      c.state(c.id);
                    });
          }
  }
  // 4. how the image looks: size x light x refinement x roll x format
  for (int size = 0; size < 5; size++)
    for (int light = 0; light < 10; light++)
      for (int refine = 0; refine < 2; refine++)
        for (int roll = 0; roll < (T ? 6 : 2); roll++)
          run.run(vh::cat("look_", size, "_", light, "_", refine, "_", roll), [&](vh::Case &c) {
            static const double K[5] = {1.0, 0.6, 1.7, 2.6, 3.3}, ASPECT[5] = {1, 1, 1.9, 1.2, 0.7};
            const double s = K[size];
            Cfg g;
            g.nb = 2;
            g.nx = {5, 4};
            g.ny = {4, 5};
            g.rx = {600, 500};
            g.ry = {500, 600};
            g.refine = refine;
            if (s > 2)
              g.rx = {1800, 1500}, g.ry = {1500, 1800};
            auto im = print(dir, g);
            const int id = (light + roll) % 2;
            const double S = s * 600. / std::max(g.rx[0], g.ry[0]);
            cv::Size sz((int)(810 * s * std::sqrt(ASPECT[size])), (int)(800 * s / std::sqrt(ASPECT[size])));
            if (ASPECT[size] != 1)
              sz = sz + cv::Size(sz.width / 4, sz.height / 4);
            cv::Matx33d H = homography(im[id], {sz.width * 0.5 + 5.3, sz.height * 0.5 - 6.4}, S * 0.95,
                                       roll * 1.1 + light * 0.7 + 0.2, 0.3, -0.25);
            cv::Mat v = render(im, {{id, H}}, sz, 0.6), out;
            static const double GAIN[10][3] = {{1, 1, 1},     {1, 1, 1},     {1, 1, 1},     {1, 1, 1},
                                              {.3, .8, 1},   {1, .5, .25},  {.25, .9, .3}, {1, 1, 1},
                                               {.12, .12, .12}, {1, 1, 1}};
            out.create(sz, CV_8UC3);
            for (int y = 0; y < sz.height; y++)
              for (int x = 0; x < sz.width; x++) {
                double q = v.at<uchar>(y, x), k = 1, n = 0;
                if (light == 1)
                  k = 0.35 + 0.65 * x / sz.width;
                if (light == 2)
                  k = 1 - 0.6 * y / sz.height;
                if (light == 3)
                  q = 60 + 0.35 * q;
                if (light == 9)
                  q = 110 + 0.1 * q;
                if (light == 7)
                  n = (int)(vh::fnv(vh::cat(x, ",", y)) >> 20 & 7) - 3.5;
                for (int b = 0; b < 3; b++)
                  out.at<cv::Vec3b>(y, x)[b] = cv::saturate_cast<uchar>(q * k * GAIN[light][b] + n);
              }
            static const char *EXT[3] = {"png", "bmp", "jpg"};
            save(0, 0, out, EXT[(size + light) % 3]);
            // markers at the border may be lost to OpenCV's threshold
            judge(c, g, {wanted(g, 0, 0, id, im[id], id, H)}, refine ? 0.25 : 1.1, 3);
            c.state(c.id);
          });
  // 5. small boards in large images: size x place x marker side x refinement x roll
  for (int size = 0; size < 3; size++)
    for (int place = 0; place < 5; place++)
      for (int rate = 0; rate < 2; rate++)
        for (int refine = 0; refine < 2; refine++)
          for (int roll = 0; roll < (T ? 6 : 1); roll++)
            run.run(vh::cat("far_", size, "_", place, "_", rate, "_", refine, "_", roll), [&](vh::Case &c) {
              static const int W[3] = {2592, 3200, 2160}, HT[3] = {1944, 1800, 3840};
              Cfg g;
              g.nb = 2;
              g.nx = {5, 4};
              g.ny = {4, 5};
              g.rx = {600, 500};
              g.ry = {500, 600};
              g.refine = refine;
              auto im = print(dir, g);
              const cv::Size sz(W[size], HT[size]);
              // perimeter of a marker as a share of the larger image side
              const double side = (rate ? 0.08 : 0.056) * std::max(W[size], HT[size]) / 4;
              const double square = side / 0.75; // printed squares are 116 px wide
              cv::Mat out(sz, CV_8U, cv::Scalar(150));
              std::vector<Want> want;
              const int n = 8 * (int)square, half = n / 2;
              for (int b = 0; b < 2; b++) {
                const int k = (place + 2 * b) % 5;
                const cv::Point o(k == 4 ? sz.width / 2 - half : k % 2 ? sz.width - n : 0,
                                  k == 4 ? sz.height / 2 - half : k / 2 ? sz.height - n : 0);
                cv::Matx33d H = homography(im[b], {half + 0.3, half - 0.4}, square / 116,
                                           place * 1.3 + roll * 1.05 + b + 0.2, 0.1, -0.1);
                render(im, {{b, H}}, {n, n}, 0.6).copyTo(out(cv::Rect(o.x, o.y, n, n)));
                cv::Matx33d t(1, 0, o.x, 0, 1, o.y, 0, 0, 1);
                want.push_back(wanted(g, 0, 0, b, im[b], b, t * H));
              }
              save(0, 0, out);
              judge(c, g, want, refine ? 0.3 : 1.1);
              c.state(c.id);
            });
  run.extra["largest_corner_error_px"] = vh::cat(worst);
  run.extra["largest_mean_shift_px"] = vh::cat(worstShift);
  return run.finish();
}
