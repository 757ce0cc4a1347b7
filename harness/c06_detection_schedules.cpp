// Explores the interleavings of the board-detection worker threads (all
// schedules up to a preemption bound, real thread pool and real locks) with
// the image decoding and marker detection replaced by exact stand-ins.
#include <ctime>
#include "registry.hpp"
#include "sched.hpp"
#include "stubs_cv.hpp"
#include "world.hpp"
#include <boost/log/core.hpp>
namespace fs = std::filesystem;
using registry::Item;
namespace {
struct Scn {
  const char *name;
  int threads, cams, frames, boards, refine;
  int bound, boundT; // preemption bound quick / thorough
};
// image content: (cam, frame, tag)
// with one saddle point whose sub-pixel position depends on the image
cv::Mat image(int cam, int frame) {
  cv::Mat m(24, 32 + cam, CV_8UC3);
  for (int y = 0; y < m.rows; y++)
    for (int x = 0; x < m.cols; x++) {
      double v = 120 + 6 * (x - 15.3 - 0.17 * frame) * (y - 11.6 + 0.13 * cam);
      int q = std::max(0, std::min(255, (int)std::lround(v)));
      m.at<cv::Vec3b>(y, x) = cv::Vec3b(q, q, q);
    }
  m.at<cv::Vec3b>(0, 0) = cv::Vec3b(10 * cam + 1, frame + 1, 77);
  return m;
}
bool sees(int cam, int frame, int board) { return (cam + frame + board) % 4 != 3; }
Item truth(int cam, int frame, int board) {
  Item i{cam, frame, board, {}, {}, ""};
  for (int k = 0; k < 8; k++) {
    int id = (k + frame) % 12;
    i.ids.push_back(id);
    i.px.emplace_back(100.f * cam + id, 10.f * frame + board + 0.25f * k);
  }
  i.px[2] = cv::Point2f(15.f, 12.f); // refined towards the saddle point
  return i;
}
void decode(const cv::Mat &m, int &cam, int &frame) {
  cv::Vec3b p = m.at<cv::Vec3b>(0, 0);
  cam = (p[0] - 1) / 10;
  frame = p[1] - 1;
  if (p[2] != 77)
    cam = frame = -1;
}
} // namespace
int main(int argc, char **argv) {
  vh::Run run(argc, argv);
  const time_t started = time(nullptr), total = run.thorough() ? 9000 : 250;
  const long caseCpu = run.thorough() ? 600 : 30;
  world::quiet();
  run.retries = 0;
  const std::string dir = fs::absolute(world::tempDir(run)).string();
#if defined(__SANITIZE_THREAD__)
  const bool ts = true;
#else
  const bool ts = false;
#endif
  const std::vector<Scn> S = ts ? std::vector<Scn>{{"t2c1f2b1", 2, 1, 2, 1, 0, 1, 2},
                                                   {"t2c2f2b1r", 2, 2, 2, 1, 1, 0, 1},
                                                   {"t3c1f3b2", 3, 1, 3, 2, 0, 0, 1}}
                                : std::vector<Scn>{{"t2c1f2b1", 2, 1, 2, 1, 0, 2, 3},
                                                   {"t2c1f3b2", 2, 1, 3, 2, 0, 1, 2},
                                                   {"t3c1f3b1", 3, 1, 3, 1, 0, 1, 2},
                                                   {"t2c2f2b2r", 2, 2, 2, 2, 1, 1, 2},
                                                   {"t1c2f3b2r", 1, 2, 3, 2, 1, 1, 2}};
  stubs::point = [] { sched::point(); };
  std::string err;
  stubs::imread = [&](const std::string &p) {
    sched::markTask(true);
    // .../Cam_00X/fN.png
    std::string cf = fs::path(p).parent_path().filename().string();
    std::string nm = fs::path(p).filename().string();
    int c = -1, f = -1;
    if (sscanf(cf.c_str(), "Cam_%d", &c) != 1 || sscanf(nm.c_str(), "f%d", &f) != 1)
      return cv::Mat();
    return image(c - 1, f);
  };
  McCalib::Calibration *cal = nullptr;
  auto boardOf = [&](const void *b, bool isBoard, const void *dict) {
    for (auto &x : cal->boards_3d_)
      if (isBoard ? x.second->charuco_board_.get() == b
                  : x.second->charuco_board_->dictionary.get() == dict)
        return x.first;
    return -1;
  };
  stubs::markers = [&](const cv::Mat &im, const cv::aruco::Dictionary *d,
                       const cv::aruco::DetectorParameters *) {
    int c, f;
    decode(im, c, f);
    if (c < 0 || boardOf(nullptr, false, d) < 0)
      return std::vector<int>();
    return std::vector<int>{c, f, 5};
  };
  stubs::corners = [&](const cv::Mat &im, const cv::aruco::CharucoBoard *b,
                       const std::vector<int> &mk) {
    int c, f;
    decode(im, c, f);
    int bi = boardOf(b, true, nullptr);
    stubs::Corners k;
    if (mk.size() != 3 || mk[0] != c || mk[1] != f || bi < 0 || !sees(c, f, bi))
      return k; // markers of another image
    Item t = truth(c, f, bi);
    k.px = t.px;
    k.ids = t.ids;
    return k;
  };
  for (const Scn &s : S) {
    const int bound = run.thorough() ? s.boundT : s.bound;
    world::World w = world::World::standard(s.cams, s.boards, 1);
    for (auto &b : w.boards)
      b.nx = 5, b.ny = 4;
    const std::string sd = dir + "/" + s.name;
    bool ready = false;
    std::vector<Item> want;
    for (int c = 0; c < s.cams; c++)
      for (int f = 0; f < s.frames; f++)
        for (int b = 0; b < s.boards; b++)
          if (sees(c, f, b)) {
            Item i = truth(c, f, b);
            i.path = sd + vh::cat("/images/Cam_00", c + 1, "/f", f, ".png");
            want.push_back(i);
          }
    auto prepare = [&]() {
      if (ready)
        return;
      ready = true;
      fs::create_directories(sd);
      for (int c = 0; c < s.cams; c++) {
        fs::create_directories(sd + vh::cat("/images/Cam_00", c + 1));
        for (int f = 0; f < s.frames; f++)
          std::ofstream(sd + vh::cat("/images/Cam_00", c + 1, "/f", f, ".png")) << "x";
      }
      world::writeInputs(w, {}, world::Options(), sd);
      fs::remove(sd + "/keypoints.yml");
    };
    // the sequential execution is the reference for the corner positions
    auto reference = [&]() {
      sched::hardwareThreads = 1;
      McCalib::Calibration k(sd + "/config.yml");
      cal = &k;
      k.refine_corner_ = s.refine;
      k.boardExtraction();
      cal = nullptr;
      int moved = 0;
      for (auto &x : k.board_observations_)
        for (auto &i : want)
          if (i.c == x.second->camera_id_ && i.f == x.second->frame_id_ &&
              i.b == x.second->board_id_ && i.px.size() == x.second->pts_2d_.size())
            for (size_t q = 0; q < i.px.size(); q++) {
              double d = cv::norm(i.px[q] - x.second->pts_2d_[q]);
              if (d > 0 && d < 1.5) {
                i.px[q] = x.second->pts_2d_[q];
                moved++;
              }
            }
      if (getenv("VH_TRACE"))
        fprintf(stderr, "%s: %d refined corners\n", s.name, moved);
    };
    std::string order;
    auto once = [&](vh::Case &c, const std::vector<int> &prefix) {
      sched::hardwareThreads = s.threads;
      run.arm(); // termination is judged for each execution
      McCalib::Calibration k(sd + "/config.yml");
      cal = &k;
      k.refine_corner_ = s.refine;
      auto out = sched::execute([&]() { k.boardExtraction(); }, prefix, bound);
      cal = nullptr;
      c.trace();
      c.step(out.points);
      std::string e = out.error;
      if (e.empty())
        e = registry::verify(k, want);
      if (e.empty())
        for (auto &x : k.cams_)
          if (x.second->im_cols_ != 32 + x.first || x.second->im_rows_ != 24)
            e = vh::cat("image size of camera ", x.first, " is ", x.second->im_cols_,
                        "x", x.second->im_rows_);
      order = s.name;
      for (auto &x : k.board_observations_)
        order += vh::cat(" ", x.second->camera_id_, x.second->frame_id_,
                         x.second->board_id_);
      c.state(order);
      if (!e.empty()) {
        std::string sc;
        for (auto &ch : out.choices)
          sc += std::to_string(ch.taken);
        c.fail("schedule", e + " (schedule " + sc + ")");
      }
      return out;
    };
    // A case is one first deviation from the default schedule (position,
    // alternative); the harness explores its whole subtree. The tree is the
    // same in every shard, so the root execution is repeated here.
    std::vector<sched::Choice> root;
    {
      bool need = !run.replaying() || run.only.rfind(std::string(s.name) + "_", 0) == 0;
      if (!need)
        continue;
      prepare();
      reference();
      vh::Case dummy(run, std::string(s.name) + "_warm");
      auto tr = run.transitions, tc = run.traces;
      run.arm();
      if (run.cur)
        strncpy(run.cur, (std::string(s.name) + "_default").c_str(), 100);
      for (int i = 0; i < 2; i++)
        root = once(dummy, {}).choices;
      run.disarm();
      if (run.cur)
        run.cur[0] = 0;
      run.transitions = tr;
      run.traces = tc;
      run.pending.clear();
    }
    run.run(std::string(s.name) + "_default", [&](vh::Case &c) { once(c, {}); });
    for (int k = 0; k < (int)root.size(); k++)
      for (int a = 1; a < root[k].alternatives; a++)
        run.run(vh::cat(s.name, "_", k, "_", a), [&](vh::Case &c) {
          std::vector<int> base;
          for (int i = 0; i < k; i++)
            base.push_back(root[i].taken);
          base.push_back(a);
          std::vector<int> pre = base;
          const clock_t begun = clock();
          for (;;) {
            auto out = once(c, pre);
            if (c.fails)
              return;
            // a change that spawns more threads may make the tree too large: then every
            // deviation is still followed, but not its whole subtree
            if (clock() - begun > caseCpu * CLOCKS_PER_SEC || time(nullptr) - started > total) {
              run.extra["capped"] = "subtrees above the budget left out";
              break;
            }
            // next in depth-first order, below `base`
            int i = (int)out.choices.size() - 1;
            while (i >= (int)base.size() &&
                   out.choices[i].taken + 1 >= out.choices[i].alternatives)
              i--;
            if (i < (int)base.size())
              break;
            pre.clear();
            for (int j = 0; j < i; j++)
              pre.push_back(out.choices[j].taken);
            pre.push_back(out.choices[i].taken + 1);
          }
          c.sample(order);
        });
  }
  return run.finish();
}
