// Chaining of pairwise poses: for every weighted link graph with deliberately
// inconsistent links, the initial poses are composed along a best supported
// chain (least sum of 1/number of joint views).
#include "McCalib.hpp"
#include "geometrytools.hpp"
#include "world.hpp"
using namespace world;
namespace {
using Weights = std::map<std::pair<int, int>, int>; // i<j -> joint views
// inconsistency of the link i-j
Pose error(int i, int j) {
  double s = i * 7 + j * 3;
  return make(0.05 * std::sin(s), 0.06 * std::cos(2 * s), 0.07 * std::sin(3 * s + 1),
              0.05 * std::cos(s), 0.04 * std::sin(2 * s), 0.03 * std::cos(3 * s));
}
// poses of node k reachable along each minimum cost path; link(i,j): i -> j
std::vector<Pose> best(const Weights &w, int n, int ref, int k,
                       const std::function<Pose(int, int)> &link) {
  double cheapest = 1e300;
  std::vector<std::pair<double, Pose>> found;
  std::function<void(int, double, Pose, int)> go = [&](int at, double cost, Pose p, int seen) {
    if (cost > cheapest + 1e-9)
      return;
    if (at == k) {
      cheapest = std::min(cheapest, cost);
      found.push_back({cost, p});
      return;
    }
    for (int q = 0; q < n; q++) {
      auto it = w.find({std::min(at, q), std::max(at, q)});
      if (q == at || (seen >> q & 1) || it == w.end() || it->second == 0)
        continue;
      go(q, cost + 1.0 / it->second, link(at, q) * p, seen | 1 << q);
    }
  };
  go(ref, 0, Pose(), 1 << ref);
  std::vector<Pose> out;
  for (auto &f : found)
    if (f.first < cheapest + 1e-9)
      out.push_back(f.second);
  return out;
}
std::vector<int> component(const Weights &w, int n, int ref) {
  std::vector<int> c = {ref};
  for (size_t i = 0; i < c.size(); i++)
    for (int q = 0; q < n; q++) {
      auto it = w.find({std::min(c[i], q), std::max(c[i], q)});
      if (it != w.end() && it->second > 0 && std::find(c.begin(), c.end(), q) == c.end())
        c.push_back(q);
    }
  return c;
}
bool among(const Pose &g, const std::vector<Pose> &v, double tol) {
  for (auto &p : v)
    if (rotAngle(g.R, p.R) < tol && transErr(g, p) < tol)
      return true;
  return false;
}
std::string show(const Weights &w) {
  std::string s;
  for (auto &x : w)
    s += vh::cat(x.first.first, "-", x.first.second, ":", x.second, " ");
  return s;
}
Obs seen(const World &w, int c, int f, int b, const Pose &p) {
  Obs o{c, f, b, {}, {}};
  for (int k = 0; k < w.boards[b].nPts(); k++) {
    cv::Vec2d q = projectModel(w.cams[c], p(w.boards[b].pt(k)));
    o.ids.push_back(k);
    o.px.emplace_back((float)q[0], (float)q[1]);
  }
  return o;
}
Options options() {
  Options o;
  o.iterations = 60;
  return o;
}
} // namespace
int main(int argc, char **argv) {
  vh::Run run(argc, argv);
  quiet();
  const std::string dir = tempDir(run);
  const bool T = run.thorough();
  // 0: boards of an object, 1: cameras of a group, 2: merged objects, 3: merged
  // groups
  auto one = [&](vh::Case &c, int level, int n, const Weights &wt) {
    c.state(vh::cat(level, show(wt)));
    c.trace();
    World w = World::standard(level == 1 || level == 3 ? n : 1, level == 0 || level == 2 ? n : 1,
                              12, 0, false);
    std::vector<Obs> obs;
    std::function<Pose(int, int)> link; // pose of node i in the frame of node j
    int f = 0;
    if (level == 0) {
      link = [&](int i, int j) {
        bool sw = i > j;
        int a = std::min(i, j), b = std::max(i, j);
        Pose x = (w.relBoard(a, b) * error(a, b)).inv(); // a in b
        return sw ? x.inv() : x;
      };
      std::set<int> used;
      for (auto &x : wt)
        for (int k = 0; k < x.second; k++, f++) {
          int i = x.first.first, j = x.first.second;
          Pose pi = w.camFromBoard(0, f % 12, i);
          obs.push_back(seen(w, 0, f, i, pi));
          obs.push_back(seen(w, 0, f, j, pi * link(j, i)));
          used.insert(i);
          used.insert(j);
        }
      for (int i = 0; i < n; i++)
        if (!used.count(i))
          obs.push_back(w.observe(0, f % 12, i)), obs.back().f = f, f++;
    } else if (level == 1) {
      link = [&](int i, int j) {
        bool sw = i > j;
        int a = std::min(i, j), b = std::max(i, j);
        Pose x = w.relCam(a, b) * error(a, b);
        return sw ? x.inv() : x;
      };
      std::set<int> used;
      for (auto &x : wt)
        for (int k = 0; k < x.second; k++, f++) {
          int i = x.first.first, j = x.first.second;
          Pose pi = w.camFromBoard(i, f % 12, 0);
          obs.push_back(seen(w, i, f, 0, pi));
          obs.push_back(seen(w, j, f, 0, link(i, j) * pi));
          used.insert(i);
          used.insert(j);
        }
      for (int i = 0; i < n; i++)
        if (!used.count(i))
          obs.push_back(w.observe(i, f % 12, 0)), obs.back().f = f, f++;
    } else {
      link = [&](int i, int j) {
        int a = std::min(i, j), b = std::max(i, j);
        Pose x = (level == 2 ? w.relBoard(a, b).inv() : w.relCam(a, b)) * error(a, b);
        return i > j ? x.inv() : x;
      };
      for (int i = 0; i < n; i++)
        obs.push_back(level == 2 ? w.observe(0, i % 12, i) : w.observe(i, i % 12, 0)),
            obs.back().f = i;
    }
    Options o = options();
    writeInputs(w, obs, o, dir);
    McCalib::Calibration cal(dir + "/config.yml");
    cal.boardExtraction();
    cal.initIntrinsic();
    auto judge = [&](int ref, int k, const Pose &g) {
      auto v = best(wt, n, ref, k, link);
      c.step();
      if (v.empty())
        c.fail("group", vh::cat(show(wt), ": node ", k, " grouped with ", ref));
      else if (!among(g, v, 6e-3))
        c.fail("chain", vh::cat(show(wt), ": node ", k,
                                " is not chained along a best supported path to ", ref,
                                ": off by ", rotAngle(g.R, v[0].R), " rad ", transErr(g, v[0])));
    };
    std::set<int> done;
    if (level == 0 || level == 2) {
      cal.computeBoardsPairPose();
      cal.initInterTransform(cal.board_pose_pairs_, cal.inter_board_transform_);
      cal.initInterBoardsGraph();
      cal.init3DObjects();
      if (level == 2) {
        cal.initAll3DObjectObs();
        cal.estimatePoseAllObjects();
        if ((int)cal.object_3d_.size() != n)
          return c.fail("group", vh::cat(cal.object_3d_.size(), " objects initially"));
        std::map<int, int> objOf;
        for (auto &x : cal.object_3d_)
          objOf[x.second->ref_board_id_] = x.first;
        for (auto &x : wt)
          for (int k = 0; k < x.second; k++) {
            int i = x.first.first, j = x.first.second;
            cal.object_pose_pairs_[{objOf[i], objOf[j]}].push_back(toMat(link(i, j)));
            cal.object_pose_pairs_[{objOf[j], objOf[i]}].push_back(toMat(link(j, i)));
          }
        cal.initInterTransform(cal.object_pose_pairs_, cal.inter_object_transform_);
        cal.initInterObjectsGraph();
        cal.mergeObjects();
      }
      for (auto &x : cal.object_3d_) {
        int ref = x.second->ref_board_id_;
        auto comp = component(wt, n, ref);
        if (comp.size() != x.second->boards_.size() ||
            *std::min_element(comp.begin(), comp.end()) != ref)
          c.fail("group", vh::cat(show(wt), ": object of ", x.second->boards_.size(),
                                  " boards with reference ", ref));
        for (auto &b : x.second->boards_)
          if (auto p = b.second.lock()) {
            if (!done.insert(p->board_id_).second)
              c.fail("group", "board in two objects");
            Pose g = fromMat(x.second->getBoardPoseMat(p->board_id_)).inv();
            judge(ref, p->board_id_, g);
            // the points follow the pose
            for (int k = 0; k < (int)p->pts_3d_.size(); k++) {
              auto it = x.second->pts_board_2_obj_.find({p->board_id_, k});
              if (it == x.second->pts_board_2_obj_.end() ||
                  it->second >= (int)x.second->pts_3d_.size()) {
                c.fail("points", "corner without a point");
                break;
              }
              auto q = x.second->pts_3d_[it->second];
              cv::Vec3d e = g.inv()(w.boards[p->board_id_].pt(k));
              if (!(cv::norm(e - cv::Vec3d(q.x, q.y, q.z)) < 1e-4))
                c.fail("points", vh::cat("board ", p->board_id_, " corner ", k,
                                         " not placed with its board"));
            }
          }
      }
    } else {
      cal.calibrate3DObjects();
      cal.computeCamerasPairPose();
      cal.initInterTransform(cal.camera_pose_pairs_, cal.inter_camera_transform_);
      cal.initInterCamerasGraph();
      cal.initCameraGroup();
      if (level == 3) {
        cal.initAllCameraGroupObs();
        cal.computeAllObjPoseInCameraGroup();
        std::map<int, int> groupOf;
        for (auto &x : cal.cam_group_)
          groupOf[x.second->id_ref_cam_] = x.first;
        if ((int)groupOf.size() != n)
          return c.fail("group", vh::cat(groupOf.size(), " groups initially"));
        for (auto &x : wt)
          if (x.second) {
            int i = x.first.first, j = x.first.second;
            cal.no_overlap_camgroup_pair_pose_[{groupOf[i], groupOf[j]}] = toMat(link(i, j));
            cal.no_overlap_camgroup_pair_pose_[{groupOf[j], groupOf[i]}] = toMat(link(j, i));
            cal.no_overlap__camgroup_pair_common_cnt_[{groupOf[i], groupOf[j]}] = x.second;
            cal.no_overlap__camgroup_pair_common_cnt_[{groupOf[j], groupOf[i]}] = x.second;
          }
        cal.initInterCamGroupGraph();
        cal.mergeCameraGroup();
      }
      for (auto &x : cal.cam_group_) {
        int ref = x.second->id_ref_cam_;
        auto comp = component(wt, n, ref);
        if (comp.size() != x.second->cameras_.size() ||
            *std::min_element(comp.begin(), comp.end()) != ref)
          c.fail("group", vh::cat(show(wt), ": group of ", x.second->cameras_.size(),
                                  " cameras with reference ", ref));
        for (auto &b : x.second->cameras_)
          if (auto p = b.second.lock()) {
            if (!done.insert(p->cam_idx_).second)
              c.fail("group", "camera in two groups");
            judge(ref, p->cam_idx_, fromMat(x.second->getCameraPoseMat(p->cam_idx_)));
          }
      }
    }
    if ((int)done.size() != n)
      c.fail("group", vh::cat(done.size(), " of ", n, " nodes kept"));
  };
  auto all = [&](int level, int n, std::vector<int> alphabet, int stride) {
    std::vector<std::pair<int, int>> e;
    for (int i = 0; i < n; i++)
      for (int j = i + 1; j < n; j++)
        e.push_back({i, j});
    std::vector<int> d(e.size(), 0), rad(e.size(), (int)alphabet.size());
    long k = 0;
    do {
      if (k++ % stride)
        continue;
      run.run(vh::cat("l", level, "n", n, "_", vh::digits(d)), [&](vh::Case &c) {
        Weights w;
        for (size_t i = 0; i < e.size(); i++)
          w[e[i]] = alphabet[d[i]];
        one(c, level, n, w);
        if (c.id.find("3210") != std::string::npos)
          c.sample(show(w));
      });
    } while (vh::nextDigits(d, rad));
  };
  for (int level = 0; level < 4; level++) {
    all(level, 2, {0, 1, 2, 5}, 1);
    all(level, 3, {0, 1, 2, 3, 5}, 1);
    all(level, 4, {0, 1, 2, 4}, 1);
    all(level, 5, {0, 1, 3}, T ? (level < 2 ? 7 : 1) : 31);
  }
  // many joint views: every way the three links of a triangle compare
  for (int level = 0; level < 4; level++) {
    std::vector<int> many = level < 2 ? std::vector<int>{1, 6, 14, 30, 70}
                                      : std::vector<int>{1, 2, 6, 9, 12, 20, 40, 70, 130, 300};
    if (T && level < 2)
      many = {1, 4, 9, 13, 22, 45, 90, 140};
    std::vector<int> d(3, 0), rad(3, (int)many.size());
    do {
      run.run(vh::cat("many", level, "_", vh::digits(d)), [&](vh::Case &c) {
        one(c, level, 3, {{{0, 1}, many[d[0]]}, {{0, 2}, many[d[1]]}, {{1, 2}, many[d[2]]}});
      });
    } while (vh::nextDigits(d, rad));
  }
  return run.finish();
}
