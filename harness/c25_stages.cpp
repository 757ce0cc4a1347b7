// Every refinement stage, run on its own from a disturbed start: it ends at a
// minimum of the robust reprojection error over the parameters it frees, leaves
// every other parameter as it was, and brings the derived data up to date.
#include "world.hpp"
#include "McCalib.hpp"
using namespace world;
using McCalib::Calibration;
namespace {
enum Stage { Intrinsics = 'A', Objects = 'B', Groups = 'C', All = 'D', Everything = 'E' };

struct Block {
  double *p;
  int n;
  std::string name;
};
struct Model {
  const World &w;
  const std::vector<Obs> &obs;
  Calibration &cal;
  Stage stage;
  struct Row { // everything needed to predict the corners of one observation
    const Obs *o;
    double *intr;
    std::vector<double *> chain; // poses applied last to first
  };
  std::vector<Row> rows;
  std::vector<Block> freed, fixed;
  std::string error;

  static Pose pose(const double *p) { return make(p[0], p[1], p[2], p[3], p[4], p[5]); }
  Model(const World &w, const std::vector<Obs> &obs, Calibration &cal, Stage s)
      : w(w), obs(obs), cal(cal), stage(s) {
    std::map<int, McCalib::Object3D *> objectOf;
    for (auto &o : cal.object_3d_)
      for (auto &b : o.second->boards_)
        objectOf[b.first] = o.second.get();
    std::map<int, McCalib::CameraGroup *> groupOf;
    for (auto &g : cal.cam_group_)
      for (auto &c : g.second->cameras_)
        groupOf[c.first] = g.second.get();
    std::map<std::array<int, 3>, McCalib::BoardObs *> bo;
    for (auto &b : cal.board_observations_)
      bo[{b.second->camera_id_, b.second->frame_id_, b.second->board_id_}] = b.second.get();
    std::map<std::array<int, 3>, McCalib::Object3DObs *> oo;
    for (auto &b : cal.object_observations_)
      oo[{b.second->camera_id_, b.second->frame_id_, b.second->object_3d_id_}] = b.second.get();
    std::map<std::array<int, 2>, McCalib::CameraGroupObs *> go;
    for (auto &b : cal.cams_group_obs_)
      go[{b.first.first, b.first.second}] = b.second.get();
    auto add = [&](std::vector<Block> &v, double *p, int n, const std::string &name) {
      for (auto &b : v)
        if (b.p == p)
          return;
      v.push_back({p, n, name});
    };
    for (auto &o : obs) {
      Row r;
      r.o = &o;
      r.intr = cal.cams_[o.c]->intrinsics_.data();
      const int nd = 4 + (int)w.cams[o.c].d.size();
      add(s == Intrinsics || s == Everything ? freed : fixed, r.intr, nd,
          vh::cat("intrinsics of camera ", o.c));
      auto missing = [&](const char *what) {
        if (error.empty())
          error = vh::cat(what, " of camera ", o.c, " frame ", o.f, " board ", o.b, " missing");
      };
      McCalib::BoardObs *b = bo.count({o.c, o.f, o.b}) ? bo[{o.c, o.f, o.b}] : nullptr;
      if (!b) {
        missing("board view");
        return;
      }
      if (s == Intrinsics) {
        r.chain = {b->pose_.data()};
        add(freed, b->pose_.data(), 6, vh::cat("view ", o.c, o.f, o.b));
        rows.push_back(r);
        continue;
      }
      add(fixed, b->pose_.data(), 6, vh::cat("view ", o.c, o.f, o.b));
      if (!objectOf.count(o.b)) {
        missing("object");
        return;
      }
      McCalib::Object3D *O = objectOf[o.b];
      McCalib::Object3DObs *v =
          oo.count({o.c, o.f, O->obj_id_}) ? oo[{o.c, o.f, O->obj_id_}] : nullptr;
      double *rel = O->relative_board_pose_[o.b].data();
      add(s != Groups && o.b != O->ref_board_id_ ? freed : fixed, rel, 6,
          vh::cat("board ", o.b, " in its object"));
      if (!v) {
        missing("object view");
        return;
      }
      add(s == Objects ? freed : fixed, v->pose_.data(), 6,
          vh::cat("pose of object ", O->obj_id_, " in camera ", o.c, " frame ", o.f));
      if (s == Objects) {
        r.chain = {v->pose_.data(), rel};
        rows.push_back(r);
        continue;
      }
      if (!groupOf.count(o.c)) {
        missing("group");
        return;
      }
      McCalib::CameraGroup *G = groupOf[o.c];
      McCalib::CameraGroupObs *u =
          go.count({G->cam_group_idx_, o.f}) ? go[{G->cam_group_idx_, o.f}] : nullptr;
      if (!u || !u->object_pose_.count(O->obj_id_)) {
        missing("group view");
        return;
      }
      double *cp = G->relative_camera_pose_[o.c].data(), *op = u->object_pose_[O->obj_id_].data();
      add(o.c != G->id_ref_cam_ ? freed : fixed, cp, 6, vh::cat("camera ", o.c, " in its group"));
      add(freed, op, 6, vh::cat("pose of object ", O->obj_id_, " in frame ", o.f));
      r.chain = {cp, op, rel};
      rows.push_back(r);
    }
    for (auto &g : cal.cam_group_)
      for (int i = 0; i < 6; i++)
        if (g.second->relative_camera_pose_[g.second->id_ref_cam_][i] != 0)
          error = "the reference camera is not the origin of its group";
    for (auto &o : cal.object_3d_)
      for (int i = 0; i < 6; i++)
        if (o.second->relative_board_pose_[o.second->ref_board_id_][i] != 0)
          error = "the reference board is not the origin of its object";
  }
  // is every object seen by a single group?
  bool separable() const {
    std::map<int, int> seen;
    for (auto &g : cal.cams_group_obs_)
      for (auto &o : g.second->object_pose_)
        if (seen.emplace(o.first, g.first.first).first->second != g.first.first)
          return false;
    return true;
  }
  std::vector<double> residuals() const {
    std::vector<double> e;
    for (auto &r : rows) {
      Cam k = w.cams[r.o->c];
      k.fx = r.intr[0], k.fy = r.intr[1], k.u0 = r.intr[2], k.v0 = r.intr[3];
      for (size_t i = 0; i < k.d.size(); i++)
        k.d[i] = r.intr[4 + i];
      Pose p;
      for (auto *q : r.chain)
        p = p * pose(q);
      for (size_t i = 0; i < r.o->ids.size(); i++) {
        cv::Vec2d g = projectModel(k, p(w.boards[r.o->b].pt(r.o->ids[i])));
        e.push_back(g[0] - r.o->px[i].x);
        e.push_back(g[1] - r.o->px[i].y);
      }
    }
    return e;
  }
  static double cost(const std::vector<double> &e) {
    double s = 0;
    for (size_t i = 0; i < e.size(); i += 2) {
      double q = e[i] * e[i] + e[i + 1] * e[i + 1];
      s += q <= 1 ? q : 2 * std::sqrt(q) - 1;
    }
    return s / 2;
  }
  int size() const {
    int n = 0;
    for (auto &b : freed)
      n += b.n;
    return n;
  }
  void perturb(int start, double amount) {
    for (auto &b : freed)
      for (int i = 0; i < b.n; i++) {
        uint64_t h = vh::fnv(vh::cat(b.name, "/", i, "/", start));
        h ^= h >> 29;
        double u = ((int)(h % 21) - 10) / 10.0 * amount;
        if (b.name[0] == 'i')
          b.p[i] += u * (i < 2 ? 0.002 * b.p[i] : i < 4 ? 2 : 0.002);
        else
          b.p[i] += u * (i < 3 ? 0.003 : 0.004);
      }
  }
  double decrease(double *c0out) {
    std::vector<double> e = residuals();
    const int m = (int)e.size(), n = size();
    cv::Mat J(m, n, CV_64F), E(m, 1, CV_64F);
    int a = 0;
    for (auto &b : freed)
      for (int i = 0; i < b.n; i++, a++) {
        double h = 1e-6, keep = b.p[i];
        if (b.name[0] == 'i')
          h = i < 4 ? 1e-3 : 1e-5;
        b.p[i] = keep + h;
        auto p = residuals();
        b.p[i] = keep - h;
        auto q = residuals();
        b.p[i] = keep;
        for (int j = 0; j < m; j++)
          J.at<double>(j, a) = (p[j] - q[j]) / (2 * h);
      }
    for (int j = 0; j < m; j++) {
      int k = j & ~1;
      double s = e[k] * e[k] + e[k + 1] * e[k + 1], wt = std::sqrt(s <= 1 ? 1 : 1 / std::sqrt(s));
      J.row(j) *= wt;
      E.at<double>(j) = e[j] * wt;
    }
    cv::Mat H = J.t() * J, g = J.t() * E;
    const double c0 = cost(e);
    *c0out = c0;
    double best = 0;
    for (double lam : {1e-9, 1e-6, 1e-3}) {
      cv::Mat A = H.clone(), x;
      for (int i = 0; i < n; i++)
        A.at<double>(i, i) += lam * A.at<double>(i, i) + 1e-300;
      if (!cv::solve(A, g, x, cv::DECOMP_CHOLESKY))
        continue;
      std::vector<double> keep;
      int i = 0;
      for (auto &b : freed)
        for (int j = 0; j < b.n; j++) {
          keep.push_back(b.p[j]);
          b.p[j] -= x.at<double>(i++);
        }
      best = std::max(best, (c0 - cost(residuals())) / c0);
      i = 0;
      for (auto &b : freed)
        for (int j = 0; j < b.n; j++)
          b.p[j] = keep[i++];
    }
    return best;
  }
  // corners of the objects, and poses handed to the views, after the stage
  std::string derived() const {
    for (auto &o : cal.object_3d_) {
      std::map<std::pair<int, int>, int> where;
      for (auto &b : o.second->boards_) {
        Pose p = pose(o.second->relative_board_pose_[b.first].data());
        const Brd &B = w.boards[b.first];
        for (int k = 0; k < B.nPts(); k++) {
          auto it = o.second->pts_board_2_obj_.find({b.first, k});
          if (it == o.second->pts_board_2_obj_.end())
            return vh::cat("corner ", k, " of board ", b.first, " is in no object");
          cv::Vec3d x = p(B.pt(k));
          const cv::Point3f &y = o.second->pts_3d_.at(it->second);
          if (cv::norm(x - cv::Vec3d(y.x, y.y, y.z)) > 2e-6)
            return vh::cat("corner ", k, " of board ", b.first, " is ",
                           cv::norm(x - cv::Vec3d(y.x, y.y, y.z)), " from where its board is");
        }
      }
    }
    if (stage == Groups || stage == All || stage == Everything)
      for (auto &g : cal.cams_group_obs_)
        for (auto &v : g.second->object_observations_) {
          auto p = v.second.lock();
          if (!p)
            continue;
          Pose a = pose(p->group_pose_.data()),
               b = pose(g.second->object_pose_.at(p->object_3d_id_).data());
          if (rotAngle(a.R, b.R) > 1e-7 || cv::norm(a.t - b.t) > 1e-9)
            return vh::cat("the view of object ", p->object_3d_id_, " by camera ", p->camera_id_,
                           " in frame ", p->frame_id_, " keeps an old pose");
        }
    return "";
  }
};

// small noise; optionally a few corners beyond the threshold of the robust loss
void noise(std::vector<Obs> &obs, int pattern, bool far) {
  disturb(obs, pattern, 0.3);
  for (auto &o : obs)
    for (size_t i = 0; far && i < o.ids.size(); i++) {
      uint64_t h = vh::fnv(vh::cat(o.b, "/", o.f, "/", o.c, "/", o.ids[i], "/", pattern));
      h ^= h >> 31;
      if (h % 8 == 0)
        (h / 8 % 2 ? o.px[i].x : o.px[i].y) += h / 16 % 2 ? 3.f : -3.f;
    }
}

void prepare(Calibration &cal, Stage s, bool merged) {
  cal.boardExtraction();
  cal.initIntrinsic();
  if (s == Intrinsics)
    return;
  if (s == Objects) {
    cal.computeBoardsPairPose();
    cal.initInterTransform(cal.board_pose_pairs_, cal.inter_board_transform_);
    cal.initInterBoardsGraph();
    cal.init3DObjects();
    cal.initAll3DObjectObs();
    cal.estimatePoseAllObjects();
    return;
  }
  cal.calibrate3DObjects();
  if (!merged) {
    cal.computeCamerasPairPose();
    cal.initInterTransform(cal.camera_pose_pairs_, cal.inter_camera_transform_);
    cal.initInterCamerasGraph();
    cal.initCameraGroup();
    cal.initAllCameraGroupObs();
    cal.computeAllObjPoseInCameraGroup();
    return;
  }
  cal.calibrateCameraGroup();
  cal.merge3DObjects();
  cal.findPairObjectForNonOverlap();
  cal.findPoseNoOverlapAllCamGroup();
  cal.initInterCamGroupGraph();
  cal.mergeCameraGroup();
  cal.mergeAllCameraGroupObs();
  cal.merge3DObjects();
  cal.initInterCamGroupGraph();
  cal.mergeCameraGroup();
  cal.mergeAllCameraGroupObs();
  cal.estimatePoseAllObjects();
  cal.computeAllObjPoseInCameraGroup();
}

void judge(vh::Run &run, vh::Case &c, const World &w, const std::vector<Obs> &obs, Stage s,
           bool merged, int start) {
  Options o;
  o.iterations = 300;
  o.ransac = 20;
  const std::string dir = tempDir(run);
  writeInputs(w, obs, o, dir);
  cv::theRNG().state = vh::fnv(c.id) + run.salt;
  Calibration cal(dir + "/config.yml");
  prepare(cal, s, merged);
  Model m(w, obs, cal, s);
  if (!m.error.empty())
    return c.fail("structure", m.error);
  if (s != Intrinsics && s != Objects && s != Groups && !m.separable())
    return; // groups share an object: not what is claimed
  m.perturb(start + 1000 * run.salt, 1);
  const double before = Model::cost(m.residuals());
  std::vector<std::vector<double>> keep;
  for (auto &b : m.fixed)
    keep.push_back(std::vector<double>(b.p, b.p + b.n));
  switch (s) {
  case Intrinsics:
    cal.refineIntrinsicAndPoseAllCam();
    break;
  case Objects:
    cal.refineAllObject3D();
    break;
  case Groups:
    cal.refineAllCameraGroup();
    break;
  case All:
    cal.refineAllCameraGroupAndObjects();
    break;
  case Everything:
    cal.refineAllCameraGroupAndObjectsAndIntrinsic();
    break;
  }
  c.trace();
  c.step(obs.size());
  for (size_t i = 0; i < keep.size(); i++)
    if (!std::equal(keep[i].begin(), keep[i].end(), m.fixed[i].p))
      return c.fail("untouched", vh::cat("stage ", (char)s, " changes ", m.fixed[i].name));
  double c0 = 0, d = m.decrease(&c0);
  c.state(vh::cat((char)s, merged, m.size(), ":", std::round(before), ":", std::round(c0 * 1000)));
  c.sample(vh::cat("stage ", (char)s, ": cost ", before, " -> ", c0, ", best further decrease ", d,
                   ", ", m.size(), " parameters"));
  if (!(d < 1e-4))
    c.fail(vh::cat("minimum-", (char)s),
           vh::cat("stage ", (char)s, " can be improved: cost ", c0, " decreases by a factor of ", d));
  std::string e = m.derived();
  if (!e.empty())
    c.fail("derived", e);
}
} // namespace
int main(int argc, char **argv) {
  vh::Run run(argc, argv);
  quiet();
  run.retries = 4; // other starts
  auto grid = [&](int C, int F, int B, Stage s, bool merged, int model, int pattern, int stride) {
    World w = World::standard(C, B, F, model, true);
    const int n = C * F * B;
    for (long k = 1; k < 1L << n; k += stride)
      run.run(vh::cat((char)s, merged, "c", C, "f", F, "b", B, "m", model, "_", k, "_n", pattern),
              [&](vh::Case &c) {
                std::vector<Obs> obs;
                int j = 0;
                for (int f = 0; f < F; f++)
                  for (int cam = 0; cam < C; cam++)
                    for (int b = 0; b < B; b++)
                      if (k >> j++ & 1)
                        obs.push_back(w.observe(cam, f, b));
                noise(obs, pattern, pattern % 2);
                judge(run, c, w, obs, s, merged, pattern);
              });
  };
  const int T = run.thorough();
  int q = 0;
  for (int p = 0; p < (T ? 6 : 2); p++)
    for (Stage s : {Objects, Groups, All})
      for (int merged = 0; merged < (s == Objects ? 1 : 2); merged++, q++) {
        grid(2, 2, 2, s, merged, q % 3, p, 1);
        grid(3, 2, 1, s, merged, (q + 1) % 3, p, 1);
        grid(1, 2, 3, s, merged, (q + 2) % 3, p, 1);
        grid(2, 3, 1, s, merged, q % 3, p, 1);
        grid(1, 3, 2, s, merged, (q + 1) % 3, p, 1);
        grid(3, 3, 1, s, merged, q % 3, p, T ? 1 : 7);
        grid(1, 3, 3, s, merged, (q + 1) % 3, p, T ? 1 : 7);
        if (T)
          grid(2, 3, 2, s, merged, (q + 2) % 3, p, 1);
      }
  // stages that free the intrinsics: well observed rigs, each view missing in turn
  for (int C = 1; C <= 3; C++)
    for (int B = 1; B <= 3; B++)
      for (int model = 0; model < 3; model++)
        for (Stage s : {Intrinsics, Everything})
          for (int merged = 0; merged < (s == Intrinsics ? 1 : 2); merged++)
            for (int drop = 0; drop <= (T ? 8 * C * B : 4); drop++)
              for (int p = 0; p < (T ? 3 : 1); p++)
                run.run(vh::cat((char)s, merged, "rig", C, B, model, "_", drop, "_n", p),
                        [&](vh::Case &c) {
                          World w = World::standard(C, B, 8, model, true);
                          std::vector<Obs> obs;
                          int k = 0;
                          for (int f = 0; f < 8; f++)
                            for (int cam = 0; cam < C; cam++)
                              for (int b = 0; b < B; b++)
                                if (++k != (T ? drop : drop * (1 + C * B)))
                                  obs.push_back(w.observe(cam, f, b));
                          noise(obs, p + 3, drop % 2);
                          judge(run, c, w, obs, s, merged, p);
                        });
  // long recordings: none of the many frames, views or corners is forgotten
  struct Long {
    int C, B, F;
  };
  for (const Long &l : std::vector<Long>{{2, 1, 33}, {1, 2, 52}, {2, 1, 70}, {1, 1, 130}, {1, 2, 110}})
    for (Stage s : {Intrinsics, Objects, Groups, All, Everything})
      for (int merged = 0; merged < (s == Intrinsics || s == Objects ? 1 : 2); merged++)
        for (int model = 0; model < (T ? 3 : 2); model++)
          run.run(vh::cat((char)s, merged, "long", l.C, l.B, "_", l.F, "_", model), [&](vh::Case &c) {
            World w = World::standard(l.C, l.B, l.F, model, true);
            std::vector<Obs> obs;
            for (int f = 0; f < l.F; f++)
              for (int cam = 0; cam < l.C; cam++)
                for (int b = 0; b < l.B; b++)
                  obs.push_back(w.observe(cam, f, b));
            noise(obs, l.F + model, model % 2);
            judge(run, c, w, obs, s, merged, model);
          });
  return run.finish();
}
