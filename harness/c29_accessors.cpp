// Poses and intrinsics kept by views, objects, camera groups and cameras: a
// state machine whose state is what was stored last under each key. Every
// reachable state x every operation; after each step every getter is compared
// with the model, in every form.
#include "world.hpp"
#include "McCalib.hpp"
#include <memory>
using namespace world;
using namespace McCalib;
namespace {
struct Val {
  cv::Vec3d r, t;
};
cv::Mat col(const cv::Vec3d &v, bool row) {
  cv::Mat m = (cv::Mat_<double>(3, 1) << v[0], v[1], v[2]);
  if (row)
    m = m.t();
  return m.clone();
}
// one pose that can be stored and read back
struct Slot {
  std::string name;
  std::function<void(const cv::Mat &, const cv::Mat &)> setVec;
  std::function<void(const cv::Mat &)> setMat;
  std::function<void(cv::Mat &, cv::Mat &)> getVec;
  std::function<cv::Mat()> getMat, getRot, getTrans;
};
double worst = 0;
// "" when every getter tells v
std::string check(const Slot &s, const Val &v, bool asMat) {
  auto want = make(v.r[0], v.r[1], v.r[2], v.t[0], v.t[1], v.t[2]);
  const double scale = 1 + cv::norm(v.t);
  auto same = [&](const Pose &p, const char *how) -> std::string {
    double d = 0;
    for (int i = 0; i < 9; i++)
      d = std::max(d, std::fabs(p.R.val[i] - want.R.val[i]));
    d = std::max(d, cv::norm(p.t - want.t) / scale);
    // cv::Rodrigues rounds rotations below 1e-5 to none
    if (!(d <= (cv::norm(v.r) < 1e-4 ? 3e-5 : 1e-9)))
      return vh::cat(s.name, " read by ", how, " is off by ", d);
    if (cv::norm(v.r) >= 1e-4)
      worst = std::max(worst, d);
    return "";
  };
  cv::Mat r(7, 7, CV_8U), t;
  s.getVec(r, t);
  if (r.total() != 3 || t.total() != 3 || r.type() != CV_64F || t.type() != CV_64F)
    return s.name + " is not read as two vectors of three doubles";
  auto vec = [](const cv::Mat &a) {
    return cv::Vec3d(a.at<double>(0), a.at<double>(1), a.at<double>(2));
  };
  cv::Vec3d a = vec(r), b = vec(t), c = vec(s.getRot()), d = vec(s.getTrans());
  if (!asMat && (a != v.r || b != v.t || c != v.r || d != v.t))
    return s.name + " stored as vectors is not read back as it was stored";
  if (a != c || b != d)
    return s.name + " has two different readings";
  std::string e = same(make(a[0], a[1], a[2], b[0], b[1], b[2]), "vectors");
  if (!e.empty())
    return e;
  cv::Mat m = s.getMat();
  if (m.rows != 4 || m.cols != 4 || m.type() != CV_64F)
    return s.name + " is not read as a 4x4 matrix";
  if (m.at<double>(3, 0) != 0 || m.at<double>(3, 1) != 0 || m.at<double>(3, 2) != 0 ||
      m.at<double>(3, 3) != 1)
    return s.name + ": last row of the matrix";
  e = same(fromMat(m), "matrix");
  if (!e.empty())
    return e;
  // what was handed out belongs to the caller
  r.setTo(77), t.setTo(77), m.setTo(77);
  cv::Mat q = s.getRot();
  q.setTo(77);
  q = s.getTrans();
  q.setTo(77);
  if (vec(s.getRot()) != c || vec(s.getTrans()) != d)
    return s.name + " changes when the value read is written to";
  return "";
}
void store(const Slot &s, const Val &v, int form) {
  if (form == 0 || form == 1) {
    cv::Mat r = col(v.r, form), t = col(v.t, form);
    s.setVec(r, t);
    r.setTo(55), t.setTo(55); // the caller's own again
  } else {
    cv::Mat m = toMat(make(v.r[0], v.r[1], v.r[2], v.t[0], v.t[1], v.t[2]));
    cv::Mat big(6, 7, CV_64F, cv::Scalar(9)), p;
    if (form == 3) { // part of a larger matrix
      p = big(cv::Rect(2, 1, 4, 4));
      m.copyTo(p);
    } else
      p = m;
    s.setMat(p);
    p.setTo(55);
  }
}
struct Things {
  std::shared_ptr<Camera> cam[2];
  std::shared_ptr<Board> board;
  std::shared_ptr<Object3D> obj;
  std::vector<std::shared_ptr<void>> keep;
  std::vector<Slot> slots;
};
#define SLOT(what, o, SV, SM, GV, GM, GR, GT)                                                      \
  v.push_back(Slot{what, [=](const cv::Mat &r, const cv::Mat &t) { o->SV; },                       \
                   [=](const cv::Mat &m) { o->SM; }, [=](cv::Mat &r, cv::Mat &t) { o->GV; },        \
                   [=] { return o->GM; }, [=] { return o->GR; }, [=] { return o->GT; }})
std::vector<Slot> slots(int kind, Calibration &cal, std::vector<std::shared_ptr<void>> &keep) {
  std::vector<Slot> v;
  const std::vector<cv::Point2f> px(4);
  auto cam = cal.cams_[0];
  auto board = cal.boards_3d_[0];
  auto obj = std::make_shared<Object3D>(2, 0, 0, std::array<int, 3>{1, 2, 3});
  obj->insertBoardInObject(cal.boards_3d_[0]);
  obj->insertBoardInObject(cal.boards_3d_[1]);
  keep.push_back(obj);
  if (kind == 0)
    for (int k = 0; k < 2; k++) {
      auto o = std::make_shared<BoardObs>(0, k, 0, px, std::vector<int>{0, 1, 2, 3}, cam, board);
      keep.push_back(o);
      SLOT(vh::cat("pose of board view ", k), o, setPoseVec(r, t), setPoseMat(m), getPoseVec(r, t),
           getPoseMat(), getRotVec(), getTransVec());
    }
  if (kind == 1) {
    auto o = std::make_shared<Object3DObs>(obj, 0);
    keep.push_back(o);
    SLOT("pose of object view", o, setPoseVec(r, t), setPoseMat(m), getPoseVec(r, t), getPoseMat(),
         getRotVec(), getTransVec());
    SLOT("pose of object view in its group", o, setPoseInGroupVec(r, t), setPoseInGroupMat(m),
         getPoseInGroupVec(r, t), getPoseInGroupMat(), getRotInGroupVec(), getTransInGroupVec());
  }
  if (kind == 2)
    for (int k : {1, 0}) {
      auto o = obj;
      SLOT(vh::cat("pose of board ", k, " in object"), o, setBoardPoseVec(k, r, t),
           setBoardPoseMat(k, m), getBoardPoseVec(k, r, t), getBoardPoseMat(k), getBoardRotVec(k),
           getBoardTransVec(k));
    }
  if (kind == 3 || kind == 4) {
    auto g = std::make_shared<CameraGroup>(0, 0);
    keep.push_back(g);
    if (kind == 3)
      for (int k : {1, 12}) {
        auto o = g;
        SLOT(vh::cat("pose of camera ", k, " in group"), o, setCameraPoseVec(r, t, k),
             setCameraPoseMat(m, k), getCameraPoseVec(k, r, t), getCameraPoseMat(k),
             getCameraRotVec(k), getCameraTransVec(k));
      }
    else {
      auto o = std::make_shared<CameraGroupObs>(g, true);
      keep.push_back(o);
      for (int k : {0, 5})
        SLOT(vh::cat("pose of object ", k, " in group view"), o, setObjectPoseVec(r, t, k),
             setObjectPoseMat(m, k), getObjectPoseVec(k, r, t), getObjectPoseMat(k),
             getObjectRotVec(k), getObjectTransVec(k));
    }
  }
  return v;
}
} // namespace
int main(int argc, char **argv) {
  vh::Run run(argc, argv);
  quiet();
  const bool T = run.thorough();
  World w = World::standard(2, 2, 3, 2, true);
  std::vector<Val> val;
  const double PI = 3.14159265358979;
  const cv::Vec3d axis[] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {.6, -.8, 0}, {1. / 3, 2. / 3, -2. / 3}};
  for (int a = 0; a < 5; a++)
    for (double th : {0., 1e-7, 1e-3, 0.7, 1.9, PI - 1e-3}) {
      if (!T && (a + (int)(th * 10)) % 2)
        continue;
      const double n = 1 + val.size();
      val.push_back({axis[a] * th, cv::Vec3d(0.1 * n, -0.37 * n, 1 / n) * (val.size() % 4 == 3 ? 1e4 : 1)});
    }
  val.push_back({{0, 0, 0}, {0, 0, 0}});
  const int N = (int)val.size();
  // 1. poses: state = last value and form stored in each of two slots
  static const char *KIND[5] = {"board view", "object view", "object", "camera group", "group view"};
  for (int kind = 0; kind < 5; kind++)
    for (int a = 0; a < N; a++)
      for (int fa = 0; fa < 4; fa++)
        run.run(vh::cat("pose_", kind, "_", a, "_", fa), [&](vh::Case &c) {
          std::string dir = tempDir(run);
          writeInputs(w, {}, {}, dir);
          Calibration cal(dir + "/config.yml");
          std::vector<std::shared_ptr<void>> keep;
          auto s = slots(kind, cal, keep);
          for (int first = 0; first < 2; first++)
            for (int b = 0; b < N; b++)
              for (int fb = 0; fb < 4; fb++) {
                // both slots, then the first one again with the value of the other
                struct Op {
                  int slot, v, f;
                };
                const Op ops[3] = {{first, a, fa}, {1 - first, b, fb}, {first, b, (fa + fb + 1) % 4}};
                int last[2] = {-1, -1}, form[2] = {0, 0};
                for (auto &o : ops) {
                  store(s[o.slot], val[o.v], o.f);
                  last[o.slot] = o.v, form[o.slot] = o.f;
                  c.step();
                  for (int k = 0; k < 2; k++)
                    if (last[k] >= 0) {
                      std::string e = check(s[k], val[last[k]], form[k] > 1);
                      if (!e.empty())
                        return c.fail(KIND[kind], vh::cat(e, " (values ", a, ",", b, " forms ", fa, fb, ")"));
                    }
                }
                c.state(vh::cat(kind, a, fa, first, b, fb));
                c.trace();
              }
          c.sample(vh::cat(KIND[kind], ": largest difference ", worst));
        });
  // 2. intrinsics of two cameras of either model: K, distortion, or both
  for (int model = 0; model < 4; model++)
    for (int a = 0; a < 6; a++)
      for (int b = 0; b < 6; b++)
        run.run(vh::cat("intrinsics_", model, "_", a, "_", b), [&](vh::Case &c) {
          std::shared_ptr<Camera> cam[2] = {std::make_shared<Camera>(0, model & 1),
                                            std::make_shared<Camera>(1, model >> 1)};
          auto K = [](int i) {
            return (cv::Mat)(cv::Mat_<double>(3, 3) << 500 + i, 0, 300 - 2 * i, 0, 510 + 3 * i,
                             200 + i / 7., 0, 0, 1);
          };
          auto D = [&](int k, int i) {
            const int n = (k ? model >> 1 : model & 1) ? 4 : 5;
            cv::Mat d(1, n, CV_64F);
            for (int j = 0; j < n; j++)
              d.at<double>(j) = i == 5 ? 0 : 0.01 * (j + 1) * (i % 2 ? -1 : 1) + 1e-3 * i;
            return d;
          };
          int lk[2], ld[2];
          for (int k = 0; k < 2; k++) {
            cam[k]->setIntrinsics(K(0), D(k, 0));
            lk[k] = ld[k] = 0;
          }
          for (int op = 0; op < 6 * 6 * 4; op++) {
            const int k = op & 1, v = op / 2 % 6, what = op / 12 % 3, r = op % 5;
            cv::Mat m = K(what == 1 ? a : v), d = D(k, what == 0 ? b : v);
            if (r == 0) // as a column
              d = d.t();
            if (what == 0)
              cam[k]->setCameraMat(m), lk[k] = v;
            if (what == 1)
              cam[k]->setDistortionVector(d), ld[k] = v;
            if (what == 2)
              cam[k]->setIntrinsics(m, d), lk[k] = ld[k] = v;
            m.setTo(1), d.setTo(1);
            c.step();
            for (int q = 0; q < 2; q++) {
              cv::Mat gk, gd, wk = K(lk[q]), wd = D(q, ld[q]);
              cam[q]->getIntrinsics(gk, gd);
              cv::Mat hk = cam[q]->getCameraMat(), hd = cam[q]->getDistortionVectorVector();
              for (auto *x : {&gk, &hk})
                if (x->size() != wk.size() || x->type() != CV_64F || cv::norm(*x, wk, cv::NORM_INF) != 0)
                  return c.fail("intrinsics", vh::cat("camera matrix of camera ", q, " after step ", op));
              for (auto *x : {&gd, &hd})
                if (x->total() != wd.total() || x->type() != CV_64F ||
                    cv::norm(x->reshape(1, 1), wd, cv::NORM_INF) != 0)
                  return c.fail("intrinsics", vh::cat("distortion of camera ", q, " after step ", op));
              gk.setTo(3), gd.setTo(3), hk.setTo(3), hd.setTo(3);
            }
          }
          c.state(c.id);
          c.trace();
        });
  // 3. the error of a view is the mean distance for what is stored now
  for (int model = 0; model < 2; model++)
    for (int m = 1; m < 1 << 6; m++)
      run.run(vh::cat("error_", model, "_", m), [&](vh::Case &c) {
        World q = World::standard(2, 2, 3, model, true);
        q.boards[0].nx = q.boards[1].nx = 4, q.boards[0].ny = q.boards[1].ny = 3;
        std::string dir = tempDir(run);
        std::vector<Obs> obs;
        for (int b = 0; b < 2; b++) {
          Obs o = q.observe(0, 0, b), p = o;
          p.ids.clear(), p.px.clear();
          for (int i = 0; i < 6; i++)
            if ((m >> (b ? 5 - i : i)) & 1) {
              p.ids.push_back(o.ids[i]);
              p.px.push_back(o.px[i] + cv::Point2f(0.5f * i - 1, 0.25f * (m % 7)));
            }
          obs.push_back(p);
        }
        writeInputs(q, obs, {}, dir);
        Calibration cal(dir + "/config.yml");
        cal.cams_[0]->setIntrinsics((cv::Mat_<double>(3, 3) << q.cams[0].fx, 0, q.cams[0].u0, 0,
                                     q.cams[0].fy, q.cams[0].v0, 0, 0, 1),
                                    cv::Mat(q.cams[0].d, true).t());
        std::vector<std::shared_ptr<BoardObs>> view;
        for (auto &o : obs)
          view.push_back(std::make_shared<BoardObs>(0, 0, o.b, o.px, o.ids, cal.cams_[0],
                                                    cal.boards_3d_[o.b]));
        auto obj = std::make_shared<Object3D>(2, 0, 0, std::array<int, 3>{1, 2, 3});
        obj->insertBoardInObject(cal.boards_3d_[0]);
        obj->insertBoardInObject(cal.boards_3d_[1]);
        Pose rel = q.relBoard(0, 1);
        if (m % 3 == 0)
          rel = rel * make(0.1, 0.2, -0.1, 0.03, 0.02, 0.01);
        obj->setBoardPoseMat(0, toMat(Pose()));
        obj->setBoardPoseMat(1, toMat(rel));
        for (int b : {1, 0}) // the points of the boards in any order
          for (int i = 0; i < 6; i++) {
            const int id = m % 2 ? i : 5 - i;
            obj->pts_board_2_obj_[{b, id}] = (int)obj->pts_3d_.size();
            obj->pts_obj_2_board_.push_back({b, id});
            obj->pts_3d_.push_back({});
          }
        obj->updateObjectPts();
        for (int b = 0; b < 2; b++)
          for (int i = 0; i < 6; i++) {
            const cv::Vec3d x = b ? rel(q.boards[b].pt(i)) : q.boards[b].pt(i);
            const cv::Point3f y = obj->pts_3d_[obj->pts_board_2_obj_[{b, i}]];
            if (!(cv::norm(x - cv::Vec3d(y.x, y.y, y.z)) < 1e-5))
              return c.fail("points of object", vh::cat("board ", b, " corner ", i));
          }
        auto ov = std::make_shared<Object3DObs>(obj, 0);
        for (auto &v : view)
          ov->insertNewBoardObs(v);
        for (int k = 0; k < 4; k++) { // the pose changes, so does the error
          const Pose p0 = q.camFromBoard(0, 0, 0) * make(0.01 * k, -0.005 * k, 0.02, 0.002 * k, 0, 0);
          double all = 0;
          int n = 0;
          for (int b = 0; b < 2; b++) {
            const Pose p = b ? p0 * rel : p0;
            view[b]->setPoseMat(toMat(p));
            double sum = 0;
            for (size_t i = 0; i < obs[b].ids.size(); i++)
              sum += cv::norm(projectModel(q.cams[0], p(q.boards[b].pt(obs[b].ids[i]))) -
                              cv::Vec2d(obs[b].px[i].x, obs[b].px[i].y));
            all += sum, n += (int)obs[b].ids.size();
            const double got = view[b]->computeReprojectionError();
            if (!(std::fabs(got - sum / obs[b].ids.size()) < 2e-3))
              return c.fail("error of view", vh::cat("board ", b, ": ", got, " for ", sum / obs[b].ids.size()));
            c.step();
          }
          ov->setPoseMat(toMat(p0));
          const double got = ov->computeReprojectionError();
          if (!(std::fabs(got - all / n) < 2e-3))
            return c.fail("error of object view", vh::cat(got, " for ", all / n));
          c.step();
        }
        c.state(c.id);
        c.trace();
      });
  run.extra["largest_difference"] = vh::cat(worst);
  return run.finish();
}
