// For data that no parameters fit exactly, what is written is a minimum of the
// robust reprojection error: an independent Levenberg-Marquardt step computed
// from the written files cannot lower it.
#include "world.hpp"
using namespace world;
namespace {
struct Problem {
  const World &w;
  const std::vector<Obs> &obs;
  const Result &r;
  bool intrinsics;
  std::vector<Cam> cams;          // written intrinsics
  std::vector<Pose> camPose;      // reference -> camera
  std::vector<char> camFree;
  std::map<int, Pose> board;      // board -> object
  std::map<int, int> objectOf;
  std::set<int> refBoard;
  struct Image { // an object in the frame of a group
    int g, f, o;
    Pose p;
  };
  std::vector<Image> im;
  std::map<std::array<int, 3>, int> imIdx;
  std::string error;
  // parameter layout
  struct Block {
    char kind; // c camera pose, k intrinsics, b board, o object pose
    int id, n;
  };
  std::vector<Block> blocks;
  int n = 0;

  static Pose bump(const Pose &p, const double *d) {
    Pose q;
    q.R = rotvec(d[0], d[1], d[2]) * p.R;
    q.t = p.t + cv::Vec3d(d[3], d[4], d[5]);
    return q;
  }
  Problem(const World &w, const std::vector<Obs> &obs, const Result &r, bool intr)
      : w(w), obs(obs), r(r), intrinsics(intr) {
    std::set<int> groups;
    for (size_t c = 0; c < r.cams.size(); c++) {
      Cam k = w.cams[c];
      const CamOut &q = r.cams[c];
      bool fr = false;
      if (q.present) {
        k.fx = q.K.at<double>(0, 0), k.fy = q.K.at<double>(1, 1);
        k.u0 = q.K.at<double>(0, 2), k.v0 = q.K.at<double>(1, 2);
        for (size_t i = 0; i < k.d.size(); i++)
          k.d[i] = q.D.at<double>((int)i);
        fr = !groups.insert(q.group).second;
      }
      cams.push_back(k);
      camPose.push_back(q.present ? q.pose.inv() : Pose());
      camFree.push_back(fr);
      if (q.present && intr)
        blocks.push_back({'k', (int)c, 4 + (int)k.d.size()});
      if (fr)
        blocks.push_back({'c', (int)c, 6});
    }
    // board -> object pose from the written corners
    for (auto &o : r.objs) {
      const cv::Mat &P = o.second.pts;
      std::map<int, std::map<int, cv::Vec3d>> x;
      for (int i = 0; i < P.cols; i++)
        x[(int)std::lround(P.at<float>(3, i))][(int)std::lround(P.at<float>(4, i))] = {
            P.at<float>(0, i), P.at<float>(1, i), P.at<float>(2, i)};
      bool first = true;
      for (auto &b : x) {
        objectOf[b.first] = o.first;
        const Brd &B = w.boards[b.first];
        cv::Vec3d ex = b.second[B.nx - 2] - b.second[0],
                  ey = b.second[(B.nx - 1) * (B.ny - 2)] - b.second[0];
        ex /= cv::norm(ex);
        ey -= ex * ex.dot(ey);
        ey /= cv::norm(ey);
        cv::Vec3d ez = ex.cross(ey);
        Pose p;
        for (int i = 0; i < 3; i++)
          p.R(i, 0) = ex[i], p.R(i, 1) = ey[i], p.R(i, 2) = ez[i];
        p.t = b.second[0];
        for (auto &q : b.second)
          if (cv::norm(p(B.pt(q.first)) - q.second) > 2e-6)
            error = vh::cat("board ", b.first, " is deformed in its object by ",
                            cv::norm(p(B.pt(q.first)) - q.second));
        board[b.first] = p;
        if (first) {
          refBoard.insert(b.first);
          if (rotAngle(p.R, cv::Matx33d::eye()) > 1e-5 || cv::norm(p.t) > 1e-5)
            error = vh::cat("reference board ", b.first, " is not at the origin");
        } else
          blocks.push_back({'b', b.first, 6});
        first = false;
      }
    }
    std::map<std::array<int, 3>, std::vector<const Obs *>> by;
    for (auto &o : obs)
      by[{r.cams[o.c].group, o.f, objectOf[o.b]}].push_back(&o);
    for (auto &b : by) {
      const cv::Mat &m = r.objs.at(b.first[2]).poses;
      double best = 1e300;
      Image I{b.first[0], b.first[1], b.first[2], {}};
      for (int j = 0; j < m.cols; j++) {
        Pose p = make(m.at<double>(0, j), m.at<double>(1, j), m.at<double>(2, j),
                      m.at<double>(3, j), m.at<double>(4, j), m.at<double>(5, j));
        double s = 0;
        for (auto *o : b.second)
          for (size_t i = 0; i < o->ids.size(); i++) {
            cv::Vec2d g = projectModel(
                cams[o->c], camPose[o->c](p(board[o->b](w.boards[o->b].pt(o->ids[i])))));
            s += std::hypot(g[0] - o->px[i].x, g[1] - o->px[i].y);
          }
        if (s < best)
          best = s, I.p = p;
      }
      imIdx[b.first] = (int)im.size();
      blocks.push_back({'o', (int)im.size(), 6});
      im.push_back(I);
    }
    for (auto &b : blocks)
      n += b.n;
  }
  std::vector<double> residuals(const std::vector<double> &d) const {
    std::vector<Cam> k = cams;
    std::vector<Pose> cp = camPose;
    std::map<int, Pose> bp = board;
    std::vector<Pose> op;
    for (auto &i : im)
      op.push_back(i.p);
    int a = 0;
    for (auto &b : blocks) {
      const double *q = d.data() + a;
      if (b.kind == 'c')
        cp[b.id] = bump(cp[b.id], q);
      if (b.kind == 'b')
        bp[b.id] = bump(bp[b.id], q);
      if (b.kind == 'o')
        op[b.id] = bump(op[b.id], q);
      if (b.kind == 'k') {
        k[b.id].fx += q[0], k[b.id].fy += q[1], k[b.id].u0 += q[2], k[b.id].v0 += q[3];
        for (int i = 4; i < b.n; i++)
          k[b.id].d[i - 4] += q[i];
      }
      a += b.n;
    }
    std::vector<double> e;
    for (auto &o : obs) {
      const Pose p = cp[o.c] * op[imIdx.at({r.cams[o.c].group, o.f, objectOf.at(o.b)})] * bp[o.b];
      for (size_t i = 0; i < o.ids.size(); i++) {
        cv::Vec2d g = projectModel(k[o.c], p(w.boards[o.b].pt(o.ids[i])));
        e.push_back(g[0] - o.px[i].x);
        e.push_back(g[1] - o.px[i].y);
      }
    }
    return e;
  }
  static double cost(const std::vector<double> &e) {
    double s = 0;
    for (size_t i = 0; i < e.size(); i += 2) {
      double q = e[i] * e[i] + e[i + 1] * e[i + 1];
      s += q <= 1 ? q : 2 * std::sqrt(q) - 1;
    }
    return s / 2;
  }
  // best relative decrease of the cost over damped Gauss-Newton steps
  double decrease(double *c0out) const {
    std::vector<double> zero(n, 0), e = residuals(zero);
    const int m = (int)e.size();
    cv::Mat J(m, n, CV_64F), W(m, 1, CV_64F), E(m, 1, CV_64F);
    int a = 0;
    for (auto &b : blocks)
      for (int i = 0; i < b.n; i++, a++) {
        double h = 1e-6;
        if (b.kind == 'k')
          h = i < 4 ? 1e-3 : 1e-5;
        std::vector<double> d = zero;
        d[a] = h;
        auto p = residuals(d);
        d[a] = -h;
        auto q = residuals(d);
        for (int j = 0; j < m; j++)
          J.at<double>(j, a) = (p[j] - q[j]) / (2 * h);
      }
    for (int j = 0; j < m; j += 2) {
      double s = e[j] * e[j] + e[j + 1] * e[j + 1], wt = s <= 1 ? 1 : 1 / std::sqrt(s);
      W.at<double>(j) = W.at<double>(j + 1) = std::sqrt(wt);
    }
    for (int j = 0; j < m; j++) {
      J.row(j) *= W.at<double>(j);
      E.at<double>(j) = e[j] * W.at<double>(j);
    }
    cv::Mat H = J.t() * J, g = J.t() * E;
    const double c0 = cost(e);
    *c0out = c0;
    double best = 0;
    for (double lam : {1e-9, 1e-6, 1e-3}) {
      cv::Mat A = H.clone(), x;
      for (int i = 0; i < n; i++)
        A.at<double>(i, i) += lam * A.at<double>(i, i) + 1e-300;
      if (!cv::solve(A, g, x, cv::DECOMP_CHOLESKY))
        continue;
      std::vector<double> d(n);
      for (int i = 0; i < n; i++)
        d[i] = -x.at<double>(i);
      best = std::max(best, (c0 - cost(residuals(d))) / c0);
    }
    return best;
  }
};
void judge(vh::Run &run, vh::Case &c, const World &w, const std::vector<Obs> &obs, const Options &o,
           double slack, double tol) {
  Result r = calibrate(w, obs, o, tempDir(run));
  c.trace();
  c.step(obs.size());
  if (r.rc != 0)
    return c.fail("rc", vh::cat("exit status ", r.rc));
  for (auto &x : obs)
    if (!r.cams[x.c].present)
      return c.fail("missing", "an observed camera is not written");
  // what is claimed: every object is seen by a single group
  std::map<int, int> ob, grp;
  for (auto &q : r.objs)
    for (int i = 0; i < q.second.pts.cols; i++)
      ob[(int)std::lround(q.second.pts.at<float>(3, i))] = q.first;
  for (auto &x : obs) {
    auto it = grp.emplace(ob[x.b], r.cams[x.c].group).first;
    if (it->second != r.cams[x.c].group)
      return;
  }
  Problem p(w, obs, r, !o.fix_intrinsic);
  if (!p.error.empty())
    return c.fail("form", p.error);
  double c0 = 0, d = p.decrease(&c0);
  c.state(vh::cat(resultPartition(r).key(), std::round(c0 * 1000)));
  c.sample(vh::cat("cost ", c0, ", best further decrease ", d, ", ", p.n, " parameters"));
  if (!(d < slack))
    c.fail("minimum", vh::cat("the written result can be improved: cost ", c0,
                              " decreases by a factor of ", d));
  if (tol > 0) {
    std::string e = compareWithTruth(w, obs, r, tol);
    if (!e.empty())
      c.fail("truth", e);
  }
}
} // namespace
int main(int argc, char **argv) {
  vh::Run run(argc, argv);
  quiet();
  auto grid = [&](int C, int F, int B, int model, int pattern, int stride) {
    World w = World::standard(C, B, F, model, true);
    const int n = C * F * B;
    for (long m = 1; m < 1L << n; m += stride)
      run.run(vh::cat("c", C, "f", F, "b", B, "m", model, "_", m, "_n", pattern), [&](vh::Case &c) {
        std::vector<Obs> obs;
        int k = 0;
        for (int f = 0; f < F; f++)
          for (int cam = 0; cam < C; cam++)
            for (int b = 0; b < B; b++)
              if (m >> k++ & 1)
                obs.push_back(w.observe(cam, f, b));
        disturb(obs, pattern, 0.4);
        Options o;
        o.iterations = 300;
        o.ransac = 20;
        judge(run, c, w, obs, o, 1e-4, 0);
      });
  };
  for (int p = 0; p < (run.thorough() ? 8 : 4); p++) {
    grid(2, 2, 2, p % 3, p, 1);
    grid(1, 3, 3, (p + 1) % 3, p, run.thorough() ? 1 : 3);
    grid(3, 3, 1, (p + 2) % 3, p, run.thorough() ? 1 : 3);
    grid(2, 3, 2, p % 3, p, run.thorough() ? 1 : 13);
  }
  // well observed rigs, intrinsics fixed or free, several amplitudes
  for (int C = 1; C <= 3; C++)
    for (int B = 1; B <= 3; B++)
      for (int model = 0; model < 3; model++)
        for (int fix = 0; fix < 2; fix++)
          for (int amp = 0; amp < 3; amp++)
            for (int p = 0; p < (run.thorough() ? 6 : 1); p++)
              run.run(vh::cat("rig", C, B, model, fix, amp, "_", p), [&](vh::Case &c) {
                const double A[3] = {0.05, 0.4, 1.5};
                World w = World::standard(C, B, 8, model, true);
                std::vector<Obs> obs;
                for (int f = 0; f < 8; f++)
                  for (int k = 0; k < C; k++)
                    for (int b = 0; b < B; b++)
                      obs.push_back(w.observe(k, f, b));
                disturb(obs, p + 11, A[amp]);
                Options o;
                o.fix_intrinsic = fix;
                o.iterations = 300;
                o.ransac = 20;
                judge(run, c, w, obs, o, 1e-4, fix ? 0.02 * A[amp] + 1e-3 : 0);
              });
  // long recordings
  for (int F : {40, 70, 110})
    for (int shape = 0; shape < 3; shape++)
      for (int fix = 0; fix < 2; fix++)
        for (int model = 0; model < (run.thorough() ? 3 : 1); model++)
          run.run(vh::cat("long", F, "_", shape, fix, model), [&](vh::Case &c) {
            const int C = shape == 0 ? 1 : 2, B = shape == 1 ? 1 : 2;
            World w = World::standard(C, B, F, model, true);
            std::vector<Obs> obs;
            for (int f = 0; f < F; f++)
              for (int k = 0; k < C; k++)
                for (int b = 0; b < B; b++)
                  obs.push_back(w.observe(k, f, b));
            disturb(obs, F + shape, 0.3);
            Options o;
            o.fix_intrinsic = fix;
            o.iterations = 300;
            o.ransac = 20;
            judge(run, c, w, obs, o, 1e-4, fix ? 0.007 : 0);
          });
  return run.finish();
}
