// What must not matter does not matter: the unit of length, the numbers of the
// frames, the numbering of cameras and boards, cameras and boards that are
// never seen, and observations that share nothing with the others.
#include "world.hpp"
#include <numeric>
using namespace world;
namespace {
struct Var {
  std::string name;
  double scale = 1;
  int frames = 0;           // 0 as they are, 1 spread to large numbers, 2 reversed, 3 shifted
  std::vector<int> cam, brd; // new number of every camera / board (empty: the same)
  int extra = 0;             // 1 strangers with higher numbers, 2 with lower ones
};
int frameNumber(const Var &v, int f, int F) {
  static const int S[8] = {0, 7, 255, 256, 999, 1000, 65536, 1000003};
  switch (v.frames) {
  case 1:
    return f < 8 ? S[f] : 1000003 + 10 * f;
  case 2:
    return F - 1 - f;
  case 3:
    return f + 998;
  }
  return f;
}
struct Image {
  std::vector<std::set<int>> groups, objects;
  std::map<int, int> points;                   // object (lowest board) -> points
  std::map<std::pair<int, int>, int> covered; // camera, frame -> points reported
  std::vector<std::vector<cv::Vec2d>> pred;
  std::map<int, std::vector<double>> intr;
  std::map<int, Pose> pose; // relative to the lowest camera of the group
  std::map<std::pair<int, int>, cv::Vec3d> pts;
};
struct Scene {
  World w;
  std::vector<Obs> obs;
  int F;
  Options o;
};
std::string look(vh::Run &run, const Scene &s, const Var &v, Image &im) {
  auto cam = [&](int c) { return v.cam.empty() ? c : v.cam[c]; };
  auto brd = [&](int b) { return v.brd.empty() ? b : v.brd[b]; };
  int nc = 0, nb = 0, c0 = 0, b0 = 0;
  for (int c = 0; c < (int)s.w.cams.size(); c++)
    nc = std::max(nc, cam(c) + 1);
  for (int b = 0; b < (int)s.w.boards.size(); b++)
    nb = std::max(nb, brd(b) + 1);
  // strangers: two cameras and two boards of their own, in their own frames
  World x = World::standard(2, 2, 3, s.w.cams[0].model, true);
  if (v.extra == 2)
    c0 = 2, b0 = 2;
  World w = World::standard(nc + (v.extra ? 2 : 0), nb + (v.extra ? 2 : 0), 0, 0, true);
  for (int c = 0; c < (int)s.w.cams.size(); c++)
    w.cams[c0 + cam(c)] = s.w.cams[c];
  for (int b = 0; b < (int)s.w.boards.size(); b++)
    w.boards[b0 + brd(b)] = s.w.boards[b];
  const int xc = v.extra == 2 ? 0 : nc, xb = v.extra == 2 ? 0 : nb;
  std::vector<Obs> obs;
  std::map<int, int> frameOf;
  int last = 0, maxF = 0;
  for (int f = 0; f < s.F; f++) {
    frameOf[frameNumber(v, f, s.F)] = f;
    maxF = std::max(maxF, frameNumber(v, f, s.F));
  }
  (void)last;
  if (v.extra) {
    for (int k = 0; k < 2; k++)
      w.cams[xc + k] = x.cams[k], w.boards[xb + k] = x.boards[k];
    for (int f = 0; f < 3; f++)
      for (int k = 0; k < 2; k++)
        for (int b = 0; b < 2; b++) {
          Obs q = x.observe(k, f, b);
          q.c += xc, q.b += xb;
          q.f = v.extra == 1 ? maxF + 1 + f : maxF + 5 + f;
          obs.push_back(q);
        }
  }
  for (const Obs &q : s.obs) {
    Obs r = q;
    r.c = c0 + cam(q.c), r.b = b0 + brd(q.b), r.f = frameNumber(v, q.f, s.F);
    obs.push_back(r);
  }
  for (auto &b : w.boards)
    b.sq *= v.scale;
  const Options &o = s.o;
  vh::seedRandomDevice(17 + run.salt);
  Result r = calibrate(w, obs, o, tempDir(run));
  if (r.rc)
    return vh::cat("exit status ", r.rc);
  std::map<int, int> camBack, brdBack;
  for (int c = 0; c < (int)s.w.cams.size(); c++)
    camBack[c0 + cam(c)] = c;
  for (int b = 0; b < (int)s.w.boards.size(); b++)
    brdBack[b0 + brd(b)] = b;
  // structure in the original numbering
  std::map<int, std::set<int>> g;
  for (int c = 0; c < (int)r.cams.size(); c++)
    if (r.cams[c].present && camBack.count(c))
      g[r.cams[c].group].insert(camBack[c]);
    else if (r.cams[c].present && !(v.extra && c >= xc && c < xc + 2))
      return vh::cat("camera ", c, " is written although it saw nothing");
  for (auto &q : g)
    im.groups.push_back(q.second);
  std::sort(im.groups.begin(), im.groups.end());
  for (auto &q : r.objs) {
    std::set<int> bs;
    int n = 0;
    for (int i = 0; i < q.second.pts.cols; i++) {
      const int b = (int)std::lround(q.second.pts.at<float>(3, i));
      if (!brdBack.count(b))
        continue;
      bs.insert(brdBack[b]);
      n++;
      im.pts[{brdBack[b], (int)std::lround(q.second.pts.at<float>(4, i))}] =
          cv::Vec3d(q.second.pts.at<float>(0, i), q.second.pts.at<float>(1, i),
                    q.second.pts.at<float>(2, i)) *
          (1 / v.scale);
    }
    if (bs.empty())
      continue;
    if (n != q.second.pts.cols)
      return "an object contains boards that were never seen together";
    im.objects.push_back(bs);
    im.points[*bs.begin()] = n;
  }
  std::sort(im.objects.begin(), im.objects.end());
  for (auto &G : r.groups)
    for (auto &f : G.frames)
      for (auto &k : f.cams)
        if (camBack.count(k.cam)) {
          if (!frameOf.count(f.frame))
            return vh::cat("camera ", k.cam, " is reported in frame ", f.frame);
          im.covered[{camBack[k.cam], frameOf[f.frame]}] += k.nb;
        }
  std::vector<Obs> mine(obs.begin() + (v.extra ? 12 : 0), obs.end());
  std::string e = predict(w, mine, r, im.pred);
  if (!e.empty())
    return e;
  for (auto &grp : im.groups) {
    const Pose ref = r.cams[c0 + cam(*grp.begin())].pose;
    for (int c : grp) {
      const CamOut &k = r.cams[c0 + cam(c)];
      Pose p = ref.inv() * k.pose;
      p.t *= 1 / v.scale;
      im.pose[c] = p;
      for (int i : {0, 4, 2, 5})
        im.intr[c].push_back(k.K.at<double>(i / 3, i % 3));
    }
  }
  return "";
}
// distances between corners of one board, independent of the reference board
double shapeDiff(const Image &a, const Image &b, const std::vector<std::set<int>> &objects) {
  double worst = 0;
  for (auto &o : objects) {
    std::vector<std::pair<int, int>> keys;
    for (auto &p : a.pts)
      if (o.count(p.first.first))
        keys.push_back(p.first);
    for (size_t i = 0; i < keys.size(); i++) {
      if (!b.pts.count(keys[i]))
        return 1e300;
      const size_t j = (i * 7 + 3) % keys.size();
      worst = std::max(worst, std::fabs(cv::norm(a.pts.at(keys[i]) - a.pts.at(keys[j])) -
                                        cv::norm(b.pts.at(keys[i]) - b.pts.at(keys[j]))));
    }
  }
  return worst;
}
void judge(vh::Run &run, vh::Case &c, const Scene &s, const std::vector<Var> &vars, double tol,
           double tolK, double tolT) {
  Image ref;
  std::string e = look(run, s, Var{"as it is"}, ref);
  c.trace();
  if (!e.empty())
    return c.fail("run", "as it is: " + e);
  // an object seen by two groups is refined by one after the other
  bool shared = false;
  for (auto &o : ref.objects) {
    std::set<size_t> by;
    for (auto &q : s.obs)
      if (o.count(q.b))
        for (size_t g = 0; g < ref.groups.size(); g++)
          if (ref.groups[g].count(q.c))
            by.insert(g);
    shared |= by.size() > 1;
  }
  double w1 = 0, w2 = 0, w3 = 0;
  for (const Var &v : vars) {
    Image im;
    e = look(run, s, v, im);
    c.trace();
    c.step(s.obs.size());
    if (!e.empty())
      return c.fail("run", v.name + ": " + e);
    if (im.groups != ref.groups)
      return c.fail("groups", v.name + " changes the camera groups");
    if (im.objects != ref.objects || im.points != ref.points)
      return c.fail("objects", v.name + " changes the objects");
    if (im.covered != ref.covered)
      return c.fail("accounting", v.name + " changes what the report covers");
    const double loose = shared && (!v.cam.empty() || !v.brd.empty()) ? 40 : 1;
    double d1 = 0, d2 = 0, d3 = shapeDiff(ref, im, ref.objects);
    for (size_t i = 0; i < ref.pred.size(); i++)
      for (size_t j = 0; j < ref.pred[i].size(); j++)
        d1 = std::max(d1, cv::norm(im.pred[i][j] - ref.pred[i][j]));
    for (auto &q : ref.intr)
      for (size_t i = 0; i < q.second.size(); i++)
        d2 = std::max(d2, std::fabs(q.second[i] - im.intr[q.first][i]));
    for (auto &q : ref.pose)
      d3 = std::max({d3, rotAngle(q.second.R, im.pose[q.first].R), transErr(q.second, im.pose[q.first])});
    if (!(d1 <= tol * loose))
      return c.fail("predictions", vh::cat(v.name, ": corners move by ", d1, " px"));
    if (!(d2 <= tolK))
      return c.fail("intrinsics", vh::cat(v.name, ": intrinsics move by ", d2));
    if (!(d3 <= tolT * loose))
      return c.fail("geometry", vh::cat(v.name, ": poses or points move by ", d3));
    w1 = std::max(w1, d1 / loose), w2 = std::max(w2, d2), w3 = std::max(w3, d3 / loose);
  }
  c.state(c.id);
  c.sample(vh::cat("corners ", w1, " px, intrinsics ", w2, ", geometry ", w3));
}
std::vector<Var> variations(int C, int B, bool all) {
  std::vector<Var> v;
  for (double s : {1e-3, 0.03, 25.0, 1000.0})
    if (all || s == 1e-3 || s == 1000)
      v.push_back({vh::cat("unit ", s), s});
  for (int f = 1; f <= 3; f++)
    v.push_back({vh::cat("frame numbers ", f), 1, f});
  std::vector<int> c(C), b(B);
  for (int i = 0; i < C; i++)
    c[i] = 2 * i + 1;
  for (int i = 0; i < B; i++)
    b[i] = 2 * i + 1;
  v.push_back({"unseen cameras and boards", 1, 0, c, b});
  for (int x = 1; x <= 2; x++)
    v.push_back({vh::cat("strangers ", x), 1, 0, {}, {}, x});
  std::iota(c.begin(), c.end(), 0);
  std::iota(b.begin(), b.end(), 0);
  const std::vector<int> b1 = b;
  while (std::next_permutation(c.begin(), c.end()))
    if (all || c.front() > c.back())
      v.push_back({"cameras " + vh::digits(c), 1, 0, c, {}});
  while (std::next_permutation(b.begin(), b.end()))
    if (all || b.front() > b.back())
      v.push_back({"boards " + vh::digits(b), 1, 0, {}, b});
  v.push_back({"everything", 40, 1, std::vector<int>(), b1, 2});
  for (int i = 0; i < C; i++)
    v.back().cam.push_back(3 * (C - i));
  return v;
}
} // namespace
int main(int argc, char **argv) {
  vh::Run run(argc, argv);
  quiet();
  const bool T = run.thorough();
  auto grid = [&](int C, int F, int B, int model, double noise, int stride) {
    const int n = C * F * B;
    for (long m = 1; m < 1L << n; m += stride)
      run.run(vh::cat("grid", C, F, B, "m", model, "_", m, "_n", noise), [&](vh::Case &c) {
        Scene s{World::standard(C, B, F, model, true), {}, F, {}};
        int j = 0;
        for (int f = 0; f < F; f++)
          for (int cam = 0; cam < C; cam++)
            for (int b = 0; b < B; b++)
              if (m >> j++ & 1)
                s.obs.push_back(s.w.observe(cam, f, b));
        if (noise > 0)
          disturb(s.obs, (int)m, noise);
        s.o.iterations = 300;
        judge(run, c, s, variations(C, B, T), 0.01, 0, 1e-4);
      });
  };
  for (int model = 0; model < 3; model++) {
    grid(2, 2, 2, model, 0, T ? 1 : 5);
    grid(3, 2, 1, model, 0.05, T ? 1 : 2);
    grid(1, 2, 3, model, 0.05, T ? 1 : 2);
    grid(2, 2, 2, model, 0.05, T ? 1 : 7);
    if (T)
      grid(3, 3, 1, model, 0.05, 1);
  }
  // well observed rigs, free intrinsics, and groups tied without common view
  for (int C = 1; C <= 3; C++)
    for (int B = 1; B <= 2; B++)
      for (int model = 0; model < 3; model++)
        for (int kind = 0; kind < 4; kind++)
          for (int p = 0; p < (T ? 4 : 1); p++)
            run.run(vh::cat("rig", C, B, model, "_", kind, "_", p), [&](vh::Case &c) {
              const int F = kind == 3 ? 14 : 8;
              Scene s{World::standard(C, kind == 3 ? C : B, F, model, true), {}, F, {}};
              for (int f = 0; f < F; f++)
                for (int k = 0; k < C; k++)
                  for (int b = 0; b < (int)s.w.boards.size(); b++)
                    if (kind != 3 || k == b)
                      s.obs.push_back(s.w.observe(k, f, b));
              if (p || kind == 2)
                disturb(s.obs, p, 0.1);
              s.o.iterations = 300;
              s.o.fix_intrinsic = kind == 3 || kind == 1;
              s.o.he_approach = B - 1;
              if (kind == 0)
                s.o.intrinsicPerturb = 0.02;
              if (kind == 0)
                s.o.ransac = 20;
              judge(run, c, s, variations(C, (int)s.w.boards.size(), T), 0.02, 0.1, 1e-4);
            });
  return run.finish();
}
