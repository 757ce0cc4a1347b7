// Written objects and object poses: one column per corner, one pose per image
// of an object, all true, for every visibility pattern within the bound.
#include "world.hpp"
#include <algorithm>
#include <opencv2/calib3d.hpp>
using namespace world;
namespace {
std::set<std::string> keys(const std::string &f) {
  std::set<std::string> s;
  cv::FileStorage st(f, cv::FileStorage::READ);
  cv::FileNode root = st.root();
  for (auto it = root.begin(); it != root.end(); ++it)
    s.insert((*it).name());
  return s;
}
void judge(vh::Run &run, vh::Case &c, const World &w, const std::vector<Obs> &obs, Options o,
           double tol = 2e-3) {
  Result r = calibrate(w, obs, o, tempDir(run));
  c.trace();
  c.step(obs.size());
  if (r.rc != 0)
    return c.fail("rc", vh::cat("exit status ", r.rc));
  std::string e = compareWithTruth(w, obs, r, tol);
  if (!e.empty())
    return c.fail("object", e);
  e = comparePoses(w, obs, r, tol);
  if (!e.empty())
    return c.fail("pose", e);
  std::set<std::string> a = keys(r.dir + "/out/calibrated_objects_data.yml"),
                        b = keys(r.dir + "/out/calibrated_objects_pose_data.yml"), want;
  std::set<int> boards, listed;
  for (auto &x : obs)
    boards.insert(x.b);
  size_t n = 0;
  for (auto &q : r.objs) {
    want.insert("object_" + std::to_string(q.first));
    if (q.second.pts.type() != CV_32F)
      c.fail("format", "points are not stored as single precision numbers");
    int lo = 1 << 20;
    for (int i = 0; i < q.second.pts.cols; i++) {
      lo = std::min(lo, (int)q.second.pts.at<float>(3, i));
      listed.insert((int)q.second.pts.at<float>(3, i));
    }
    n += q.second.pts.cols;
  }
  size_t expect = 0;
  for (int x : boards)
    expect += w.boards[x].nPts();
  if (n != expect || listed != boards)
    c.fail("accounting", vh::cat(n, " corners written for ", expect, " of the observed boards"));
  if (a != b || a != want)
    c.fail("keys", "the two files do not list the same objects");
  c.state(resultPartition(r).key());
  c.sample(resultPartition(r).key());
}
} // namespace
int main(int argc, char **argv) {
  vh::Run run(argc, argv);
  quiet();
  auto grid = [&](int C, int F, int B, int model, int stride) {
    World w = World::standard(C, B, F, model, true);
    const int n = C * F * B;
    for (long m = 1; m < 1L << n; m += stride)
      run.run(vh::cat("c", C, "f", F, "b", B, "m", model, "_", m), [&](vh::Case &c) {
        std::vector<Obs> obs;
        int k = 0;
        for (int f = 0; f < F; f++)
          for (int cam = 0; cam < C; cam++)
            for (int b = 0; b < B; b++)
              if (m >> k++ & 1)
                obs.push_back(w.observe(cam, f, b));
        Options o;
        o.iterations = 60;
        judge(run, c, w, obs, o);
      });
  };
  grid(2, 2, 2, 0, 1);
  grid(1, 3, 3, 1, 1);
  grid(3, 3, 1, 2, 1);
  grid(2, 3, 2, 0, run.thorough() ? 1 : 5);
  grid(3, 2, 2, 1, run.thorough() ? 1 : 7);
  grid(2, 2, 3, 0, run.thorough() ? 1 : 7);
  if (run.thorough())
    grid(4, 3, 1, 0, 1);
  // every subset of the corners of one view that determines its pose (four of them, no three in
  // a line), the others complete
  auto general = [](int m) {
    std::vector<cv::Point> q;
    for (int i = 0; i < 9; i++)
      if (m >> i & 1)
        q.emplace_back(i % 3, i / 3);
    auto flat = [](cv::Point a, cv::Point b, cv::Point c) { return (b - a).cross(c - a) == 0; };
    for (size_t a = 0; a < q.size(); a++)
      for (size_t b = 0; b < a; b++)
        for (size_t c = 0; c < b; c++)
          for (size_t d = 0; d < c; d++)
            if (!flat(q[a], q[b], q[c]) && !flat(q[a], q[b], q[d]) && !flat(q[a], q[c], q[d]) &&
                !flat(q[b], q[c], q[d]))
              return true;
    return false;
  };
  {
    World w = World::standard(2, 2, 3);
    w.boards[0].nx = 4, w.boards[0].ny = 4;
    for (int m = 0; m < 512; m++) {
      if (!general(m))
        continue;
      for (int who = 0; who < 4; who++) // in the last two the view shows nothing else
        run.run(vh::cat("sub", m, "_", who), [&](vh::Case &c) {
          std::vector<Obs> obs;
          for (int f = 0; f < 3; f++)
            for (int cam = 0; cam < 2; cam++)
              for (int b = 0; b < 2; b++)
                if (who < 2 || b == 0 || cam != who % 2 || f != 1)
                  obs.push_back(w.observe(cam, f, b));
          for (auto &o : obs)
            if (o.b == 0 && o.c == who % 2 && o.f == 1) {
              Obs p{o.c, o.f, o.b, {}, {}};
              for (int i = 8; i >= 0; i--) // corners listed in another order
                if (m >> i & 1) {
                  p.ids.push_back(o.ids[i]);
                  p.px.push_back(o.px[i]);
                }
              o = p;
            }
          judge(run, c, w, obs, Options());
        });
    }
  }
  // camera groups that never share a view: their objects are tied too
  for (int nf = 4; nf <= (run.thorough() ? 12 : 8); nf++)
    for (int a = 1; a <= 3; a++)
      for (int b = 1; b <= 3; b++)
        for (int he = 0; he < 2; he++) {
          if (a + b > 5)
            continue;
          run.run(vh::cat("tied", nf, "_", a, b, "_", he), [&](vh::Case &c) {
            World w = World::standard(a + b, 2, nf);
            std::vector<Obs> obs;
            for (int f = 0; f < nf; f++)
              for (int k = 0; k < a + b; k++)
                obs.push_back(w.observe(k, f, k < a ? 1 : 0));
            Options o;
            o.he_approach = he;
            judge(run, c, w, obs, o, 5e-3);
          });
        }
  // many boards
  for (int nb = 5; nb <= (run.thorough() ? 16 : 12); nb++)
    for (int mode = 0; mode < 3; mode++)
      run.run(vh::cat("boards", nb, "_", mode), [&](vh::Case &c) {
        World w = World::standard(2, nb, nb);
        std::vector<Obs> obs;
        for (int f = 0; f < nb; f++)
          for (int b = 0; b < nb; b++)
            if (mode == 0 || (mode == 1 && (b == f || b == (f + 1) % nb)) ||
                (mode == 2 && (b == f || b == nb - 1 - f)))
              obs.push_back(w.observe(f % 2, f, b));
        judge(run, c, w, obs, Options());
      });
  return run.finish();
}
