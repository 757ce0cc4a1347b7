// All visibility patterns (camera x frame x board): the reported partition of
// cameras and boards equals the reference model, and nothing is lost.
#include "world.hpp"
using namespace world;
namespace {
void check(vh::Run &run, vh::Case &c, const World &w, const std::string &bits,
           int C, int F, int B, bool few) {
  std::vector<Obs> obs;
  int k = 0;
  for (int f = 0; f < F; f++)
    for (int cam = 0; cam < C; cam++)
      for (int b = 0; b < B; b++)
        if (bits[k++] == '1')
          obs.push_back(w.observe(cam, f, b));
  // some views show no more than the four or five corners that a pose needs
  if (few)
    for (auto &x : obs)
      if (int how = (x.c + 2 * x.f + x.b) % 3) {
        Obs all = x;
        x.ids.clear();
        x.px.clear();
        const int nx = w.boards[x.b].nx - 1, n = w.boards[x.b].nPts();
        std::vector<int> keep = {n - 1, 0, nx - 1, n - nx};
        if (how == 2)
          keep.push_back(nx);
        for (int k : keep) {
          x.ids.push_back(all.ids[k]);
          x.px.push_back(all.px[k]);
        }
      }
  Options o;
  o.iterations = 60;
  Result r = calibrate(w, obs, o, tempDir(run));
  c.trace();
  c.step(obs.size());
  ModelOut m = referenceModel(w, obs), g = resultPartition(r);
  c.state(m.key());
  if (r.rc != 0)
    return c.fail("rc", vh::cat("exit status ", r.rc));
  if (r.nbCamera != C)
    c.fail("nb_camera", vh::cat("declares ", r.nbCamera));
  if (g.key() != m.key())
    return c.fail("partition", g.key() + " expected " + m.key());
  std::string e = compareWithTruth(w, obs, r);
  if (!e.empty())
    return c.fail("pose", e);
  e = comparePoses(w, obs, r);
  if (!e.empty())
    c.fail("object_pose", e);
  // every observation is accounted for exactly once in the report
  std::map<std::pair<int, int>, int> want, got;
  for (auto &x : obs)
    want[{x.c, x.f}] += x.ids.size();
  std::set<std::pair<int, int>> groupFrames;
  for (auto &G : r.groups)
    for (auto &Fr : G.frames)
      for (auto &cc : Fr.cams) {
        if (got.count({cc.cam, Fr.frame}))
          c.fail("dup", vh::cat("camera ", cc.cam, " frame ", Fr.frame,
                                " reported twice"));
        got[{cc.cam, Fr.frame}] += cc.nb;
        if (r.cams[cc.cam].group != G.id)
          c.fail("group", vh::cat("camera ", cc.cam, " reported in group ", G.id));
        for (float q : cc.err)
          if (!(q < 0.05f))
            c.fail("error", vh::cat("residual ", q));
      }
  for (auto &x : want)
    if (got[x.first] != x.second)
      c.fail("observations",
             vh::cat("camera ", x.first.first, " frame ", x.first.second,
                     ": report covers ", got[x.first], " points of ", x.second));
  if (got.size() != want.size())
    c.fail("observations", "report covers images without any observation");
  c.sample(m.key());
}
} // namespace
int main(int argc, char **argv) {
  vh::Run run(argc, argv);
  quiet();
  auto grid = [&](int C, int F, int B, int model, int stride, bool few = false) {
    World w = World::standard(C, B, F, model, true);
    const int n = C * F * B;
    for (long m = 0; m < 1L << n; m += stride) {
      std::string bits;
      for (int i = 0; i < n; i++)
        bits += (m >> i & 1) ? '1' : '0';
      run.run(vh::cat("c", C, "f", F, "b", B, "m", model, few ? "few_" : "_", bits),
              [&](vh::Case &c) { check(run, c, w, bits, C, F, B, few); });
    }
  };
  for (int C = 1; C <= 2; C++)
    for (int F = 1; F <= 2; F++)
      for (int B = 1; B <= 2; B++)
        grid(C, F, B, 0, 1);
  grid(2, 3, 2, 2, 1);
  grid(3, 2, 2, 0, 1);
  grid(2, 2, 3, 1, 1);
  grid(3, 4, 1, 0, 1);
  grid(2, 3, 1, 0, 1, true);
  grid(2, 2, 2, 2, 1, true);
  grid(3, 3, 1, 1, 1, true);
  // larger scenes: more frames, corners, boards or cameras than a byte counts,
  // every period of what is visible
  struct Large {
    int C, F, B, nx, ny;
  };
  for (const Large &L : std::vector<Large>{{2, 270, 1, 5, 4}, {2, 4, 2, 21, 18}, {1, 3, 3, 14, 23}, {3, 30, 4, 6, 5}, {14, 6, 3, 5, 4}})
    for (int period = 1; period <= (run.thorough() ? 40 : 12); period++)
      run.run(vh::cat("large", L.C, "_", L.F, "_", L.B, "_", period), [&](vh::Case &c) {
        World w = World::standard(L.C, L.B, L.F, 0, true);
        for (size_t b = 0; b < w.boards.size(); b++) {
          Brd &k = w.boards[b];
          const double cx = k.sq * (k.nx - 2) / 2, cy = k.sq * (k.ny - 2) / 2;
          k.B = k.B * make(0, 0, 0, cx, cy, 0);
          k.nx = L.nx - (int)(b % 2), k.ny = L.ny + (int)(b % 2);
          k.sq = 0.42 / std::max(k.nx, k.ny);
          k.B = k.B * make(0, 0, 0, -k.sq * (k.nx - 2) / 2, -k.sq * (k.ny - 2) / 2, 0);
        }
        std::string bits;
        for (int i = 0; i < L.C * L.F * L.B; i++)
          bits += (i + i / period) % (period + 1) != period || i < L.C * L.B ? '1' : '0';
        check(run, c, w, bits, L.C, L.F, L.B, false);
      });
  if (run.thorough()) {
    grid(2, 4, 2, 0, 1);
    grid(2, 5, 1, 2, 1);
    grid(4, 4, 1, 0, 1);
    grid(3, 5, 1, 0, 1);
    grid(4, 2, 2, 1, 1);
    grid(2, 3, 2, 2, 1, true);
    grid(3, 4, 1, 0, 1, true);
  }
  return run.finish();
}
