// Detections too weak to give a pose (fewer than four corners, or corners
// without any consistent pose) at every place of a scene never influence the
// calibration and never break it.
#include "world.hpp"
using namespace world;
namespace {
Obs weak(const World &w, int c, int f, int b, int kind) {
  Obs o = w.observe(c, f, b);
  if (kind < 3) { // 1, 2 or 3 exact corners
    o.ids = {0, 5, 7};
    o.ids.resize(kind + 1);
    std::vector<cv::Point2f> p;
    for (int i : o.ids)
      p.push_back(o.px[i]);
    o.px = p;
  } else { // inconsistent corners
    for (size_t i = 0; i < o.px.size(); i++)
      o.px[i] = cv::Point2f(100.f + (float)((i * 7919 + c * 131 + f * 17) % 1000),
                            60.f + (float)((i * i * 3571 + b * 733 + 97) % 800));
  }
  return o;
}
} // namespace
int main(int argc, char **argv) {
  vh::Run run(argc, argv);
  quiet();
  const std::string dir = tempDir(run);
#if defined(__SANITIZE_ADDRESS__)
  const bool asan = true;
#else
  const bool asan = false;
#endif
  // a complete scene with C cameras, F frames, B boards; the cells of `mask`
  // are weak, those of `holes` are absent
  auto go = [&](const std::string &tag, int C, int F, int B, int mask, int kind,
                int he, int iters) {
    run.run(vh::cat(tag, "_", C, F, B, "_", mask, "_k", kind, "_h", he), [&](vh::Case &c) {
      World w = World::standard(C, B, F, 2, true);
      std::vector<Obs> obs, good;
      int q = 0;
      for (int f = 0; f < F; f++)
        for (int cam = 0; cam < C; cam++)
          for (int b = 0; b < B; b++, q++) {
            bool wk = mask >> q & 1;
            int k = kind < 4 ? kind : (q + kind) % 4;
            obs.push_back(wk ? weak(w, cam, f, b, k) : w.observe(cam, f, b));
            if (!wk)
              good.push_back(obs.back());
          }
      Options o;
      o.iterations = iters;
      o.he_approach = he;
      Result r = calibrate(w, obs, o, dir);
      c.trace();
      c.step(obs.size());
      c.state(referenceModel(w, good).key());
      if (r.rc)
        return c.fail("rc", vh::cat("status ", r.rc));
      auto g = resultPartition(r), m = referenceModel(w, good);
      // cameras / boards without a valid observation may be left out or be
      // alone, nothing may be grouped through them
      auto prune = [&](std::vector<std::set<int>> v, bool cam) {
        std::vector<std::set<int>> out;
        for (auto &s : v) {
          bool known = false;
          for (auto &x : good)
            known |= s.count(cam ? x.c : x.b) > 0;
          if (known || s.size() > 1)
            out.push_back(s);
        }
        std::sort(out.begin(), out.end());
        return out;
      };
      if (prune(g.camGroups, true) != prune(m.camGroups, true) ||
          prune(g.objects, false) != prune(m.objects, false))
        return c.fail("partition", g.key() + " expected " + m.key());
      std::string e = compareWithTruth(w, good, r);
      if (!e.empty())
        return c.fail("pose", e);
      std::map<std::pair<int, int>, int> want, got;
      for (auto &x : good)
        want[{x.c, x.f}] += x.ids.size();
      for (auto &G : r.groups)
        for (auto &Fr : G.frames)
          for (auto &k : Fr.cams) {
            if (k.nb)
              got[{k.cam, Fr.frame}] += k.nb;
            for (float q2 : k.err)
              if (!(q2 < 0.1f))
                return c.fail("error", vh::cat("residual ", q2));
          }
      if (got != want)
        c.fail("observations", "the report does not cover exactly the valid observations");
      c.sample(m.key());
    });
  };
  const bool T = run.thorough();
  for (int kind = 0; kind < 5; kind++) {
    if (asan && !T && kind != 4 && kind != 0)
      continue;
    for (int m = 0; m < 256; m++)
      if (!asan || T || m % 4 == 0 || m == 255)
        go("a", 2, 2, 2, m, kind, 0, 60);
    for (int m = 0; m < 64; m++) {
      go("b", 2, 3, 1, m, kind, 0, 60);
      go("c", 1, 3, 2, m, kind, 0, 60);
      if (!asan)
        go("d", 3, 2, 1, m, kind, 1, 60);
    }
    if (!asan)
      for (int m = 0; m < 4096; m++)
        if (T || ((__builtin_popcount(m) <= 3 || m == 4095) && kind == 4))
          go("e", 2, 2, 3, m, kind, 0, 60);
  }
  return run.finish();
}
