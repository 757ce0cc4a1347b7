// Every co-visibility topology of the boards: the 3D objects (board grouping
// and 3D points) must equal the ground truth.
#include "world.hpp"
using namespace world;
namespace {
struct Spec {
  int n, mask, mode, model, weight, order, iters, shape = -1;
};
void check(vh::Run &run, vh::Case &c, const Spec &s) {
  std::vector<std::pair<int, int>> E;
  for (int i = 0; i < s.n; i++)
    for (int j = i + 1; j < s.n; j++)
      if (s.shape < 0 || (s.shape == 0 && j == i + 1) || (s.shape == 1 && i == 0) ||
          (s.shape == 2 && j == s.n - 1) || (s.shape == 3 && j == i + 2) ||
          (s.shape == 4 && i == (j - 1) / 2) ||
          (s.shape == 5 && (i + j == s.n - 1 || i + j == s.n)))
        E.emplace_back(i, j);
  const int nE = E.size(), ncam = s.mode == 0 ? 1 : 2;
  std::vector<std::array<int, 3>> vis;
  int f = 0;
  for (int q = 0; q < nE; q++) {
    int e = s.order == 0 ? q : nE - 1 - q;
    if (s.shape < 0 && !(s.mask >> e & 1))
      continue;
    int reps = s.weight == 0 ? 1 : 1 + (e * 5 + s.mask) % s.weight;
    for (int r = 0; r < reps; r++, f++) {
      bool cross = s.mode == 1 || (s.mode == 2 && (e + r) % 2);
      vis.push_back({0, f, E[e].first});
      vis.push_back({cross ? 1 : 0, f, E[e].second});
    }
  }
  for (int b = 0; b < s.n; b++, f++)
    vis.push_back({ncam == 1 ? 0 : b % 2, f, b});
  if (ncam == 2) { // ties the two cameras together
    for (int r = 0; r < 2; r++, f++)
      for (int k = 0; k < 2; k++)
        vis.push_back({k, f, 0});
  }
  World w = World::standard(ncam, s.n, f, s.model, true);
  std::vector<Obs> obs;
  for (auto &v : vis)
    obs.push_back(w.observe(v[0], v[1], v[2]));
  Options o;
  o.iterations = s.iters;
  Result r = calibrate(w, obs, o, tempDir(run));
  c.trace();
  c.step(vis.size());
  c.state(c.id);
  if (r.rc != 0)
    return c.fail("rc", vh::cat("exit status ", r.rc));
  auto m = referenceModel(w, obs);
  auto norm = [](std::vector<std::set<int>> v) {
    std::sort(v.begin(), v.end());
    return v;
  };
  if (norm(resultPartition(r).objects) != norm(m.objects))
    return c.fail("partition", "objects " + resultPartition(r).key() +
                                   " expected " + m.key());
  // object identifiers are 0..n-1
  for (auto &ob : r.objs)
    if (ob.first >= (int)m.objects.size())
      c.fail("object-id", vh::cat("object identifier ", ob.first));
  std::string e = compareWithTruth(w, obs, r);
  if (!e.empty())
    c.fail("structure", e);
  c.sample(m.key());
}
} // namespace
int main(int argc, char **argv) {
  vh::Run run(argc, argv);
  quiet();
  auto go = [&](Spec s) {
    run.run(vh::cat("n", s.n, "_g", s.shape < 0 ? s.mask : -1 - s.shape, "_x", s.mode, "_m", s.model, "_w",
                    s.weight, "_o", s.order, "_i", s.iters),
            [&](vh::Case &c) { check(run, c, s); });
  };
  for (int n = 1; n <= 4; n++)
    for (int m = 0; m < 1 << (n * (n - 1) / 2); m++)
      for (int mode = 0; mode < 3; mode++)
        for (int w : {0, 3})
          for (int o = 0; o < 2; o++)
            for (int it : {12, 200})
              for (int model = 0; model < 3; model++)
                if (run.thorough() || model == (m + w + o + it / 100) % 3)
                  go({n, m, mode, model, w, o, it});
  for (int m = 0; m < 1024; m++)
    if (run.thorough() || __builtin_popcount(m) == 4)
      for (int mode = 0; mode < 3; mode++)
        if (run.thorough() || mode == m % 3)
          for (int it : {12, 200})
            go({5, m, mode, 2, 2, mode % 2, it});
  // many boards (double-digit identifiers)
  for (int n : {6, 10, 11, 12, 13})
    for (int shape = 0; shape < 6; shape++)
      for (int mode = 0; mode < 3; mode++)
        for (int o = 0; o < 2; o++)
          if (run.thorough() || o == (mode + shape) % 2)
            go({n, 0, mode, (n + shape + mode) % 3, 3, o, o ? 200 : 12, shape});
  return run.finish();
}
