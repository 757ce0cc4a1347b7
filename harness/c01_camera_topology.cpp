// Every co-visibility topology of the cameras: camera groups and camera poses
// must equal the ground truth.
#include "world.hpp"
using namespace world;
namespace {
struct Spec {
  int n, mask, boards, model, weight, order, iters;
  int shape = -1; // named topology instead of an edge mask
};
std::vector<std::pair<int, int>> edges(const Spec &s) {
  std::vector<std::pair<int, int>> e;
  const int n = s.n;
  auto add = [&](int a, int b) { e.emplace_back(std::min(a, b), std::max(a, b)); };
  switch (s.shape) {
  case -1:
    for (int i = 0; i < n; i++)
      for (int j = i + 1; j < n; j++)
        e.emplace_back(i, j);
    break;
  case 0: // chain
    for (int i = 0; i + 1 < n; i++)
      add(i, i + 1);
    break;
  case 1: // star around the first camera
    for (int i = 1; i < n; i++)
      add(0, i);
    break;
  case 2: // star around the last camera
    for (int i = 0; i + 1 < n; i++)
      add(n - 1, i);
    break;
  case 3: // chain in zigzag order 0, n-1, 1, n-2, ...
    for (int i = 0, a = 0, b = n - 1; i + 1 < n; i++) {
      add(a, b);
      if (i % 2 == 0)
        a++;
      else
        b--;
    }
    break;
  case 4: // ring
    for (int i = 0; i < n; i++)
      add(i, (i + 1) % n);
    break;
  case 5: // even and odd cameras never meet
    for (int i = 0; i + 2 < n; i++)
      add(i, i + 2);
    break;
  case 6: // binary tree
    for (int i = 1; i < n; i++)
      add(i, (i - 1) / 2);
    break;
  }
  return e;
}
void check(vh::Run &run, vh::Case &c, const Spec &s) {
  auto E = edges(s);
  const int nE = E.size();
  // frames: edge e uses weight(e) consecutive frames; then a solo frame per cam
  std::vector<std::array<int, 3>> vis; // cam, frame, board
  int nb = s.boards == 0 ? 1 : (s.boards == 1 ? 3 : 2);
  int f = 0;
  for (int q = 0; q < nE; q++) {
    int e = s.order == 0 ? q : nE - 1 - q;
    if (s.shape < 0 && !(s.mask >> e & 1))
      continue;
    int reps = s.weight == 0 ? 1 : 1 + (e * 7 + s.mask) % s.weight;
    for (int r = 0; r < reps; r++, f++)
      for (int cam : {E[e].first, E[e].second}) {
        if (s.boards == 0)
          vis.push_back({cam, f, 0});
        else if (s.boards == 1) // a different board per edge
          vis.push_back({cam, f, e % 3});
        else // the two cameras see different boards of one object
          vis.push_back({cam, f, cam == E[e].first ? 0 : 1});
      }
  }
  for (int cam = 0; cam < s.n; cam++, f++) {
    vis.push_back({cam, f, 0});
    if (s.boards == 2)
      vis.push_back({cam, f, 1});
  }
  World w = World::standard(s.n, nb, f, s.model, true);
  std::vector<Obs> obs;
  for (auto &v : vis)
    obs.push_back(w.observe(v[0], v[1], v[2]));
  Options o;
  o.iterations = s.iters;
  Result r = calibrate(w, obs, o, tempDir(run));
  c.trace();
  c.step(vis.size());
  c.state(c.id);
  if (r.rc != 0)
    return c.fail("rc", vh::cat("exit status ", r.rc));
  if (r.nbCamera != s.n)
    c.fail("nb_camera", vh::cat("camera file declares ", r.nbCamera, " cameras"));
  for (int k = 0; k < s.n; k++)
    if (!r.cams[k].present)
      return c.fail("camera-lost", vh::cat("camera ", k, " is not in the result"));
  auto got = resultPartition(r).camGroups, want = referenceModel(w, obs).camGroups;
  auto sorted = [](std::vector<std::set<int>> v) {
    std::sort(v.begin(), v.end());
    return v;
  };
  if (sorted(got) != sorted(want))
    return c.fail("partition", "camera groups " + resultPartition(r).key() +
                                   " expected " + referenceModel(w, obs).key());
  std::string e = compareWithTruth(w, obs, r);
  if (!e.empty())
    c.fail("pose", e);
  c.sample(referenceModel(w, obs).key());
}
} // namespace
int main(int argc, char **argv) {
  vh::Run run(argc, argv);
  quiet();
  auto go = [&](Spec s) {
    run.run(vh::cat("n", s.n, "_g", s.shape < 0 ? s.mask : -1 - s.shape, "_b", s.boards, "_m", s.model, "_w",
                    s.weight, "_o", s.order, "_i", s.iters),
            [&](vh::Case &c) { check(run, c, s); });
  };
  for (int n = 1; n <= 4; n++)
    for (int m = 0; m < 1 << (n * (n - 1) / 2); m++)
      for (int b = 0; b < 3; b++)
        for (int model = 0; model < 3; model++)
          for (int w : {0, 3})
            for (int o = 0; o < 2; o++)
              for (int it : {12, 200})
                if (model == (m + b + w + o) % 3 || it == 200 || run.thorough())
                  go({n, m, b, model, w, o, it});
  // all spanning structures on 5 cameras
  for (int m = 0; m < 1024; m++)
    if (run.thorough() || __builtin_popcount(m) == 4)
      for (int o = 0; o < 2; o++)
        go({5, m, 0, 2, 2, o, o ? 200 : 12});
  if (run.thorough())
    for (int m = 0; m < 1024; m++)
      for (int b = 1; b < 3; b++)
        go({5, m, b, 0, 3, 0, 12}), go({5, m, b, 1, 3, 1, 200});
  // long chains / stars / many cameras (double-digit identifiers)
  for (int n : {6, 10, 11, 12, 13})
    for (int shape = 0; shape < 7; shape++)
      for (int b = 0; b < 3; b++)
        for (int o = 0; o < 2; o++)
          if (run.thorough() || o == (b + shape) % 2)
            go({n, 0, b, (n + shape + b) % 3, 3, o, o ? 200 : 12, shape});
  return run.finish();
}
