// Camera groups that never share a view: which of them are tied together, and
// with which poses, for every pattern of simultaneously seen objects.
#include "world.hpp"
using namespace world;
namespace {
struct Group {
  std::vector<int> cams, boards;
};
void judge(vh::Run &run, vh::Case &c, const World &w, const std::vector<Obs> &obs, int he,
           int iters, double tol) {
  Options o;
  o.he_approach = he;
  o.iterations = iters;
  Result r = calibrate(w, obs, o, tempDir(run));
  c.trace();
  c.step(obs.size());
  ModelOut m = referenceModel(w, obs), g = resultPartition(r);
  c.state(c.id);
  if (r.rc != 0)
    return c.fail("rc", vh::cat("exit status ", r.rc));
  if (g.key() != m.key())
    return c.fail("partition", g.key() + " expected " + m.key());
  std::string e = compareWithTruth(w, obs, r, tol);
  if (!e.empty())
    return c.fail("pose", e);
  std::map<std::pair<int, int>, int> want, got;
  for (auto &x : obs)
    want[{x.c, x.f}] += x.ids.size();
  for (auto &G : r.groups)
    for (auto &F : G.frames)
      for (auto &k : F.cams)
        got[{k.cam, F.frame}] += k.nb;
  if (got != want)
    c.fail("observations", "the report does not cover exactly the observations");
  c.sample(m.key());
}
} // namespace
int main(int argc, char **argv) {
  vh::Run run(argc, argv);
  run.retries = 6;
  quiet();
  const bool T = run.thorough();
  // every group: its own cameras and its own board(s). The frames are grouped
  // in blocks in which a chosen set of groups sees its object.
  auto go = [&](const std::string &id, const std::vector<Group> &G,
                const std::vector<std::vector<int>> &frames, int model, int he, int iters) {
    run.run(id, [&](vh::Case &c) {
      int nc = 0, nb = 0;
      for (auto &g : G) {
        for (int k : g.cams)
          nc = std::max(nc, k + 1);
        for (int b : g.boards)
          nb = std::max(nb, b + 1);
      }
      World w = World::standard(nc, nb, (int)frames.size(), model, true);
      std::vector<Obs> obs;
      for (int f = 0; f < (int)frames.size(); f++)
        for (int g : frames[f])
          for (size_t k = 0; k < G[g].cams.size(); k++)
            for (size_t b = 0; b < G[g].boards.size(); b++)
              if (k == 0 || (f + b) % 3 != 2 || f < 2)
                obs.push_back(w.observe(G[g].cams[k], f, G[g].boards[b]));
      judge(run, c, w, obs, he, iters, iters < 20 ? 2e-2 : 2e-3);
    });
  };
  // 1. three groups: every count of common frames per pair, single cameras
  const int CNT[5] = {0, 1, 3, 4, 5};
  for (int a = 0; a < 5; a++)
    for (int b = 0; b < 5; b++)
      for (int d = 0; d < 5; d++)
        for (int layout = 0; layout < 4; layout++)
          for (int he = 0; he < 2; he++)
            for (int it : {12, 200}) {
              if (!T && ((a + b + d + layout + he) % 2 == 0) != (it == 12))
                continue;
              std::vector<Group> G;
              if (layout == 0)
                G = {{{0}, {0}}, {{1}, {1}}, {{2}, {2}}};
              else if (layout == 1) // numbers do not follow the groups
                G = {{{2}, {1}}, {{0}, {2}}, {{1}, {0}}};
              else if (layout == 2) // two cameras per group
                G = {{{0, 3}, {0}}, {{1, 4}, {1}}, {{2, 5}, {2}}};
              else // two boards per object, several cameras in one group
                G = {{{1, 2}, {0, 3}}, {{0}, {1}}, {{3}, {2, 4}}};
              std::vector<std::vector<int>> fr;
              for (int g = 0; g < 3; g++) // everyone is seen alone first
                fr.push_back({g}), fr.push_back({g});
              const int P[3][2] = {{0, 1}, {1, 2}, {0, 2}};
              const int n[3] = {CNT[a], CNT[b], CNT[d]};
              for (int p = 0; p < 3; p++)
                for (int k = 0; k < n[p]; k++)
                  fr.push_back({P[p][0], P[p][1]});
              go(vh::cat("tri_", a, b, d, "_l", layout, "_h", he, "_i", it), G, fr,
                 (a + layout) % 3, he, it);
            }
  // long recordings
  for (int n : {20, 21, 50, 101, 130})
    for (int he = 0; he < 2; he++)
      for (int layout = 0; layout < 2; layout++) {
        std::vector<Group> G;
        if (layout == 0)
          G = {{{0}, {0}}, {{1}, {1}}, {{2}, {2}}};
        else
          G = {{{2}, {1}}, {{0}, {2}}, {{1}, {0}}};
        std::vector<std::vector<int>> fr;
        for (int k = 0; k < n; k++)
          fr.push_back(layout || k % 7 ? std::vector<int>{0, 1} : std::vector<int>{1, 2});
        go(vh::cat("long", n, "_l", layout, "_h", he), G, fr, (n + layout) % 3, he, 60);
      }
  // 2. four and five groups: every graph of links of four frames each,
  // with one link better supported
  for (int n : {4, 5}) {
    const int ne = n * (n - 1) / 2;
    for (int m = 0; m < 1 << ne; m++) {
      if (n == 5 && !T && __builtin_popcount(m) != 4)
        continue;
      for (int he = 0; he < 2; he++) {
        if (n == 5 && !T && he != m % 2)
          continue;
        std::vector<Group> G;
        for (int g = 0; g < n; g++)
          G.push_back({{m % 3 == 1 ? n - 1 - g : g}, {m % 2 ? n - 1 - g : g}});
        std::vector<std::vector<int>> fr;
        for (int g = 0; g < n; g++)
          fr.push_back({g}), fr.push_back({g});
        int e = 0;
        for (int i = 0; i < n; i++)
          for (int j = i + 1; j < n; j++, e++)
            if (m >> e & 1)
              for (int k = 0; k < 4 + 2 * ((m + e) % 3 == 0); k++)
                fr.push_back({i, j});
        go(vh::cat("net", n, "_", m, "_h", he), G, fr, m % 3, he, he ? 12 : 100);
      }
    }
  }
  // 3. two groups seeing several objects: the link counts are those of the
  // most frequent pair of objects
  for (int m = 0; m < 256; m++)
    for (int he = 0; he < 2; he++) {
      if (!T && he != m % 2)
        continue;
      run.run(vh::cat("pair_", m, "_h", he), [&](vh::Case &c) {
        World w = World::standard(2, 4, 24, m % 3, true);
        std::vector<Obs> obs;
        // cell (object of camera 0, object of camera 1) x count
        const int N[4] = {0, 3, 4, 6};
        int f = 0;
        for (int q = 0; q < 4; q++)
          for (int k = 0; k < N[m >> (2 * q) & 3]; k++, f++) {
            obs.push_back(w.observe(0, f, q & 1));
            obs.push_back(w.observe(1, f, 2 + (q >> 1)));
          }
        for (int q = 0; q < 4; q++, f++) {
          if (f >= 24)
            f = 24 - 1;
          bool dup = false;
          for (auto &x : obs)
            dup |= x.f == f && (x.c == q / 2);
          if (!dup)
            obs.push_back(w.observe(q / 2, f, q));
        }
        judge(run, c, w, obs, he, 100, 2e-3);
      });
    }
  // 4. which camera of each group sees its object in each common frame: the
  // pose of the object must be that in the group, whoever sees it
  for (int m = 0; m < 81; m++)
    for (int n : {4, 5})
      for (int he = 0; he < 2; he++)
        for (int swap = 0; swap < 2; swap++) {
          if (!T && (he + n) % 2 != (m + swap) % 2)
            continue;
          run.run(vh::cat("relay_", m, "_", n, "_h", he, "_s", swap), [&](vh::Case &c) {
            World w = World::standard(4, 2, n + 3, m % 3, true);
            // groups {0, 2} and {1, 3} or {0, 1} and {2, 3}
            const int G[2][2] = {{0, swap ? 1 : 2}, {swap ? 2 : 1, 3}};
            const int who[2][2] = {{m % 3, m / 3 % 3}, {m / 9 % 3, m / 27}};
            std::vector<Obs> obs;
            for (int f = 0; f < n; f++)
              for (int g = 0; g < 2; g++)
                for (int k = 0; k < 2; k++)
                  if (who[g][f % 2] == 2 || who[g][f % 2] == k)
                    obs.push_back(w.observe(G[g][k], f, g));
            for (int f = n; f < n + 3; f++)
              for (int g = 0; g < 2; g++)
                if (f == n + 2 ? g == 1 : f == n + g)
                  for (int k = 0; k < 2; k++)
                    obs.push_back(w.observe(G[g][k], f, g));
            judge(run, c, w, obs, he, 100, 2e-3);
          });
        }
  // 5. two pairs of objects, one seen by more cameras, the other in more frames
  for (int n1 = 0; n1 <= 4; n1++)
    for (int n2 = 0; n2 <= 6; n2++)
      for (int side = 0; side < 3; side++)
        for (int he = 0; he < 2; he++) {
          if (!T && he != (n1 + n2 + side) % 2)
            continue;
          run.run(vh::cat("support_", n1, "_", n2, "_", side, "_h", he), [&](vh::Case &c) {
            World w = World::standard(4, 4, n1 + n2 + 4, (n1 + n2) % 3, true);
            std::vector<Obs> obs;
            // groups {0, 2} with boards 0, 1 and {1, 3} with boards 2, 3
            for (int f = 0; f < n1 + n2; f++) {
              const int b = f < n1 ? 0 : 1;
              for (int k = 0; k < 4; k++)
                if (k < 2 || (b == 0 && (side == 0 || side == k - 1)))
                  obs.push_back(w.observe(k, f, k % 2 * 2 + b));
            }
            for (int f = n1 + n2, q = 0; q < 4; q++, f++)
              for (int k = 0; k < 4; k++)
                if (k % 2 == q / 2)
                  obs.push_back(w.observe(k, f, q));
            judge(run, c, w, obs, he, 100, 2e-3);
          });
        }
  return run.finish();
}
