// Explores every operation history of the co-visibility graph up to a depth,
// and every small weighted graph, against an independent model.
#include "Graph.hpp"
#include "vh.hpp"
#include <algorithm>
#include <boost/log/core.hpp>
namespace {
struct Model {
  std::set<int> v;
  std::map<std::pair<int, int>, double> e; // i<j, min weight
  void vertex(int a) { v.insert(a); }
  void edge(int a, int b, double w) {
    v.insert(a);
    v.insert(b);
    if (a == b)
      return;
    auto k = std::minmax(a, b);
    auto it = e.find(k);
    if (it == e.end() || it->second > w)
      e[k] = w;
  }
  std::string key() const {
    std::string s;
    for (int a : v)
      s += vh::cat(a, " ");
    for (auto &x : e)
      s += vh::cat("|", x.first.first, ",", x.first.second, ":", x.second);
    return s;
  }
};
void judge(vh::Case &c, Graph &g, const Model &m) {
  std::vector<int> ids(m.v.begin(), m.v.end());
  const int n = ids.size();
  std::map<int, int> at;
  for (int i = 0; i < n; i++)
    at[ids[i]] = i;
  std::vector<std::vector<double>> d(n, std::vector<double>(n, 1e18));
  for (int i = 0; i < n; i++)
    d[i][i] = 0;
  for (auto &x : m.e) {
    int i = at[x.first.first], j = at[x.first.second];
    d[i][j] = d[j][i] = x.second;
  }
  for (int k = 0; k < n; k++)
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++)
        d[i][j] = std::min(d[i][j], d[i][k] + d[k][j]);
  // components: a partition of the vertices into reachability classes
  for (int round = 0; round < 2; round++) { // queries do not change the graph
    auto comps = g.connectedComponents();
    std::map<int, int> where;
    for (size_t q = 0; q < comps.size(); q++) {
      if (comps[q].empty())
        return c.fail("components", "empty component");
      for (int v : comps[q]) {
        if (!m.v.count(v))
          return c.fail("components", vh::cat("unknown vertex ", v));
        if (!where.insert({v, (int)q}).second)
          return c.fail("components", vh::cat("vertex ", v, " listed twice"));
      }
    }
    if ((int)where.size() != n)
      return c.fail("components", vh::cat(n - where.size(), " vertices lost"));
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++)
        if ((where[ids[i]] == where[ids[j]]) != (d[i][j] < 1e17))
          return c.fail("components", vh::cat("vertices ", ids[i], " and ",
                                              ids[j], " misgrouped"));
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++) {
        auto p = g.shortestPathBetween(ids[i], ids[j]);
        std::string what = vh::cat("path ", ids[i], "->", ids[j], ": ");
        for (int x : p)
          what += vh::cat(x, " ");
        if (d[i][j] > 1e17) {
          if (!p.empty())
            return c.fail("path-unreachable", what);
          continue;
        }
        if (p.empty() || p.front() != ids[i] || p.back() != ids[j])
          return c.fail("path-ends", what);
        double len = 0;
        for (size_t q = 0; q + 1 < p.size(); q++) {
          auto it = m.e.find(std::minmax(p[q], p[q + 1]));
          if (it == m.e.end())
            return c.fail("path-edge", what);
          len += it->second;
        }
        if (len > d[i][j] * (1 + 4e-15)) // nothing but rounding of the sums
          return c.fail("path-length",
                        what + vh::cat("length ", len, " minimum ", d[i][j]));
      }
    if (!g.shortestPathBetween(-77, n ? ids[0] : -78).empty() ||
        !g.shortestPathBetween(n ? ids[0] : -78, 4242).empty())
      return c.fail("path-unknown", "path through an unknown vertex");
  }
  if ((int)boost::num_vertices(g.getGraph()) != n)
    c.fail("vertices", vh::cat(boost::num_vertices(g.getGraph()),
                               " vertices for ", n, " identifiers"));
}
} // namespace
int main(int argc, char **argv) {
  vh::Run run(argc, argv);
  run.cpuLimit = 20;
  boost::log::core::get()->set_logging_enabled(false);
  // 1. operation histories
  const int depth = run.thorough() ? 5 : 4;
  const int ids[3] = {2, 0, 11};
  const double W[2] = {1.0, 1.0 / 3};
  const int nops = 3 + 9 * 2 + 1;
  auto apply = [&](int op, Graph &g, Model &m) {
    if (op < 3) {
      g.addVertex(ids[op]);
      m.vertex(ids[op]);
    } else if (op < 21) {
      int q = (op - 3) / 2;
      g.addEdge(ids[q / 3], ids[q % 3], W[(op - 3) % 2]);
      m.edge(ids[q / 3], ids[q % 3], W[(op - 3) % 2]);
    } else {
      g.clearGraph();
      m = Model();
    }
  };
  // a case = all histories with a given prefix of length depth-2
  std::vector<int> prefix(depth - 2, 0), radix(depth - 2, nops);
  do {
    run.run("hist_" + vh::digits(prefix), [&](vh::Case &c) {
      for (int a = 0; a < nops && !c.fails; a++)
        for (int b = 0; b < nops && !c.fails; b++) {
          Graph g;
          Model m;
          for (int op : prefix)
            apply(op, g, m);
          apply(a, g, m);
          apply(b, g, m);
          c.step(depth);
          c.trace();
          c.state(m.key());
          judge(c, g, m);
          if (c.fails)
            c.fail("history", vh::cat("suffix ops ", a, ",", b));
        }
      if (prefix == std::vector<int>(depth - 2, 7))
        c.sample("operation histories with this prefix");
    });
  } while (vh::nextDigits(prefix, radix));
  // 2. weighted graphs
  int call = 0;
  auto graphs = [&](int n, const std::vector<double> &w, int names, int mode) {
    static const int NM[3][6] = {{0, 1, 2, 3, 4, 5},
                                 {7, 3, 11, 100, 0, 20},
                                 {20000, 1, 400, 5, 10, 9}};
    call++;
    const int ne = n * (n - 1) / 2, K = w.size() + 1;
    // last two edges are enumerated inside the case
    std::vector<int> outer(std::max(0, ne - 2), 0), rad(outer.size(), K);
    do {
      run.run(vh::cat("g", n, "k", K, "n", names, "o", mode, "c", call, "_",
                      vh::digits(outer)),
              [&](vh::Case &c) {
                for (int a = 0; a < K && !c.fails; a++)
                  for (int b = 0; b < K && !c.fails; b++) {
                    std::vector<int> wt = outer;
                    wt.push_back(a);
                    wt.push_back(b);
                    Graph g;
                    Model m;
                    auto add = [&](int i, int j, int e) {
                      if (wt[e]) {
                        int x = NM[names][i], y = NM[names][j];
                        if (mode & 1)
                          std::swap(x, y);
                        g.addEdge(x, y, w[wt[e] - 1]);
                        m.edge(x, y, w[wt[e] - 1]);
                        if (mode & 2) { // as the calibration does: both ways
                          g.addEdge(y, x, w[wt[e] - 1]);
                          m.edge(y, x, w[wt[e] - 1]);
                        }
                        c.step();
                      }
                    };
                    if (!(mode & 1))
                      for (int i = 0; i < n; i++) {
                        g.addVertex(NM[names][i]);
                        m.vertex(NM[names][i]);
                      }
                    std::vector<std::array<int, 3>> E;
                    int e = 0;
                    for (int i = 0; i < n; i++)
                      for (int j = i + 1; j < n; j++, e++)
                        E.push_back({i, j, e});
                    if (mode & 1)
                      std::reverse(E.begin(), E.end());
                    for (auto &x : E)
                      add(x[0], x[1], x[2]);
                    c.state(m.key());
                    c.trace();
                    judge(c, g, m);
                  }
              });
    } while (vh::nextDigits(outer, rad));
  };
  for (int mode = 0; mode < 4; mode++)
    for (int names = 0; names < 3; names++) {
      graphs(3, {1, 0.5, 1 / 3., 0.25, 0.1}, names, mode);
      graphs(4, {1, 0.5, 1 / 3., 0.2}, names, mode);
    }
  // weights between which little or much decides
  for (int mode = 0; mode < 4; mode += 2) {
    graphs(3, {0.5, 0.25, 0.25 + 1e-10, 0.5 - 1e-10, 0.5 + 3e-13}, mode, mode);
    graphs(4, {1 / 3000., 1 / 3001., 1 / 6001., 2 / 3000. + 1e-12}, 1, mode);
    graphs(4, {1e-9, 1, 1e9, 1e9 + 1e-6}, 2, mode);
  }
  graphs(5, {1, 0.4}, 1, 2);
  if (run.thorough()) {
    graphs(5, {1, 0.5, 0.2}, 2, 2);
    graphs(5, {1, 0.5, 0.2}, 1, 1);
    graphs(6, {0.3}, 1, 3);
  }
  // 3. chains, cycles and stars of many vertices
  for (int n = 6; n <= (run.thorough() ? 60 : 30); n++)
    for (int shape = 0; shape < 4; shape++)
      run.run(vh::cat("big", n, "s", shape), [&](vh::Case &c) {
        Graph g;
        Model m;
        auto add = [&](int a, int b, int k) {
          g.addEdge(a, b, 1.0 / k);
          m.edge(a, b, 1.0 / k);
          c.step();
        };
        for (int i = 0; i + 1 < n; i++)
          add(shape == 2 ? 0 : i * 3, (i + 1) * 3, 1 + (i * 7) % 5);
        if (shape == 1)
          add(0, (n - 1) * 3, 2);
        if (shape == 3)
          for (int i = 0; i + 5 < n; i++)
            add(i * 3, (i + 5) * 3, 1 + (i * 3) % 40);
        c.trace();
        c.state(m.key());
        judge(c, g, m);
        c.sample(m.key().substr(0, 80));
      });
  return run.finish();
}
