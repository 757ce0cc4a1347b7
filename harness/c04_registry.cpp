// Every order of registering / loading observations leads to the same
// consistent registries, and to the same calibration.
#include "registry.hpp"
#include "world.hpp"
#include <boost/log/core.hpp>
#include <numeric>
using namespace world;
using registry::Item;
namespace {
const int FR[3] = {4, 0, 17};
Item item(int c, int f, int b) {
  Item i{c, FR[f], b, {}, {}, ""};
  i.path = vh::cat("/data/cam ", c, "/f", f, ".png");
  for (int k = 0; k < 3 + (c + f + b) % 3; k++) {
    i.ids.push_back((k * 5 + b + f) % 12);
    i.px.emplace_back(10 * k + c + 0.1f, f * 7 + b * 0.3f);
  }
  return i;
}
void writeKp(const std::string &path, int C, const std::vector<Item> &v) {
  cv::FileStorage st(path, cv::FileStorage::WRITE);
  st << "nb_camera" << C;
  for (int c = 0; c < C; c++) {
    std::vector<int> fi, bi;
    std::vector<std::string> fp;
    std::vector<std::vector<cv::Point2f>> pts;
    std::vector<std::vector<int>> ids;
    for (auto &o : v)
      if (o.c == c) {
        fi.push_back(o.f);
        bi.push_back(o.b);
        fp.push_back(o.path);
        pts.push_back(o.px);
        ids.push_back(o.ids);
      }
    st << "camera_" + std::to_string(c) << "{"
       << "img_width" << 640 + c << "img_height" << 480 + c << "frame_idxs"
       << fi << "frame_paths" << fp << "board_idxs" << bi << "pts_2d" << pts
       << "charuco_idxs" << ids << "}";
  }
}
} // namespace
int main(int argc, char **argv) {
  vh::Run run(argc, argv);
  quiet();
  run.retries = 0;
  World w = World::standard(2, 2, 3);
  const std::string dir = tempDir(run);
  Options o;
  writeInputs(w, {}, o, dir);
  auto fresh = [&]() {
    return std::make_unique<McCalib::Calibration>(dir + "/config.yml");
  };
  auto insert = [](McCalib::Calibration &cal, const Item &i) {
    cal.insertNewBoard(i.c, i.f, i.b, i.px, i.ids, i.path);
  };
  // 1. every insertion sequence of distinct observations, checked after every
  // step. A case enumerates all continuations of a prefix of 3 insertions.
  std::vector<Item> U;
  for (int c = 0; c < 2; c++)
    for (int f = 0; f < 2; f++)
      for (int b = 0; b < 2; b++)
        U.push_back(item(c, f, b));
  const int depth = run.thorough() ? 7 : 5;
  const int n = U.size();
  for (int a = 0; a < n; a++)
    for (int b = 0; b < n; b++)
      for (int d = 0; d < n; d++) {
        if (a == b || b == d || a == d)
          continue;
        run.run(vh::cat("seq_", a, b, d), [&](vh::Case &c) {
          std::vector<int> p{a, b, d};
          std::function<void()> rec = [&]() {
            if (c.fails)
              return;
            if ((int)p.size() == depth) {
              auto cal = fresh();
              std::vector<Item> done;
              for (int q : p) {
                insert(*cal, U[q]);
                done.push_back(U[q]);
                c.step();
                auto s = done;
                std::sort(s.begin(), s.end());
                c.state(registry::key(s));
                auto e = registry::verify(*cal, done);
                if (!e.empty())
                  return c.fail("registry", "after " + registry::key(done) + ": " + e);
              }
              c.trace();
              return;
            }
            for (int q = 0; q < n; q++)
              if (std::find(p.begin(), p.end(), q) == p.end()) {
                p.push_back(q);
                rec();
                p.pop_back();
              }
          };
          rec();
          c.sample("all insertion sequences with this prefix");
        });
      }
  // 2. every subset of observations in a keypoints file, in forward, backward
  // and rotated entry order
  std::vector<Item> V;
  for (int c = 0; c < 2; c++)
    for (int f = 0; f < 3; f++)
      for (int b = 0; b < 2; b++)
        V.push_back(item(c, f, b));
  for (int m = 1; m < 1 << 12; m++)
    for (int ord = 0; ord < (run.thorough() ? 4 : 2); ord++)
      run.run(vh::cat("file_", m, "_", ord), [&](vh::Case &c) {
        std::vector<Item> v;
        for (int q = 0; q < 12; q++)
          if (m >> q & 1)
            v.push_back(V[q]);
        if (ord & 1)
          std::reverse(v.begin(), v.end());
        if (ord & 2)
          std::rotate(v.begin(), v.begin() + v.size() / 2, v.end());
        writeKp(dir + "/keypoints.yml", 2, v);
        auto cal = fresh();
        cal->boardExtraction();
        c.step(v.size());
        c.trace();
        c.state(registry::key(v));
        auto e = registry::verify(*cal, v);
        if (!e.empty())
          return c.fail("load", e);
        for (int k = 0; k < 2; k++)
          if (cal->cams_[k]->im_cols_ != 640 + k || cal->cams_[k]->im_rows_ != 480 + k)
            c.fail("size", vh::cat("image size of camera ", k, " is ",
                                   cal->cams_[k]->im_cols_, "x",
                                   cal->cams_[k]->im_rows_));
        // 3. what is saved is what was loaded
        cal->saveDetectedKeypoints();
        auto cal2 = fresh();
        cal2->keypoints_path_ = dir + "/out/detected_keypoints_data.yml";
        cal2->boardExtraction();
        e = registry::verify(*cal2, v);
        if (!e.empty())
          return c.fail("round-trip", e);
        for (int k = 0; k < 2; k++)
          if (cal2->cams_[k]->im_cols_ != 640 + k || cal2->cams_[k]->im_rows_ != 480 + k)
            c.fail("round-trip", "image size changed");
        c.trace();
      });
  // long recordings in any order of the entries
  for (int F : {33, 101, 257, 300})
    for (int ord = 0; ord < 5; ord++)
      for (int every = 1; every < 4; every++)
        run.run(vh::cat("longfile_", F, "_", ord, "_", every), [&](vh::Case &c) {
          std::vector<Item> v;
          const int n = 2 * F * 2;
          for (int q = 0; q < n; q += every) {
            const int k = ord == 0 ? q : ord == 1 ? n - 1 - q : (int)((q * (ord == 2 ? 7L : ord == 3 ? 11L : 641L)) % n);
            Item i{k % 2, k / 4 * (F == 33 ? 1000 : 3) + 1, k / 2 % 2, {}, {}, vh::cat("/d/c", k % 2, "/", k / 4, ".png")};
            for (int j = 0; j < 3 + k % 5; j++) {
              i.ids.push_back((j * 5 + k) % 12);
              i.px.emplace_back(10 * j + 0.1f * k, k * 0.3f);
            }
            bool twice = false;
            for (auto &x : v)
              twice |= x.c == i.c && x.f == i.f && x.b == i.b;
            if (!twice)
              v.push_back(i);
          }
          writeKp(dir + "/keypoints.yml", 2, v);
          auto cal = fresh();
          cal->boardExtraction();
          c.step(v.size());
          c.trace();
          c.state(c.id);
          auto e = registry::verify(*cal, v);
          if (!e.empty())
            return c.fail("load", e);
        });
  // 4. the calibration itself does not depend on the order of the entries:
  // every permutation of the entries of the second camera and every rotation
  // of those of the first one
  World wc = World::standard(2, 2, 5, 2, true);
  std::vector<Obs> A, B;
  for (int f = 0; f < 5; f++)
    for (int b = 0; b < 2; b++)
      A.push_back(wc.observe(0, f, b));
  for (auto &q : std::vector<std::pair<int, int>>{{0, 0}, {1, 1}, {2, 0}, {2, 1}, {4, 0}})
    B.push_back(wc.observe(1, q.first, q.second));
  std::vector<int> perm(B.size());
  std::iota(perm.begin(), perm.end(), 0);
  do
    for (int rot = 0; rot < (int)A.size(); rot += run.thorough() ? 1 : 5)
      run.run(vh::cat("cal_", vh::digits(perm), "_", rot), [&](vh::Case &c) {
        std::vector<Obs> v(A.begin() + rot, A.end());
        v.insert(v.end(), A.begin(), A.begin() + rot);
        for (int q : perm)
          v.push_back(B[q]);
        Options oo;
        oo.iterations = 60;
        Result r = calibrate(wc, v, oo, dir + "/cal");
        c.trace();
        c.step(v.size());
        if (r.rc)
          return c.fail("rc", vh::cat("status ", r.rc));
        if (resultPartition(r).key() != referenceModel(wc, v).key())
          return c.fail("order-partition", resultPartition(r).key());
        auto e = compareWithTruth(wc, v, r);
        if (!e.empty())
          c.fail("order-pose", e);
      });
  while (std::next_permutation(perm.begin(), perm.end()));
  return run.finish();
}
