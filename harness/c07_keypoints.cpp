// Saved keypoints re-read as input carry exactly the same observations; a
// calibration repeated from them gives the same result.
#include "registry.hpp"
#include "world.hpp"
using namespace world;
using registry::Item;
namespace {
const char *PATHS[] = {"img.png",
                       "",
                       "/a/b c/d.png",
                       "./x/Cam_001/0001.png",
                       "a: b.png",
                       "#img.png",
                       "quote\"d.png",
                       "it's.png",
                       "back\\slash.png",
                       "comma, [x] {y}.png",
                       "- dash.png",
                       "0012",
                       "3.5e2",
                       "~",
                       "true",
                       "caf\xc3\xa9.png",
                       " lead.png",
                       "trail.png ",
                       "tab\there.png",
                       "%YAML",
                       "&anchor *star.png",
                       "<x>&amp;.png"};
const float VALS[] = {0.f,       0.1f,      1.f / 3,   639.5f,    1279.9999f, 1e-7f,
                      -3.25f,    4095.123f, 123456.7f, 0.99999994f, 1.0000001f, 2.5f,
                      16777216.f, 1e-20f,   -0.1f,     511.f};
const int FRAMES[] = {0, 1, 2, 9, 10, 11, 99, 1000, 123456};
void save(const std::string &path, const std::vector<std::pair<int, int>> &sz,
          const std::vector<Item> &v) {
  cv::FileStorage st(path, cv::FileStorage::WRITE);
  st << "nb_camera" << (int)sz.size();
  for (int c = 0; c < (int)sz.size(); c++) {
    std::vector<int> fi, bi;
    std::vector<std::string> fp;
    std::vector<std::vector<cv::Point2f>> pts;
    std::vector<std::vector<int>> ids;
    for (auto &o : v)
      if (o.c == c) {
        fi.push_back(o.f);
        bi.push_back(o.b);
        fp.push_back(o.path);
        pts.push_back(o.px);
        ids.push_back(o.ids);
      }
    st << "camera_" + std::to_string(c) << "{"
       << "img_width" << sz[c].first << "img_height" << sz[c].second
       << "frame_idxs" << fi << "frame_paths" << fp << "board_idxs" << bi
       << "pts_2d" << pts << "charuco_idxs" << ids << "}";
  }
}
} // namespace
int main(int argc, char **argv) {
  vh::Run run(argc, argv);
  quiet();
  run.retries = 0;
  const std::string dir = tempDir(run);
  auto roundTrip = [&](vh::Case &c, int C, int B, const std::vector<Item> &v) {
    World w = World::standard(C, B, 1);
    writeInputs(w, {}, Options(), dir);
    auto cal = std::make_unique<McCalib::Calibration>(dir + "/config.yml");
    std::vector<std::pair<int, int>> sz;
    for (int k = 0; k < C; k++)
      sz.emplace_back(640 + 7 * k, 480 + 3 * k);
    for (auto &i : v)
      cal->insertNewBoard(i.c, i.f, i.b, i.px, i.ids, i.path);
    for (int k = 0; k < C; k++) {
      cal->cams_[k]->im_cols_ = sz[k].first;
      cal->cams_[k]->im_rows_ = sz[k].second;
    }
    // three generations: memory -> file -> memory -> file -> memory
    for (int gen = 0; gen < 3; gen++) {
      cal->saveDetectedKeypoints();
      auto next = std::make_unique<McCalib::Calibration>(dir + "/config.yml");
      next->keypoints_path_ = dir + "/out/detected_keypoints_data.yml";
      next->boardExtraction();
      cal = std::move(next);
      c.trace();
      c.step(v.size());
      auto e = registry::verify(*cal, v);
      if (!e.empty())
        return c.fail("round-trip", vh::cat("generation ", gen, ": ", e));
      for (int k = 0; k < C; k++)
        if (cal->cams_[k]->im_cols_ != sz[k].first ||
            cal->cams_[k]->im_rows_ != sz[k].second)
          return c.fail("size", vh::cat("image size of camera ", k));
    }
  };
  // 1. path strings x point values
  const int NP = sizeof PATHS / sizeof *PATHS;
  for (int p = 0; p < NP; p++)
    for (int q = 0; q < NP; q++)
      run.run(vh::cat("path_", p, "_", q), [&](vh::Case &c) {
        std::vector<Item> v;
        int k = p * NP + q;
        for (int cam = 0; cam < 2; cam++) {
          Item i{cam, 3 + cam, 0, {}, {}, PATHS[cam ? q : p]};
          for (int j = 0; j < 6; j++) {
            i.ids.push_back((j * 5 + k) % 12);
            i.px.emplace_back(VALS[(k + j) % 16], VALS[(k / 3 + 2 * j + 1) % 16]);
          }
          v.push_back(i);
          i.f += 2;
          v.push_back(i);
        }
        c.state(c.id);
        roundTrip(c, 2, 1, v);
        c.sample(std::string(PATHS[p]) + " | " + PATHS[q]);
      });
  // 2. visibility patterns with assorted frame numbers and point counts,
  // including several boards per image and cameras without observations
  const int bits = run.thorough() ? 14 : 11;
  for (int m = 0; m < 1 << bits; m++)
    run.run(vh::cat("vis_", m), [&](vh::Case &c) {
      std::vector<Item> v;
      for (int q = 0; q < bits; q++)
        if (m >> q & 1) {
          int cam = q % 3, b = (q / 3) % 3;
          int f = FRAMES[(q / 3 * 2 + m % 9) % 9];
          Item i{cam, f, b, {}, {}, vh::cat("c", cam, "/f", f)};
          bool dup = false;
          for (auto &o : v)
            dup |= o.c == cam && o.f == f && o.b == b;
          if (dup)
            continue;
          for (int j = 0; j < 1 + (q + m) % 12; j++) {
            i.ids.push_back((j * 7 + q) % 12);
            i.px.emplace_back(VALS[(m + j) % 16] + j, VALS[(q + 3 * j) % 16]);
          }
          v.push_back(i);
        }
      c.state(registry::key(v));
      roundTrip(c, 3, 3, v);
    });
  // 3. more cameras, boards and frames than one digit
  for (int C : {1, 10, 11, 13})
    for (int B : {1, 10, 12})
      for (int F : {1, 12, 101})
        run.run(vh::cat("large_", C, "_", B, "_", F), [&](vh::Case &c) {
          std::vector<Item> v;
          for (int cam = 0; cam < C; cam++)
            for (int f = 0; f < F; f += 1 + F / 12)
              for (int b = cam % 3; b < B; b += 4) {
                Item i{cam, f, b, {}, {}, vh::cat("/r/", cam, "/", f)};
                for (int j = 0; j < 6; j++) {
                  i.ids.push_back(11 - j);
                  i.px.emplace_back(cam + 0.1f * j, f + 0.7f * b);
                }
                v.push_back(i);
              }
          c.state(c.id);
          roundTrip(c, C, B, v);
        });
  // 4. calibrate, then calibrate again from the saved keypoints
  for (int m = 1; m < (run.thorough() ? 256 : 64); m++)
    run.run(vh::cat("again_", m), [&](vh::Case &c) {
      World w = World::standard(2, 2, 4, m % 3, true);
      std::vector<Obs> obs;
      for (int q = 0; q < 8; q++)
        if (m >> q & 1 || q == 0) {
          obs.push_back(w.observe(q % 2, q / 2, (q / 2 + (m >> 3)) % 2));
        }
      // permuted and partial corner lists
      for (size_t i = 0; i < obs.size(); i++) {
        std::reverse(obs[i].ids.begin(), obs[i].ids.end());
        std::reverse(obs[i].px.begin(), obs[i].px.end());
        if (i % 2) {
          obs[i].ids.resize(8);
          obs[i].px.resize(8);
        }
      }
      Options o;
      o.iterations = 60;
      Result r = calibrate(w, obs, o, dir + "/a");
      std::filesystem::copy_file(dir + "/a/out/detected_keypoints_data.yml",
                                 dir + "/saved.yml",
                                 std::filesystem::copy_options::overwrite_existing);
      {
        std::vector<Item> v;
        for (auto &x : obs)
          v.push_back({x.c, x.f, x.b, x.ids, x.px, ""});
        McCalib::Calibration k(dir + "/a/config.yml");
        k.keypoints_path_ = dir + "/saved.yml";
        k.boardExtraction();
        auto e = registry::verify(k, v, false);
        if (!e.empty())
          return c.fail("saved-after-calibration", e);
      }
      std::filesystem::copy_file(dir + "/saved.yml", dir + "/a/keypoints.yml",
                                 std::filesystem::copy_options::overwrite_existing);
      std::filesystem::remove_all(dir + "/a/out");
      std::string a0 = "calibrate", a1 = dir + "/a/config.yml";
      std::vector<char *> av = {a0.data(), a1.data(), nullptr};
      int rc = calibrate_main(2, av.data());
      Result r2 = readOutputs(w, dir + "/a", o);
      c.trace(2);
      c.step(obs.size());
      if (rc || r.rc)
        return c.fail("rc", "non-zero exit status");
      if (resultPartition(r).key() != resultPartition(r2).key())
        return c.fail("again-partition", resultPartition(r2).key() + " was " +
                                             resultPartition(r).key());
      for (auto *x : {&r, &r2}) {
        auto e = compareWithTruth(w, obs, *x, 5e-3);
        if (!e.empty())
          return c.fail("again-pose", e);
      }
    });
  return run.finish();
}
