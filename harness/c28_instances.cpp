// Several calibrations in one process, their stages interleaved: each gives
// what it gives alone. All schedules with at most the given number of switches,
// in one thread or in a thread of its own for each calibration.
#include "world.hpp"
#include "McCalib.hpp"
#include <condition_variable>
#include <memory>
#include <mutex>
#include <thread>
using namespace world;
using McCalib::Calibration;
namespace {
struct Scene {
  World w;
  std::vector<Obs> obs;
  Options o;
  double tol = 2e-3;
  bool displaced = false; // some corners are
};
void displace(Obs &o, std::vector<int> which) {
  for (int i : which)
    o.px[i] += cv::Point2f(5.2f, -3);
}
Scene scene(int k) {
  Scene s;
  if (k == 0) { // two cameras, two boards
    s.w = World::standard(2, 2, 4, 0, true);
    for (int f = 0; f < 4; f++)
      for (int c = 0; c < 2; c++)
        for (int b = 0; b < 2; b++)
          if ((f + c + b) % 3)
            s.obs.push_back(s.w.observe(c, f, b));
    for (auto &o : s.obs) // rejected with this threshold
      displace(o, {o.f, o.f + 5});
    s.o.ransac = 1.5;
    s.displaced = true;
  } else if (k == 1) { // groups that share no view, fisheye
    s.w = World::standard(3, 2, 9, 1, true);
    for (int f = 0; f < 9; f++) {
      s.obs.push_back(s.w.observe(0, f, 0));
      if (f % 2)
        s.obs.push_back(s.w.observe(1, f, 0));
      s.obs.push_back(s.w.observe(2, f, 1));
    }
    s.o.he_approach = 1;
    s.o.iterations = 30;
  } else if (k == 2) { // wrong intrinsics to refine
    s.w = World::standard(2, 1, 8, 0, true);
    for (int f = 0; f < 8; f++)
      for (int c = 0; c < 2; c++)
        s.obs.push_back(s.w.observe(c, f, 0));
    s.o.fix_intrinsic = 0;
    s.o.intrinsicPerturb = 0.01;
    s.o.ransac = 20;
    s.tol = 5e-3;
  } else { // separate groups and objects, both kinds of camera, other options
    s.w = World::standard(3, 3, 3, 2, true);
    for (int f = 0; f < 3; f++)
      for (int c = 0; c < 3; c++)
        s.obs.push_back(s.w.observe(c, f, c));
    s.o.quaternion_averaging = 0;
    s.o.iterations = 20;
    for (auto &o : s.obs) // kept with this one
      if (o.f == 1)
        displace(o, {4});
    s.o.ransac = 14;
    s.tol = 3e-2;
    s.displaced = true;
  }
  return s;
}
// corners used of each camera and frame
std::map<std::pair<int, int>, int> used(const Result &r) {
  std::map<std::pair<int, int>, int> m;
  for (auto &g : r.groups)
    for (auto &f : g.frames)
      for (auto &k : f.cams)
        m[{k.cam, f.frame}] += k.nb;
  return m;
}
std::map<std::pair<int, int>, int> expected(const Scene &s) {
  std::map<std::pair<int, int>, int> m;
  for (auto &o : s.obs)
    m[{o.c, o.f}] += (int)o.ids.size() - (s.displaced && s.o.ransac < 5 ? 2 : 0);
  return m;
}
constexpr int STEPS = 21;
struct Instance {
  const Scene &s;
  std::string dir;
  std::unique_ptr<Calibration> cal;
  int next = 0;
  std::string error;
  void step() {
    try {
      go(next++);
    } catch (const std::exception &e) {
      error = vh::cat("step ", next - 1, ": ", e.what());
      next = STEPS;
    }
  }
  bool done() const { return next >= STEPS; }
  void go(int k) {
    switch (k) { // the steps of the calibrate program
    case 0:
      cal = std::make_unique<Calibration>(dir + "/config.yml");
      return;
    case 1:
      return cal->boardExtraction();
    case 2:
      return cal->initIntrinsic();
    case 3:
      return cal->calibrate3DObjects();
    case 4:
      return cal->calibrateCameraGroup();
    case 5:
      return cal->merge3DObjects();
    case 6:
      return cal->findPairObjectForNonOverlap();
    case 7:
      return cal->findPoseNoOverlapAllCamGroup();
    case 8:
    case 11:
      cal->initInterCamGroupGraph();
      return cal->mergeCameraGroup();
    case 9:
    case 12:
      return cal->mergeAllCameraGroupObs();
    case 10:
      return cal->merge3DObjects();
    case 13:
      cal->estimatePoseAllObjects();
      return cal->computeAllObjPoseInCameraGroup();
    case 14:
      cal->refineAllCameraGroupAndObjects();
      if (cal->fix_intrinsic_ == 0)
        cal->refineAllCameraGroupAndObjectsAndIntrinsic();
      return;
    case 15:
      cal->reproErrorAllCamGroup();
      return;
    case 16:
      return cal->saveCamerasParams();
    case 17:
      return cal->save3DObj();
    case 18:
      return cal->save3DObjPose();
    case 19:
      cal->saveReprojectionErrorToFile();
      cal->computeAvgReprojectionError();
      return cal->saveDetectedKeypoints();
    case 20:
      cal.reset();
    }
  }
};
// runs the instances in the given order of turns
void inOneThread(std::vector<Instance> &in, const std::vector<int> &turns) {
  for (int t : turns)
    if (!in[t].done())
      in[t].step();
}
void inOwnThreads(std::vector<Instance> &in, const std::vector<int> &turns) {
  std::mutex m;
  std::condition_variable cv;
  size_t pos = 0;
  std::vector<std::thread> th;
  for (size_t i = 0; i < in.size(); i++)
    th.emplace_back([&, i] {
      cv::theRNG().state = 0x5678 + i;
      std::unique_lock<std::mutex> l(m);
      for (;;) {
        cv.wait(l, [&] { return pos >= turns.size() || turns[pos] == (int)i; });
        if (pos >= turns.size())
          return;
        if (!in[i].done())
          in[i].step();
        pos++;
        cv.notify_all();
      }
    });
  for (auto &t : th)
    t.join();
}
} // namespace
int main(int argc, char **argv) {
  vh::Run run(argc, argv);
  quiet();
  const bool T = run.thorough();
  std::vector<Scene> S;
  for (int k = 0; k < 4; k++)
    S.push_back(scene(k));
  auto judge = [&](vh::Case &c, const std::vector<int> &who, const std::vector<int> &turns,
                   bool threads) {
    const std::string base = tempDir(run);
    std::vector<Instance> in;
    for (size_t i = 0; i < who.size(); i++) {
      const std::string dir = vh::cat(base, "/i", i);
      std::filesystem::create_directories(dir);
      std::filesystem::remove_all(dir + "/out");
      writeInputs(S[who[i]].w, S[who[i]].obs, S[who[i]].o, dir);
      in.push_back(Instance{S[who[i]], dir, nullptr, 0, ""});
    }
    cv::theRNG().state = 0x12345678 + run.salt;
    vh::seedRandomDevice(17 + run.salt);
    (threads ? inOwnThreads : inOneThread)(in, turns);
    for (size_t i = 0; i < in.size(); i++) {
      const Scene &s = in[i].s;
      const std::string me = vh::cat("calibration ", i, " (scene ", who[i], "): ");
      if (!in[i].error.empty())
        return c.fail("exception", me + in[i].error);
      Result r = readOutputs(s.w, in[i].dir, s.o);
      r.rc = 0;
      const std::string want = referenceModel(s.w, s.obs).key(), got = resultPartition(r).key();
      if (want != got)
        return c.fail("partition", me + got + " expected " + want);
      std::string e = compareWithTruth(s.w, s.obs, r, s.tol);
      if (e.empty())
        e = comparePoses(s.w, s.obs, r, s.tol);
      if (!e.empty())
        return c.fail("truth", me + e);
      if (used(r) != expected(s))
        return c.fail("corners", me + "uses other corners than alone");
      e = s.displaced ? "" : checkReport(s.w, s.obs, r);
      if (!e.empty())
        return c.fail("report", me + e);
      c.trace();
    }
    c.step(turns.size());
    c.state(c.id);
  };
  auto schedule = [](const std::vector<std::pair<int, int>> &blocks) {
    std::vector<int> t;
    for (auto &b : blocks)
      t.insert(t.end(), b.second, b.first);
    return t;
  };
  // 1. two calibrations, up to three switches
  for (int a = 0; a < 4; a++)
    for (int b = 0; b < 4; b++)
      for (int i = 1; i <= STEPS; i++)
        for (int j = 1; j <= STEPS; j++) {
          if (!T && (i + 2 * j + a + b) % 3)
            continue;
          run.run(vh::cat("two_", a, b, "_", i, "_", j), [&](vh::Case &c) {
            judge(c, {a, b}, schedule({{0, i}, {1, j}, {0, STEPS}, {1, STEPS}}), (i + j + a) % 2);
          });
        }
  // 2. five switches
  for (int a = 0; a < 4; a++)
    for (int b = 0; b < 4; b++)
      for (int i = 1; i < STEPS; i += T ? 1 : 4)
        for (int j = 1; j < STEPS; j += T ? 2 : 4)
          for (int k = 1; i + k < STEPS; k += T ? 3 : 5)
            run.run(vh::cat("five_", a, b, "_", i, "_", j, "_", k), [&](vh::Case &c) {
              judge(c, {a, b},
                    schedule({{0, i}, {1, j}, {0, k}, {1, STEPS / 3}, {0, STEPS}, {1, STEPS}}),
                    (i + j + k) % 2);
            });
  // 3. turn by turn, two to four calibrations, every order of starting
  for (int n = 2; n <= 4; n++) {
    std::vector<int> p;
    for (int i = 0; i < n; i++)
      p.push_back(i);
    do
      for (int len = 1; len <= (T ? 7 : 3); len++)
        run.run(vh::cat("turns_", vh::digits(p), "_", len), [&](vh::Case &c) {
          std::vector<int> t;
          for (int s = 0; s < STEPS; s += len)
            for (int q : p)
              t.insert(t.end(), len, q);
          std::vector<int> who;
          for (int i = 0; i < n; i++)
            who.push_back((i + len) % 4);
          judge(c, who, t, (len + p[0]) % 2);
        });
    while (std::next_permutation(p.begin(), p.end()));
  }
  return run.finish();
}
