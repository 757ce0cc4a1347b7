// The reprojection report equals an independent recomputation from the other
// result files and the observations, also for data no model fits exactly.
#include "McCalib.hpp"
#include "world.hpp"
using namespace world;
namespace {
// the application's public call sequence, for the average it only logs
double average(const std::string &config) {
  McCalib::Calibration k(config);
  k.boardExtraction();
  k.initIntrinsic();
  k.calibrate3DObjects();
  k.calibrateCameraGroup();
  k.merge3DObjects();
  k.findPairObjectForNonOverlap();
  k.findPoseNoOverlapAllCamGroup();
  k.initInterCamGroupGraph();
  k.mergeCameraGroup();
  k.mergeAllCameraGroupObs();
  k.merge3DObjects();
  k.initInterCamGroupGraph();
  k.mergeCameraGroup();
  k.mergeAllCameraGroupObs();
  k.estimatePoseAllObjects();
  k.computeAllObjPoseInCameraGroup();
  k.refineAllCameraGroupAndObjects();
  if (k.fix_intrinsic_ == 0)
    k.refineAllCameraGroupAndObjectsAndIntrinsic();
  k.reproErrorAllCamGroup();
  k.saveCamerasParams();
  k.save3DObj();
  k.save3DObjPose();
  k.saveReprojectionErrorToFile();
  return k.computeAvgReprojectionError();
}
void judge(vh::Run &run, vh::Case &c, const World &w, const std::vector<Obs> &obs, const Options &o,
           bool app) {
  Result r;
  double got = 0, want = 0;
  if (app) {
    r = calibrate(w, obs, o, tempDir(run));
  } else {
    const std::string dir = tempDir(run);
    cleanDir(dir + "/out");
    writeInputs(w, obs, o, dir);
    cv::theRNG().state = 0x12345678 + run.salt;
    got = average(dir + "/config.yml");
    r = readOutputs(w, dir, o);
    r.rc = 0;
  }
  c.trace();
  c.step(obs.size());
  if (r.rc != 0)
    return c.fail("rc", vh::cat("exit status ", r.rc));
  std::string e = checkReport(w, obs, r, 5e-3, &want);
  if (!e.empty())
    return c.fail("report", e);
  if (!app && !(std::abs(got - want) < 5e-3))
    c.fail("average", vh::cat("average error ", got, " instead of ", want));
  c.state(vh::cat(resultPartition(r).key(), " ", std::round(want * 1000)));
  c.sample(vh::cat(resultPartition(r).key(), " mean error ", want));
}
} // namespace
int main(int argc, char **argv) {
  vh::Run run(argc, argv);
  quiet();
  auto grid = [&](int C, int F, int B, int model, int pattern, double amp, int stride) {
    World w = World::standard(C, B, F, model, true);
    const int n = C * F * B;
    for (long m = 1; m < 1L << n; m += stride)
      for (int app = 0; app < 2; app++) {
        if (!run.thorough() && m % 2 != app)
          continue;
        run.run(vh::cat("c", C, "f", F, "b", B, "m", model, "_", m, "_n", pattern, "_", amp, "_a", app),
                [&](vh::Case &c) {
                  std::vector<Obs> obs;
                  int k = 0;
                  for (int f = 0; f < F; f++)
                    for (int cam = 0; cam < C; cam++)
                      for (int b = 0; b < B; b++)
                        if (m >> k++ & 1)
                          obs.push_back(w.observe(cam, f, b));
                  disturb(obs, pattern, amp);
                  Options o;
                  o.iterations = 60;
                  o.ransac = 10;
                  judge(run, c, w, obs, o, app);
                });
      }
  };
  for (int p = 0; p < (run.thorough() ? 6 : 2); p++) {
    grid(2, 2, 2, 0, p, 0.4, 1);
    grid(1, 3, 3, 1, p, 0.4, run.thorough() ? 1 : 3);
    grid(3, 3, 1, 2, p, 0.4, run.thorough() ? 1 : 3);
    grid(2, 2, 2, 2, p, 0, run.thorough() ? 1 : 5);
    grid(2, 3, 2, 0, p, 0.4, run.thorough() ? 1 : 23);
  }
  // several camera groups, tied or not, with free or fixed intrinsics
  for (int part = 0; part < 27; part++)
    for (int nf : {3, 9})
      for (int fix = 0; fix < 2; fix++)
        for (int p = 0; p < (run.thorough() ? 4 : 1); p++)
          for (int app = 0; app < 2; app++)
            run.run(vh::cat("g", part, "_", nf, "_", fix, "_", p, "_a", app), [&](vh::Case &c) {
              const int b3[3] = {part % 3, part / 3 % 3, part / 9};
              World w = World::standard(3, 3, 3 * nf, 2, true);
              std::vector<Obs> obs;
              for (int k = 0; k < 3; k++)
                for (int f = 0; f < nf; f++) // disjoint frames for odd parts
                  obs.push_back(w.observe(k, part % 2 ? b3[k] * nf + f : f, b3[k]));
              disturb(obs, p, 0.25);
              Options o;
              o.fix_intrinsic = fix;
              o.ransac = 10;
              judge(run, c, w, obs, o, app);
            });
  // long recordings and large boards
  struct Long {
    int C, B, F, nx, ny;
  };
  for (const Long &l : std::vector<Long>{{2, 2, 70, 5, 4}, {1, 1, 130, 5, 5}, {2, 1, 8, 19, 16}, {1, 3, 60, 6, 4}})
    for (int p = 0; p < (run.thorough() ? 6 : 2); p++)
      for (int fix = 0; fix < 2; fix++)
        for (int app = 0; app < 2; app++)
          run.run(vh::cat("long", l.C, l.B, "_", l.F, "_", l.nx, "_", p, "_", fix, "_a", app), [&](vh::Case &c) {
            World w = World::standard(l.C, l.B, l.F, p % 3, true);
            for (auto &b : w.boards)
              b.sq *= 4.0 / l.nx, b.nx = l.nx, b.ny = l.ny;
            std::vector<Obs> obs;
            for (int f = 0; f < l.F; f++)
              for (int k = 0; k < l.C; k++)
                for (int b = 0; b < l.B; b++)
                  obs.push_back(w.observe(k, f, b));
            disturb(obs, p, 0.3);
            Options o;
            o.fix_intrinsic = fix;
            o.iterations = 60;
            o.ransac = 10;
            judge(run, c, w, obs, o, app);
          });
  return run.finish();
}
