// Further passes: after each point of the calibration from which poses exist,
// every sequence of the passes the library offers leaves a true result true.
#include "world.hpp"
#include "McCalib.hpp"
using namespace world;
using McCalib::Calibration;
namespace {
struct Scene {
  World w;
  std::vector<Obs> obs;
  Options o;
  bool displaced = false; // the first corner of each view is
};
Scene scene(int k) {
  Scene s;
  s.o.iterations = 40;
  if (k == 0) { // a chain of cameras, two boards
    s.w = World::standard(3, 2, 3, 2, true);
    for (int f = 0; f < 3; f++)
      for (int b = 0; b < 2; b++) {
        s.obs.push_back(s.w.observe(1, f, b));
        s.obs.push_back(s.w.observe(f == 1 ? 2 : 0, f, b));
      }
    s.displaced = true;
  } else if (k == 1) { // groups that share no view
    s.w = World::standard(3, 2, 6, 1, true);
    for (int f = 0; f < 6; f++) {
      s.obs.push_back(s.w.observe(0, f, 0));
      if (f % 2)
        s.obs.push_back(s.w.observe(1, f, 0));
      s.obs.push_back(s.w.observe(2, f, 1));
    }
    s.o.he_approach = 1;
  } else if (k == 2) { // free intrinsics
    s.w = World::standard(2, 2, 5, 2, true);
    for (int f = 0; f < 5; f++)
      for (int c = 0; c < 2; c++)
        for (int b = 0; b < 2; b++)
          if (b == 0 || f > 2)
            s.obs.push_back(s.w.observe(c, f, b));
    s.o.fix_intrinsic = 0;
  } else { // separate groups and objects
    s.w = World::standard(4, 3, 3, 2, true);
    for (int f = 0; f < 3; f++)
      for (int c = 0; c < 4; c++)
        s.obs.push_back(s.w.observe(c, f, c % 3));
    s.o.quaternion_averaging = 0;
  }
  return s;
}
constexpr int PASSES = 14, POINTS = 4;
void pass(Calibration &k, int p) {
  switch (p) {
  case 0:
    return k.estimatePoseAllObjects();
  case 1:
    k.computeReproErrAllBoard();
    k.computeReproErrAllObject();
    return k.reproErrorAllCamGroup();
  case 2:
    return k.refineAllObject3D();
  case 3:
    return k.computeAllObjPoseInCameraGroup();
  case 4:
    return k.refineAllCameraGroup();
  case 5:
    return k.refineAllCameraGroupAndObjects();
  case 6:
    return k.refineAllCameraGroupAndObjectsAndIntrinsic();
  case 7:
    return k.merge3DObjects();
  case 8:
    k.findPairObjectForNonOverlap();
    return k.findPoseNoOverlapAllCamGroup();
  case 9:
    k.initInterCamGroupGraph();
    k.mergeCameraGroup();
    k.mergeAllCameraGroupObs();
    k.estimatePoseAllObjects();
    return k.computeAllObjPoseInCameraGroup();
  case 10:
    k.estimatePoseAllBoards();
    return k.refineIntrinsicAndPoseAllCam();
  case 11:
    k.saveCamerasParams();
    k.save3DObj();
    k.save3DObjPose();
    k.saveReprojectionErrorToFile();
    k.saveDetectedKeypoints();
    k.computeAvgReprojectionError();
    return;
  case 12:
    k.computeBoardsPairPose();
    k.initInterTransform(k.board_pose_pairs_, k.inter_board_transform_);
    k.initInterBoardsGraph();
    k.computeCamerasPairPose();
    k.initInterTransform(k.camera_pose_pairs_, k.inter_camera_transform_);
    return k.initInterCamerasGraph();
  case 13:
    k.computeObjectsPairPose();
    k.initInterTransform(k.object_pose_pairs_, k.inter_object_transform_);
    return k.initInterObjectsGraph();
  }
}
// the program, with the passes at the given point
void go(const std::string &dir, int point, const std::vector<int> &seq) {
  Calibration k(dir + "/config.yml");
  auto here = [&](int p) {
    if (p == point)
      for (int s : seq)
        pass(k, s);
  };
  k.boardExtraction();
  k.initIntrinsic();
  k.calibrate3DObjects();
  k.calibrateCameraGroup();
  here(0);
  k.merge3DObjects();
  here(1);
  k.findPairObjectForNonOverlap();
  k.findPoseNoOverlapAllCamGroup();
  k.initInterCamGroupGraph();
  k.mergeCameraGroup();
  k.mergeAllCameraGroupObs();
  k.merge3DObjects();
  here(2);
  k.initInterCamGroupGraph();
  k.mergeCameraGroup();
  k.mergeAllCameraGroupObs();
  k.estimatePoseAllObjects();
  k.computeAllObjPoseInCameraGroup();
  k.refineAllCameraGroupAndObjects();
  if (k.fix_intrinsic_ == 0)
    k.refineAllCameraGroupAndObjectsAndIntrinsic();
  here(3);
  k.reproErrorAllCamGroup();
  k.saveCamerasParams();
  k.save3DObj();
  k.save3DObjPose();
  k.saveReprojectionErrorToFile();
}
} // namespace
int main(int argc, char **argv) {
  vh::Run run(argc, argv);
  quiet();
  const bool T = run.thorough();
  const std::string dir = tempDir(run);
  for (int k = 0; k < 4; k++)
    for (int point = 0; point < POINTS; point++)
      for (int depth = 0; depth <= 3; depth++) {
        int n = 1;
        for (int i = 0; i < depth; i++)
          n *= PASSES;
        for (int code = 0; code < n; code++) {
          std::vector<int> seq;
          for (int i = 0, q = code; i < depth; i++, q /= PASSES)
            seq.push_back(q % PASSES);
          if (depth == 3 && !T && (seq[0] + 3 * seq[1] + 5 * seq[2] + k + point) % 17)
            continue;
          run.run(vh::cat("s", k, "_p", point, "_", vh::digits(seq)), [&](vh::Case &c) {
            Scene s = scene(k);
            std::filesystem::remove_all(dir + "/out");
            std::filesystem::create_directories(dir);
            if (s.displaced)
              for (size_t i = 0; i < s.obs.size(); i++)
                s.obs[i].px[i % s.obs[i].px.size()] += cv::Point2f(31, -47);
            writeInputs(s.w, s.obs, s.o, dir);
            if (s.displaced) // never used
              for (size_t i = 0; i < s.obs.size(); i++) {
                const size_t j = i % s.obs[i].px.size();
                s.obs[i].ids.erase(s.obs[i].ids.begin() + j);
                s.obs[i].px.erase(s.obs[i].px.begin() + j);
              }
            cv::theRNG().state = 0x1357 + run.salt;
            go(dir, point, seq);
            c.step(1 + depth);
            c.trace();
            c.state(c.id);
            Result r = readOutputs(s.w, dir, s.o);
            r.rc = 0;
            const std::string want = referenceModel(s.w, s.obs).key(), got = resultPartition(r).key();
            if (want != got)
              return c.fail("partition", got + " expected " + want);
            std::string e = compareWithTruth(s.w, s.obs, r, 2e-3);
            if (!e.empty())
              return c.fail("truth", e);
            e = comparePoses(s.w, s.obs, r, 2e-3);
            if (!e.empty())
              return c.fail("object pose", e);
            e = checkReport(s.w, s.obs, r);
            if (!e.empty())
              return c.fail("report", e);
          });
        }
      }
  return run.finish();
}
