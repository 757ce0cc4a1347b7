// Synthetic, exactly known multi-camera world + black-box driver of the
// calibrate application (keypoints/config/camera files in, result files out).
#pragma once
#include "vh.hpp"
#include <filesystem>
#include <opencv2/core.hpp>

int calibrate_main(int argc, char **argv); // apps/calibrate with main renamed

namespace world {

struct Pose { // X' = R X + t
  cv::Matx33d R = cv::Matx33d::eye();
  cv::Vec3d t{0, 0, 0};
  Pose inv() const { return {R.t(), -(R.t() * t)}; }
  Pose operator*(const Pose &o) const { return {R * o.R, R * o.t + t}; }
  cv::Vec3d operator()(const cv::Vec3d &x) const { return R * x + t; }
};
cv::Matx33d rotvec(double x, double y, double z);
Pose make(double rx, double ry, double rz, double tx, double ty, double tz);
double rotAngle(const cv::Matx33d &A, const cv::Matx33d &B);
double transErr(const Pose &a, const Pose &b);
Pose fromMat(const cv::Mat &m);
cv::Mat toMat(const Pose &p);

struct Cam {
  Pose T; // world -> camera
  int model = 0;
  double fx, fy, u0, v0;
  std::vector<double> d; // 5 (Brown k1 k2 p1 p2 k3) or 4 (Kannala)
  int w = 1280, h = 960;
};
struct Brd {
  Pose B; // board -> body
  int nx = 5, ny = 4;
  double sq = 0.1;
  int nPts() const { return (nx - 1) * (ny - 1); }
  cv::Vec3d pt(int k) const {
    return {(k % (nx - 1)) * sq, (k / (nx - 1)) * sq, 0};
  }
};
cv::Vec2d projectModel(const Cam &c, const cv::Vec3d &p); // p in camera frame

struct Obs {
  int c, f, b;
  std::vector<int> ids;
  std::vector<cv::Point2f> px;
};

struct World {
  std::vector<Cam> cams;
  std::vector<Brd> boards;
  std::vector<Pose> motion; // body -> world, per frame
  static World standard(int ncam, int nboard, int nframe, int model = 0,
                        bool distortion = false);
  Pose camFromBoard(int c, int f, int b) const {
    return cams[c].T * motion[f] * boards[b].B;
  }
  Obs observe(int c, int f, int b) const; // all points, noise free
  Pose relCam(int ref, int c) const {    // ref cam -> cam c
    return cams[c].T * cams[ref].T.inv();
  }
  Pose relBoard(int ref, int b) const { // board b -> ref board
    return boards[ref].B.inv() * boards[b].B;
  }
};

struct Options {
  int fix_intrinsic = 1, he_approach = 0, quaternion_averaging = 1;
  double ransac = 3;
  int iterations = 200;
  bool camParams = true;       // give the true intrinsics as initial values
  double intrinsicPerturb = 0; // relative perturbation of the initial focal
  std::string camFile = "";
  std::vector<double> focalPerturb; // per camera, relative (overrides the above)
  std::vector<double> centerPerturb, distPerturb; // per camera, pixels / absolute on k1
  std::string savePath;             // default dir/out
  std::string camParamsPath;        // use this file instead of writing one
  int saveDetection = 0, saveReprojection = 0;
};

struct CamOut {
  bool present = false;
  cv::Mat K, D, P; // P: camera_pose_matrix as written
  int type = -1, group = -1, w = 0, h = 0;
  Pose pose; // camera -> reference camera
};
struct ObjOut {
  cv::Mat pts;   // 5xN
  cv::Mat poses; // 6xM
};
struct RepCam {
  int cam, nb;
  std::vector<float> err;
};
struct RepFrame {
  int frame;
  std::vector<int> camList;
  std::vector<RepCam> cams;
};
struct RepGroup {
  int id;
  std::vector<int> frameList;
  std::vector<RepFrame> frames;
};
struct Result {
  int rc = -1;
  int nbCamera = -1;
  std::vector<CamOut> cams;
  std::map<int, ObjOut> objs;
  int nbGroups = -1;
  std::vector<RepGroup> groups;
  std::string dir;
};

// intrinsics written as initial values
void initialIntrinsics(const World &w, const Options &o, int c, cv::Mat &K, cv::Mat &D);
// dir must exist; writes config.yml, keypoints.yml, cams.yml there; outputs in
// dir/out
void writeInputs(const World &w, const std::vector<Obs> &obs,
                 const Options &o, const std::string &dir);
void writeKeypoints(const World &w, const std::vector<Obs> &obs,
                    const std::string &path);
Result readOutputs(const World &w, const std::string &dir, const Options &o);
extern uint64_t drawSalt; // chooses the stream of OpenCV's random numbers
Result calibrate(const World &w, const std::vector<Obs> &obs, const Options &o,
                 const std::string &dir);

// Reference model of the grouping rules (documented staging), see DESIGN.md
struct ModelOut {
  std::vector<std::set<int>> camGroups; // partition of observed cameras
  std::vector<std::set<int>> objects;   // partition of observed boards
  std::string key() const;
};
ModelOut referenceModel(const World &w, const std::vector<Obs> &obs);
ModelOut resultPartition(const Result &r);

// compare all poses/points of a result with the ground truth; "" if fine
std::string compareWithTruth(const World &w, const std::vector<Obs> &obs,
                             const Result &r, double tol = 2e-3);
// one written pose per image of an object, each the true one; "" if fine
std::string comparePoses(const World &w, const std::vector<Obs> &obs, const Result &r,
                         double tol = 2e-3);
// recomputes the whole reprojection report from the other written files and
// the observations; "" if it agrees. If mean is given, receives the mean over
// images of objects of their mean error.
std::string checkReport(const World &w, const std::vector<Obs> &obs, const Result &r,
                        double tol = 5e-3, double *mean = nullptr);
// where each observed corner is predicted by the written results (same shape as
// obs); "" or what is missing
std::string predict(const World &w, const std::vector<Obs> &obs, const Result &r,
                    std::vector<std::vector<cv::Vec2d>> &out);
// deterministic disturbance of the observed pixels, of the given amplitude
void disturb(std::vector<Obs> &obs, int pattern, double amplitude);
void quiet();          // silence logs + stdout
std::string tempDir(const vh::Run &run);
void cleanDir(const std::string &d);
} // namespace world
