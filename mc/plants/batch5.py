import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(sys.argv[1])))
from common import cxx, CONFIG
import runpy
SYN = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(sys.argv[1])), "batch3.py"))["SYN"]
M = "McCalib/src/McCalib.cpp"
BUGS = {}
BUGS["params_read_once"] = dict(
    prop="C28",
    edits=[(M, """    for (const auto &it : cams_) {
      // extract camera matrix and distortion coefficients from the file
      cv::FileNode loaded_cam_params = fs["camera_" + std::to_string(it.first)];

      cv::Mat camera_matrix;
      cv::Mat distortion_coeffs;
      loaded_cam_params["camera_matrix"] >> camera_matrix;
      loaded_cam_params["distortion_vector"] >> distortion_coeffs;
""", """    // parsing a matrix is slow, keep those already read
    static std::map<int, std::pair<cv::Mat, cv::Mat>> read_params;
    for (const auto &it : cams_) {
      // extract camera matrix and distortion coefficients from the file
      cv::FileNode loaded_cam_params = fs["camera_" + std::to_string(it.first)];

      cv::Mat &camera_matrix = read_params[it.first].first;
      cv::Mat &distortion_coeffs = read_params[it.first].second;
      if (camera_matrix.empty()) {
        loaded_cam_params["camera_matrix"] >> camera_matrix;
        loaded_cam_params["distortion_vector"] >> distortion_coeffs;
      }
""")],
    needs="two calibrations in one process with different camera files",
    what="the second calibration uses the intrinsics of the first",
    demo_sh=cxx(SYN + r"""
static double focal(const std::string &d, double f) {
  config(d, 1, 1);
  cv::FileStorage o(d + "/cams.yml", cv::FileStorage::WRITE);
  cv::Mat M = (cv::Mat_<double>(3, 3) << f, 0, 640, 0, f, 480, 0, 0, 1);
  o << "nb_camera" << 1 << "camera_0" << "{" << "camera_matrix" << M << "distortion_vector"
    << cv::Mat::zeros(1, 5, CV_64F) << "}";
  o.release();
  std::ifstream i(d + "/c.yml");
  std::string s((std::istreambuf_iterator<char>(i)), {});
  s.replace(s.find("\"None\""), 6, "\"" + d + "/cams.yml\"");
  i.close();
  std::ofstream(d + "/c.yml") << s;
  McCalib::Calibration k(d + "/c.yml");
  k.initializeCalibrationAllCam();
  return k.cams_[0]->getCameraMat().at<double>(0, 0);
}
int main(int, char **v) {
  double a = focal(std::string(v[1]) + "/a", 700), b = focal(std::string(v[1]) + "/b", 900);
  return std::fabs(a - 700) < 1e-6 && std::fabs(b - 900) < 1e-6 ? 0 : 1;
}
"""))
BUGS["threshold_kept"] = dict(
    prop="C28",
    edits=[(M, """  for (const auto &it : board_observations_)
    it.second->estimatePose(ransac_thresh_, nb_iterations_);""",
            """  static const float thresh = ransac_thresh_;
  for (const auto &it : board_observations_)
    it.second->estimatePose(thresh, nb_iterations_);""")],
    needs="two calibrations in one process with different RANSAC thresholds",
    what="the second calibration selects the corners of boards with the threshold of the first",
    demo_sh=cxx(SYN + r"""
static size_t left(const std::string &d, double thr) {
  config(d, 1, 1);
  std::ifstream i(d + "/c.yml");
  std::string s((std::istreambuf_iterator<char>(i)), {});
  s.replace(s.find("ransac_threshold: 3"), 19, "ransac_threshold: " + std::to_string(thr));
  i.close();
  std::ofstream(d + "/c.yml") << s;
  McCalib::Calibration k(d + "/c.yml");
  k.cams_[0]->setIntrinsics(K(), (cv::Mat_<double>(1, 5) << 0, 0, 0, 0, 0));
  see(k, 0, 0, 0, P(0.3, 0.2, 0.1, -0.2, -0.2, 1.2));
  auto &o = *k.board_observations_.begin()->second;
  o.pts_2d_[5].x += 6; // beyond 3 pixels, within 30
  k.estimatePoseAllBoards();
  return o.pts_2d_.size();
}
int main(int, char **v) {
  size_t a = left(std::string(v[1]) + "/a", 2), b = left(std::string(v[1]) + "/b", 30);
  return a == 15 && b == 16 ? 0 : 1;
}
"""))
BUGS["board_pose_kept"] = dict(
    prop="C29",
    edits=[("McCalib/src/Object3D.cpp", """  relative_board_pose_[board_id] = {r_vec.at<double>(0), r_vec.at<double>(1),
                                    r_vec.at<double>(2), t_vec.at<double>(0),
                                    t_vec.at<double>(1), t_vec.at<double>(2)};
}

/**
 * @brief Set pose of the board "board_id" in the object (using 6 double vector)""", """  relative_board_pose_.insert(
      {board_id, std::array<double, 6>{
                     r_vec.at<double>(0), r_vec.at<double>(1),
                     r_vec.at<double>(2), t_vec.at<double>(0),
                     t_vec.at<double>(1), t_vec.at<double>(2)}});
}

/**
 * @brief Set pose of the board "board_id" in the object (using 6 double vector)""")],
    needs="a board whose pose in an object is stored a second time",
    what="the first stored pose stays",
    demo_sh=cxx(SYN + r"""
int main(int, char **v) {
  config(v[1], 1, 1);
  McCalib::Calibration k(std::string(v[1]) + "/c.yml");
  McCalib::Object3D o(1, 0, 0, {1, 2, 3});
  o.setBoardPoseMat(0, P(0.1, 0, 0, 1, 2, 3));
  o.setBoardPoseMat(0, P(0.1, 0.2, 0, 4, 5, 6));
  return std::fabs(o.getBoardTransVec(0).at<double>(0) - 4) < 1e-9 &&
         std::fabs(o.getBoardRotVec(0).at<double>(1) - 0.2) < 1e-9 ? 0 : 1;
}
"""))
BUGS["board_pose_float"] = dict(
    prop="C29",
    edits=[("McCalib/src/BoardObs.cpp", """  cv::Mat r_vec, t_vec;
  Proj2RT(pose, r_vec, t_vec);
  pose_ = {r_vec.at<double>(0), r_vec.at<double>(1), r_vec.at<double>(2),
           t_vec.at<double>(0), t_vec.at<double>(1), t_vec.at<double>(2)};
}""", """  const std::array<float, 6> vec = ProjToVec(pose);
  std::copy(vec.begin(), vec.end(), pose_.begin());
}""")],
    needs="a pose stored as a matrix whose entries are no round numbers",
    what="the pose is read back in single precision",
    demo_sh=cxx(SYN + r"""
int main(int, char **v) {
  config(v[1], 1, 1);
  McCalib::Calibration k(std::string(v[1]) + "/c.yml");
  k.cams_[0]->setIntrinsics(K(), (cv::Mat_<double>(1, 5) << 0, 0, 0, 0, 0));
  cv::Mat p = P(0.3, 0.2, 0.1, -0.2, -0.2, 1.2);
  see(k, 0, 0, 0, p);
  auto &o = *k.board_observations_.begin()->second;
  o.setPoseMat(p);
  return cv::norm(o.getPoseMat(), p, cv::NORM_INF) < 1e-12 ? 0 : 1;
}
"""))
BUGS["loss_functions_kept"] = dict(
    prop="C30",
    edits=[("McCalib/src/Object3D.cpp", "  ceres::Problem problem;\n",
            "  ceres::Problem::Options ownership;\n"
            "  ownership.loss_function_ownership = ceres::DO_NOT_TAKE_OWNERSHIP;\n"
            "  ceres::Problem problem(ownership);\n")],
    needs="objects made of boards, refined again and again in one process",
    what="every refinement of an object leaves its loss functions in memory",
    demo_sh=cxx(SYN + r"""
#include <malloc.h>
int main(int, char **v) {
  std::string d = v[1];
  config(d, 1, 2);
  McCalib::Calibration k(d + "/c.yml");
  k.cams_[0]->setIntrinsics(K(), (cv::Mat_<double>(1, 5) << 0, 0, 0, 0, 0));
  cv::Mat rel = P(0.3, -0.4, 0.2, 0.5, 0.1, 0.2);
  for (int f = 0; f < 8; f++) {
    cv::Mat p = P(0.3 - 0.07 * f, 0.2 * (f % 3) - 0.3, 0.1 * f, -0.3 + 0.02 * f, -0.1, 1.5);
    see(k, 0, f, 0, p);
    see(k, 0, f, 1, p * rel);
  }
  k.estimatePoseAllBoards();
  k.calibrate3DObjects();
  std::streambuf *b = std::cout.rdbuf(nullptr);
  size_t at[4];
  for (int i = 0; i < 4; i++) {
    for (int j = 0; j < 20; j++) k.refineAllObject3D();
    at[i] = mallinfo2().uordblks;
  }
  std::cout.rdbuf(b);
  fprintf(stderr, "%zu %zu %zu\n", at[1], at[2], at[3]);
  return at[3] > at[2] + 5000 && at[2] > at[1] + 5000 ? 1 : 0;
}
""", run="$d/t $d > /dev/null"))
BUGS["evenly_spaced_views"] = dict(
    prop="C30",
    edits=[("McCalib/src/Camera.cpp", """  for (std::size_t i = 0; i < nb_board_est; i++) {
    std::shared_ptr<BoardObs> board_obs_temp =
        board_observations_[indbv[shuffled_board_ind[i]]].lock();""",
            """  // spread the selection over the shuffled list
  const std::size_t step = (indbv.size() + nb_board_est - 1u) / nb_board_est;
  for (std::size_t i = 0; i < nb_board_est; i++) {
    std::shared_ptr<BoardObs> board_obs_temp =
        board_observations_[shuffled_board_ind[i * step]].lock();""")],
    needs="a camera whose intrinsics are not given and that has 51 to 97 views of boards",
    what="indices are read behind the end of the list",
    demo_sh=cxx(SYN + r"""
int main(int, char **v) {
  std::string d = v[1];
  config(d, 1, 1);
  McCalib::Calibration k(d + "/c.yml");
  auto &cam = *k.cams_[0];
  cam.im_cols_ = 1280, cam.im_rows_ = 960;
  cam.setIntrinsics(K(), (cv::Mat_<double>(1, 5) << 0, 0, 0, 0, 0));
  for (int f = 0; f < 60; f++)
    see(k, 0, f, 0, P(0.4 * std::sin(f), 0.4 * std::cos(1.7 * f), 0.1 * f, -0.3 + 0.01 * f, -0.1, 1.2 + 0.01 * f));
  cam.initializeCalibration();
  return cam.board_observations_.size() == 60 ? 0 : 1;
}
""", flags="-O1 -fsanitize=address -fno-sanitize-recover=all $(ls McCalib/src/*.cpp)",
                run="ASAN_OPTIONS=detect_leaks=0 $d/t $d > /dev/null").replace(" _build/McCalib/libMcCalib.a", ""))
BUGS["poses_appended"] = dict(
    prop="C31",
    edits=[(M, "  cv::FileStorage fs(save_path_object_pose, cv::FileStorage::WRITE);",
            "  cv::FileStorage fs(save_path_object_pose, cv::FileStorage::APPEND);")],
    needs="results saved at an earlier stage and again at the end",
    what="the poses of the earlier save are the ones found in the file",
    demo_sh=cxx(SYN + r"""
int main(int, char **v) {
  std::string d = v[1];
  config(d, 1, 1);
  McCalib::Calibration k(d + "/c.yml");
  std::filesystem::create_directories(k.save_path_);
  k.cams_[0]->setIntrinsics(K(), (cv::Mat_<double>(1, 5) << 0, 0, 0, 0, 0));
  see(k, 0, 0, 0, P(0.3, 0.2, 0.1, -0.2, -0.2, 1.2));
  k.estimatePoseAllBoards();
  k.calibrate3DObjects();
  k.calibrateCameraGroup();
  k.save3DObjPose();
  for (auto &o : k.object_observations_) o.second->setPoseInGroupVec((cv::Mat_<double>(3, 1) << 1, 2, 3), (cv::Mat_<double>(3, 1) << 4, 5, 6));
  for (auto &o : k.cams_group_obs_) o.second->setObjectPoseVec((cv::Mat_<double>(3, 1) << 1, 2, 3), (cv::Mat_<double>(3, 1) << 4, 5, 6), 0);
  k.save3DObjPose();
  cv::FileStorage f(k.save_path_.string() + "/calibrated_objects_pose_data.yml", cv::FileStorage::READ);
  cv::Mat m;
  f["object_0"]["poses"] >> m;
  std::cerr << m << std::endl;
  return !m.empty() && std::fabs(m.at<double>(3, 0) - 4) < 1e-4 ? 0 : 1;
}
"""))
