import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(sys.argv[1])))
from common import cxx, CONFIG
M = "McCalib/src/McCalib.cpp"
G = "McCalib/src/geometrytools.cpp"
BUGS = {}
BUGS["weight_saturates"] = dict(
    prop="C22",
    edits=[(M, """    covis_camera_graph_.addEdge(camera_pair_idx.first, camera_pair_idx.second,
                                ((double)1 / camera_poses_temp.size()));""",
            """    // beyond ten joint views a link does not get any better
    covis_camera_graph_.addEdge(
        camera_pair_idx.first, camera_pair_idx.second,
        1.0 / std::min<std::size_t>(camera_poses_temp.size(), 10u));""")],
    needs="a pair of cameras with more than ten joint views and a detour with many more",
    what="the chain used for the initial camera poses is not the best supported one",
    demo_sh=cxx(CONFIG + r"""
int main(int, char **v) {
  std::string d = v[1];
  config(d, 3, 1);
  McCalib::Calibration k(d + "/c.yml");
  auto link = [&](int a, int b, int n, double x) {
    for (int s = 0; s < 2; s++) {
      cv::Mat p = cv::Mat::eye(4, 4, CV_64F);
      p.at<double>(0, 3) = s ? -x : x;
      auto key = s ? std::make_pair(b, a) : std::make_pair(a, b);
      k.camera_pose_pairs_[key].assign(n, p);
      k.inter_camera_transform_[key] = p;
    }
  };
  link(0, 1, 15, 7);
  link(0, 2, 40, 1);
  link(2, 1, 40, 1);
  k.initInterCamerasGraph();
  k.initCameraGroup();
  double x = k.cam_group_.at(0)->getCameraPoseMat(1).at<double>(0, 3);
  return std::abs(x - 2) < 1e-9 ? 0 : 1;
}
"""))
BUGS["fisheye_last_coefficient"] = dict(
    prop="C12",
    edits=[("McCalib/src/Camera.cpp", """  if (distortion_model_ == 1) {
    for (std::size_t intrinIdx = 4u; intrinIdx <= 7u; ++intrinIdx) {
      std::size_t distIdx = intrinIdx - 4u;
      intrinsics_[intrinIdx] = distortion_vector.at<double>(distIdx);
    }
  }
}
""", """  if (distortion_model_ == 1) {
    const std::size_t nb_coeffs = distortion_vector.total() > 4u ? 4u : 3u;
    for (std::size_t distIdx = 0u; distIdx < nb_coeffs; ++distIdx)
      intrinsics_[distIdx + 4u] = distortion_vector.at<double>(distIdx);
  }
}
""")],
    needs="a fisheye camera whose given fourth coefficient is not null",
    what="the fourth fisheye coefficient of the given intrinsics is dropped",
    demo="""
w = World(2, 1, 5)
w.model = [0, 1]
w.d[1] = [0.05, -0.02, 0.01, -0.03]
obs = [w.see(c, f, 0) for f in range(4) for c in (0, 1)]
c = cameras(w.run(obs))
assert abs(c[1]["D"][3] + 0.03) < 1e-12, c[1]["D"]
assert diff(c[1]["pose"], w.rel(0, 1)) < 5e-3
""")
BUGS["handeye_four_frames"] = dict(
    prop="C16",
    edits=[(M, "  if (pose_abs_1.size() <= 3 || pose_abs_2.size() <= 3) {",
            "  if (pose_abs_1.size() <= 4 || pose_abs_2.size() <= 4) {")],
    needs="two separated camera groups with exactly four common frames",
    what="groups with just enough common frames are not tied",
    demo="""
w = World(2, 2, 6)
obs = [w.see(c, f, c) for f in range(4) for c in (0, 1)]
obs += [w.see(0, 4, 0), w.see(1, 5, 1)]
c = cameras(w.run(obs))
assert c[0]["group"] == c[1]["group"], c
""")
BUGS["object_pair_not_counted"] = dict(
    prop="C16",
    edits=[(M, "                    count_pair_obs[std::make_pair(obj_ind_1, obj_ind_2)]++;",
            """                    // once per pair and frame
                    count_pair_obs[std::make_pair(obj_ind_1, obj_ind_2)] = 1u;""")],
    needs="two groups that share several pairs of objects, the first one in few frames only",
    what="the groups are tied with a pair of objects that is rarely seen together",
    demo="""
w = World(2, 3, 12)
obs = [w.see(0, f, 0) for f in range(9)]
obs += [w.see(1, f, 1) for f in (0, 1)] + [w.see(1, f, 2) for f in range(2, 9)]
c = cameras(w.run(obs))
assert c[0]["group"] == c[1]["group"], c
""")
BUGS["boards_index_last"] = dict(
    prop="C17",
    edits=[(M, "    max_board_idx = *max_element(boards_index.begin(), boards_index.end());",
            "    max_board_idx = boards_index.back();")],
    needs="a selection of boards that does not end with the largest number",
    what="the program aborts on an unsorted selection of boards",
    demo_sh=cxx(CONFIG + r"""
#include <fstream>
#include <sstream>
int main(int, char **v) {
  std::string d = v[1];
  config(d, 1, 2);
  std::ifstream f(d + "/c.yml");
  std::stringstream s;
  s << f.rdbuf();
  std::string t = s.str(), a = "boards_index: []";
  t.replace(t.find(a), a.size(), "boards_index: [3, 1]");
  std::ofstream(d + "/c.yml") << t;
  try {
    McCalib::Calibration k(d + "/c.yml");
    return k.boards_3d_.size() == 2 && k.boards_3d_[0]->charuco_board_->ids[0] == 36 ? 0 : 1;
  } catch (...) {
    return 1;
  }
}
"""))
BUGS["saddle_bottom_row"] = dict(
    prop="C21",
    edits=[("McCalib/include/point_refinement.h",
            "      y > window_half_size + 1 && y < input.rows - (window_half_size + 2)) {",
            "      y > window_half_size + 1 && y < input.rows - window_half_size) {")],
    needs="a corner whose refinement window touches the last image row",
    what="the refinement reads below the image and answers where the window does not fit",
    demo_sh=cxx(r"""
#include "point_refinement.h"
using namespace McCalib2;
int main() {
  const int n = 40, w = 3;
  cv::Mat big(n + 4, n, CV_64F), im;
  for (int y = 0; y < n + 4; y++)
    for (int x = 0; x < n; x++)
      big.at<double>(y, x) = 100 + (x - 20.3) * (y - 36.1);
  im = big(cv::Rect(0, 0, n, n));
  std::vector<cv::Point2f> p{{20.2f, 36.2f}};
  std::vector<SaddlePoint> r;
  int nnz = 0;
  cv::Mat k, m, a;
  initConeSmoothingKernel(w, k, m, nnz);
  initSaddleFitting(w, nnz, k, m, a);
  saddleSubpixelRefinement(im, p, a, m, w, r, 20);
  return std::isinf(r[0].x) ? 0 : 1;
}
""".replace('#include "point', '#define McCalib McCalib2\n#include "point')))
BUGS["report_single_view_pose"] = dict(
    prop="C10",
    edits=[(M, """                std::vector<cv::Point2f> repro_pts;
                std::shared_ptr<Camera> cam_ptr = it_obj3d_cam_ptr;
                projectPointsWithDistortion(
                    object_pts_trans1,
                    it.second->getCameraRotVec(current_cam_id),
                    it.second->getCameraTransVec(current_cam_id),
                    cam_ptr->getCameraMat(),
                    cam_ptr->getDistortionVectorVector(),
                    cam_ptr->distortion_model_, repro_pts);

                cv::Mat error_list =
                    computeDistanceBetweenPoints(obj_pts_2d, repro_pts);
                camera_list""", "")],
    needs="", what="", demo="")
del BUGS["report_single_view_pose"]
BUGS["ransac_pose_alias"] = dict(
    prop="C14",
    edits=[(G, """      Trans.copyTo(BestT);
      Rot.copyTo(BestR);""", """      BestT = Trans;
      BestR = Rot;""")],
    needs="an outlier, so that further hypotheses are tried after the best one",
    what="the pose returned is that of the last hypothesis instead of the best one",
    demo_sh=cxx(r"""
#include "geometrytools.hpp"
int main() {
  std::vector<cv::Point3f> o;
  for (int i = 0; i < 20; i++)
    o.push_back({0.1f * (i % 5), 0.1f * (i / 5), 0});
  cv::Mat K = (cv::Mat_<double>(3, 3) << 800, 0, 640, 0, 800, 480, 0, 0, 1);
  cv::Mat D = cv::Mat::zeros(1, 5, CV_64F), r = (cv::Mat_<double>(3, 1) << 0.3, -0.4, 0.2),
          t = (cv::Mat_<double>(3, 1) << -0.2, -0.1, 1.5);
  for (int k = 0; k < 40; k++) {
    std::vector<cv::Point2f> p;
    cv::projectPoints(o, r, t, K, D, p);
    for (int q = 0; q < 5; q++) {
      p[(k + 4 * q) % 20].x += 60 + 9 * q;
      p[(k + 4 * q) % 20].y -= 45 + 7 * q;
    }
    cv::Mat R, T;
    McCalib::ransacP3PDistortion(o, p, K, D, R, T, 3, 1000, 0, 0.99, false);
    R.convertTo(R, CV_64F);
    T.convertTo(T, CV_64F);
    if (cv::norm(R.reshape(1, 3), r) > 0.02 || cv::norm(T.reshape(1, 3), t) > 0.02)
      return 1;
  }
  return 0;
}
"""))
BUGS["marker_offset_equal_boards"] = dict(
    prop="C18",
    edits=[("McCalib/src/utilities.cpp", """      int id_offset = charuco_boards[i - 1]->ids.size() + offset_count;
      offset_count = id_offset;
      for (auto &id : charuco->ids) {""", """      // every board takes one more slice of the dictionary
      offset_count = charuco_boards[i - 1]->ids.size() * i;
      const int id_offset = offset_count;
      for (auto &id : charuco->ids) {""")],
    needs="three boards or more whose sizes differ",
    what="two boards of different size share marker identifiers",
    demo_sh=cxx(r"""
#include "utilities.hpp"
#include <set>
int main() {
  auto dict = cv::aruco::getPredefinedDictionary(cv::aruco::DICT_6X6_1000);
  auto b = McCalib::createCharucoBoards(3, {7, 4, 3}, {7, 4, 3}, 0.04f, 0.03f, dict);
  std::set<int> s;
  std::size_t n = 0;
  for (auto &x : b) {
    n += x.second->ids.size();
    s.insert(x.second->ids.begin(), x.second->ids.end());
  }
  return s.size() == n ? 0 : 1;
}
"""))
BUGS["median_even"] = dict(
    prop="C19",
    edits=[(G, "  return n_elements % 2 == 0 ? (v[mid] + v[mid - 1]) / 2 : v[mid];",
            "  return n_elements == 2 ? (v[0] + v[1]) / 2 : v[mid];")],
    needs="a list of four, six... values",
    what="the median of such a list is one of its values instead of the middle of two",
    demo_sh=cxx(r"""
#include "geometrytools.hpp"
int main() {
  std::vector<double> v{4, 1, 3, 2};
  return McCalib::median(v) == 2.5 ? 0 : 1;
}
"""))
BUGS["report_reference_model"] = dict(
    prop="C10",
    edits=[(M, """                    cam_ptr->getDistortionVectorVector(),
                    cam_ptr->distortion_model_, repro_pts);

                cv::Mat error_list =
                    computeDistanceBetweenPoints(obj_pts_2d, repro_pts);
                fs << """, """                    cam_ptr->getDistortionVectorVector(),
                    it.second->cameras_.begin()->second.lock()->distortion_model_,
                    repro_pts);

                cv::Mat error_list =
                    computeDistanceBetweenPoints(obj_pts_2d, repro_pts);
                fs << """)],
    needs="a group with a perspective and a fisheye camera",
    what="the errors reported for the fisheye camera are computed with the other model",
    demo="""
w = World(2, 1, 5)
w.model = [0, 1]
w.d[1] = [0.05, -0.02, 0.01, -0.03]
obs = [w.see(c, f, 0) for f in range(4) for c in (0, 1)]
t = w.run(obs)["reprojection_error_data.yml"]
e = [float(x) for m in re.findall(r"data: . ([^]]*) ]", t) for x in m.split(",")]
assert e and max(e) < 5, max(e)  # frame numbers included
""")
BUGS["detection_stops_at_unreadable"] = dict(
    prop="C24",
    edits=[(M, """    const std::filesystem::path im_path = it_frame.second->frame_path_[cam_id];
    cv::Mat image = cv::imread(im_path);

    // Iterate through the camera group observations
    std::map<int, std::weak_ptr<CameraGroupObs>> cam_group_obs =
        it_frame.second->cam_group_observations_;
    for (const auto &it_cam_group_obs : cam_group_obs) {
      auto it_cam_group_obs_ptr = it_cam_group_obs.second.lock();
      if (it_cam_group_obs_ptr) {
        // Iterate through the object observation
        std::map<int, std::weak_ptr<Object3DObs>> object_observations =
            it_cam_group_obs_ptr->object_observations_;
        for (const auto &it_obj_obs : object_observations) {
          auto it_obj_obs_ptr = it_obj_obs.second.lock();
          auto it_obj_obs_object_3d_ptr = it_obj_obs_ptr->object_3d_.lock();
          if (it_obj_obs_ptr && it_obj_obs_ptr->camera_id_ == cam_id &&""",
            """    const std::filesystem::path im_path = it_frame.second->frame_path_[cam_id];
    cv::Mat image = cv::imread(im_path);
    if (image.empty() && it_frame.first != 0)
      return; // the images are not available any more

    // Iterate through the camera group observations
    std::map<int, std::weak_ptr<CameraGroupObs>> cam_group_obs =
        it_frame.second->cam_group_observations_;
    for (const auto &it_cam_group_obs : cam_group_obs) {
      auto it_cam_group_obs_ptr = it_cam_group_obs.second.lock();
      if (it_cam_group_obs_ptr) {
        // Iterate through the object observation
        std::map<int, std::weak_ptr<Object3DObs>> object_observations =
            it_cam_group_obs_ptr->object_observations_;
        for (const auto &it_obj_obs : object_observations) {
          auto it_obj_obs_ptr = it_obj_obs.second.lock();
          auto it_obj_obs_object_3d_ptr = it_obj_obs_ptr->object_3d_.lock();
          if (it_obj_obs_ptr && it_obj_obs_ptr->camera_id_ == cam_id &&""")],
    needs="a camera that misses a frame which another camera has, after the first frame",
    what="the detection images of a camera end at the first frame it has not seen",
    demo_sh=cxx(CONFIG + r"""
int main(int, char **v) {
  std::string d = v[1];
  config(d, 2, 1, "refine_corner: 0\n");
  McCalib::Calibration k(d + "/c.yml");
  for (int c = 0; c < 2; c++)
    k.cams_[c]->im_cols_ = k.cams_[c]->im_rows_ = 400;
  for (int f = 0; f < 4; f++)
    for (int c = 0; c < 2; c++) {
      if (c == 0 && f == 1)
        continue;
      std::string p = d + "/" + std::to_string(10 * c + f) + ".png";
      cv::imwrite(p, cv::Mat(400, 400, CV_8UC3, cv::Scalar(0, 0, 0)));
      std::vector<cv::Point2f> q;
      std::vector<int> id;
      for (int i = 0; i < 16; i++) {
        id.push_back(i);
        q.push_back({100.f + 40 * (i % 4), 100.f + 30 * (i / 4)});
      }
      k.insertNewBoard(c, f, 0, q, id, p);
    }
  k.saveDetectionImages(0);
  return std::filesystem::exists(d + "/out/Detection/000/000003.jpg") ? 0 : 1;
}
"""))
BUGS["board_views_by_frame"] = dict(
    prop="C04",
    edits=[("McCalib/src/Board.cpp",
            "  board_observations_[board_observations_.size()] = new_board;",
            "  board_observations_[new_board->frame_id_] = new_board;")],
    needs="a board seen by two cameras in the same frame",
    what="a board forgets observations of the same frame by other cameras",
    demo_sh=cxx(CONFIG + r"""
int main(int, char **v) {
  std::string d = v[1];
  config(d, 2, 1);
  McCalib::Calibration k(d + "/c.yml");
  for (int c = 0; c < 2; c++)
    k.insertNewBoard(c, 3, 0, {{1, 2}, {3, 4}}, {0, 1}, "x");
  return k.boards_3d_[0]->board_observations_.size() == 2 ? 0 : 1;
}
"""))
BUGS["huber_last_stage"] = dict(
    prop="C11",
    edits=[("McCalib/src/CameraGroup.cpp", """                                     refine_board, cam_ptr->distortion_model_);
                      problem.AddResidualBlock(
                          reprojection_error,
                          new ceres::HuberLoss(1.0), // nullptr,""",
            """                                     refine_board, cam_ptr->distortion_model_);
                      problem.AddResidualBlock(
                          reprojection_error,
                          nullptr, // outliers have been removed""")],
    needs="free intrinsics and residuals above a pixel that RANSAC keeps",
    what="the last refinement is not robust any more, so the result is not the robust minimum",
    demo="""
w = World(2, 1, 8)
w.opt["fix_intrinsic"] = 0
w.opt["ransac_threshold"] = 12
obs = [w.see(c, f, 0) for f in range(8) for c in (0, 1)]
for o in obs[::2]:
    for k in (0, 5):
        o[4][k] = (o[4][k][0] + 8, o[4][k][1] - 5)
c = cameras(w.run(obs))
e = diff(c[1]["pose"], w.rel(0, 1))
f = abs(c[0]["K"][0] - w.f[0][0])
print(e, f)
assert f < 20, (e, f)
""")
BUGS["collinear_in_image"] = dict(
    prop="C20",
    edits=[(M, """        pts_on_board_2d.emplace_back(
            boards_3d_[i]->pts_3d_[charuco_idx_at_board_id].x,
            boards_3d_[i]->pts_3d_[charuco_idx_at_board_id].y);""",
            """        pts_on_board_2d.emplace_back(
            charuco_corners[i][pts_on_board_2d.size()]);
        std::ignore = charuco_idx_at_board_id;""")],
    needs="a wide board of which a single row of corners is found",
    what="a view with all corners on one line is registered",
    demo_sh=cxx(CONFIG + r"""
#include <sstream>
int main(int, char **v) {
  std::string d = v[1];
  config(d, 1, 1);
  std::ifstream f(d + "/c.yml");
  std::stringstream s;
  s << f.rdbuf();
  std::string t = s.str();
  auto sub = [&](std::string a, std::string b) { t.replace(t.find(a), a.size(), b); };
  sub("number_x_square: 5", "number_x_square: 9");
  sub("min_perc_pts: 0.4", "min_perc_pts: 0.1");
  std::ofstream(d + "/c.yml") << t;
  McCalib::Calibration k(d + "/c.yml");
  cv::Mat im, r;
  k.boards_3d_[0]->charuco_board_->draw(cv::Size(1400, 800), im, 20, 1);
  // only the two upper rows of squares are visible
  im.rowRange(20 + 2 * (760 / 5), 800).setTo(255);
  cv::Mat M = cv::getRotationMatrix2D({700, 400}, 6, 0.9);
  cv::warpAffine(im, r, M, im.size(), cv::INTER_AREA, cv::BORDER_CONSTANT, 255);
  cv::imwrite(d + "/im/Cam_001/a.png", r);
  k.boardExtraction();
  return k.board_observations_.empty() ? 0 : 1;
}
"""))
BUGS["tiny_object_view"] = dict(
    prop="C03",
    edits=[(M, "    if (object_obs->pts_id_.size() > 0) {",
            "    if (object_obs->pts_id_.size() > 4) {")],
    needs="an image in which exactly four corners of an object are seen",
    what="a valid view of four corners is dropped and its links are lost",
    demo="""
w = World(2, 1, 6)
n = w.nx[0] - 1
ids = [0, 1, n, n + 1]
ids = [0, n - 1, n, 2 * n - 1]
obs = [w.see(0, f, 0) for f in range(5)] + [w.see(1, f, 0, ids) for f in range(5)]
o = w.run(obs)
assert re.search(r"camera_1:", o["reprojection_error_data.yml"])
c = cameras(o)
assert c[0]["group"] == c[1]["group"]
""")
BUGS["kp_number_of_cameras_frames"] = dict(
    prop="C07",
    edits=[(M, """            frame_idxs.push_back(frame_idx);
            frame_paths.push_back(frame_path);""",
            """            frame_idxs.push_back(
                frame_path.empty() ? static_cast<int>(frame_idxs.size())
                                   : frame_idx);
            frame_paths.push_back(frame_path);""")],
    needs="observations without an image path whose frames are not numbered consecutively",
    what="frame numbers change when keypoints without image paths are saved",
    demo="""
w = World(1, 1, 6)
obs = [w.see(0, f, 0) for f in (0, 2, 5)]
import demo_world
t = demo_world.World.run
src = open(demo_world.__file__).read().replace('"img%d"\\' % x[1]', '""\\'')
ns = {}
exec(compile(src, "w", "exec"), ns)
o = ns["World"](1, 1, 6).run(obs)
m = re.search(r"frame_idxs: \\[ ([^\\]]*) \\]", o["detected_keypoints_data.yml"])
assert [int(x) for x in m[1].split(",")] == [0, 2, 5], m[1]
""")
