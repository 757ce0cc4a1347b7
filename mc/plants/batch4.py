import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(sys.argv[1])))
from common import cxx, CONFIG
M = "McCalib/src/McCalib.cpp"
BUGS = {}
BUGS["far_board"] = dict(
    prop="C27",
    edits=[("McCalib/src/BoardObs.cpp", "    if (board_3d_ptr && inliers.rows < 4) {",
            "    // and a board hundreds of metres away is a wrong detection\n"
            "    if (board_3d_ptr && (inliers.rows < 4 || cv::norm(t_vec) > 500.0)) {")],
    needs="square sizes given in millimetres",
    what="with another unit of length the same views are thrown away",
    demo="""
w = World(2, 1, 5)
obs = [w.see(c, f, 0) for f in range(5) for c in range(2)]
def run():
    o = w.run(obs)
    c = cameras(o)
    assert o["rc"] == 0 and set(c) == {0, 1}, (o["rc"], set(c))
    assert c[0]["group"] == c[1]["group"], c
    return c[1]["pose"]
a = run()
w.sq = [1000 * s for s in w.sq]
b = run()
for i in range(3):
    for j in range(4):
        assert abs(a[i][j] - b[i][j] / (1000 if j == 3 else 1)) < 1e-4, (a, b)
""")
BUGS["relay_pose"] = dict(
    prop="C16",
    edits=[(M, """            int object_id1 = obj_obs1_ptr->object_3d_id_;
            int object_id2 = obj_obs2_ptr->object_3d_id_;
            cv::Mat pose_obj_1 =
                cam_group_obs1_ptr->getObjectPoseMat(object_id1);
            cv::Mat pose_obj_2 =
                cam_group_obs2_ptr->getObjectPoseMat(object_id2);""",
            """            int object_id2 = obj_obs2_ptr->object_3d_id_;
            cv::Mat pose_obj_1 = obj_obs1_ptr->getPoseMat();
            cv::Mat pose_obj_2 =
                cam_group_obs2_ptr->getObjectPoseMat(object_id2);""")],
    needs="a tied group whose reference camera does not see in the common frames",
    what="the groups are tied by the pose in another camera than the reference one",
    demo="""
w = World(3, 2, 12)
w.opt["number_iterations"] = 3
# cameras 0 and 1 are one group; only camera 1 sees while camera 2 sees the other board
obs = [w.see(c, f, 0) for f in range(3) for c in range(2)]
obs += [w.see(1, f, 0) for f in range(3, 12)] + [w.see(2, f, 1) for f in range(3, 12)]
bad = 0
for he in (0, 1):
    w.opt["he_approach"] = he
    o = w.run(obs)
    c = cameras(o)
    assert set(c) == {0, 1, 2} and len({c[k]["group"] for k in c}) == 1, c
    bad += diff(c[2]["pose"], w.rel(0, 2)) > 2e-2
assert bad == 0, bad
""")
BUGS["object_pair_first"] = dict(
    prop="C16",
    edits=[(M, """          if (it.second > currentMax) {
            arg_max = it.first;
            currentMax = it.second;""", """          if (it.second > 0u && currentMax == 0u) {
            arg_max = it.first;
            currentMax = it.second;""")],
    needs="two groups that share several pairs of objects, the first one in few frames only",
    what="the groups are tied through a pair of objects with too few frames, that is not at all",
    demo=open("mc/plants/object_pair.py").read())
BUGS["dim_patch"] = dict(
    prop="C21",
    edits=[("McCalib/include/point_refinement.h", "    if (mx - mn > 1.0 / 255)",
            "    // 8-bit images: flat when there is no contrast of 1/16 of the range\n"
            "    if (mx - mn > 16)")],
    needs="a corner in a dim or hazy part of the image",
    what="corners of low contrast are not refined",
    demo_sh=cxx(r"""
#include "point_refinement.h"
int main() {
  cv::Mat im(60, 60, CV_8U);
  double cx = 30.3, cy = 29.6;
  for (int y = 0; y < 60; y++)
    for (int x = 0; x < 60; x++)
      im.at<uchar>(y, x) = cv::saturate_cast<uchar>(60 + 10 * std::tanh((x - cx) * 0.6) * std::tanh((y - cy) * 0.6) + .5);
  std::vector<cv::Point2f> p{{30, 30}};
  std::vector<McCalib::SaddlePoint> r;
  McCalib::saddleSubpixelRefinement(im, p, r, 3, 50);
  return std::fabs(r[0].x - cx) < 0.2 && std::fabs(r[0].y - cy) < 0.2 ? 0 : 1;
}
""", run="$d/t"))
BUGS["cam_folder_ten"] = dict(
    prop="C20",
    edits=[(M, "    ss << std::setw(3) << std::setfill('0') << cam + 1;",
            "    ss << \"00\" << cam + 1;")],
    needs="ten cameras or more",
    what="the images of the tenth camera are looked for in a folder that does not exist",
    demo_sh=cxx(CONFIG + r"""
int main(int, char **v) {
  std::string d = v[1];
  config(d, 10, 1);
  McCalib::Calibration k(d + "/c.yml");
  std::filesystem::create_directories(d + "/im/Cam_010");
  cv::Mat im = boardImage(k, 0);
  for (int c = 1; c <= 9; c++)
    cv::imwrite(d + "/im/Cam_00" + std::to_string(c) + "/0.png", im);
  cv::imwrite(d + "/im/Cam_010/0.png", im);
  k.boardExtraction();
  return k.board_observations_.size() == 10 ? 0 : 1;
}
"""))
BUGS["border_views_kept"] = dict(
    prop="C12",
    edits=[("McCalib/src/Camera.cpp", """      if (valid_board == true) {
        img_points.emplace_back(board_obs_temp->pts_2d_);
        const""", """      {
        if (valid_board)
          img_points.emplace_back(board_obs_temp->pts_2d_);
        const"""),
           ("McCalib/src/Camera.cpp", """  // Calibrate using OpenCV
  cv::Mat camera_matrix, distortion_coeffs, r_vec, t_vec;""", """  // as many boards as views
  obj_points.resize(img_points.size());
  // Calibrate using OpenCV
  cv::Mat camera_matrix, distortion_coeffs, r_vec, t_vec;""")],
    needs="a fisheye camera estimated from nothing, boards of different size and a view at the border",
    what="views are matched with the points of another board",
    demo_sh=cxx(CONFIG + r"""
int main(int, char **v) {
  std::string d = v[1];
  config(d, 1, 2, "refine_corner: 0\nnumber_x_square_per_board: [7, 4]\n"
                  "number_y_square_per_board: [4, 7]\nsquare_size_per_board: [0.1, 0.1]\n"
                  "resolution_x_per_board: [500, 500]\nresolution_y_per_board: [500, 500]\n");
  { std::ifstream i(d + "/c.yml"); std::string s((std::istreambuf_iterator<char>(i)), {});
    s.replace(s.find("distortion_model: 0"), 19, "distortion_model: 1");
    i.close(); std::ofstream(d + "/c.yml") << s; }
  McCalib::Calibration k(d + "/c.yml");
  auto &cam = *k.cams_[0];
  cam.im_cols_ = 1280, cam.im_rows_ = 960;
  cv::Mat K = (cv::Mat_<double>(3, 3) << 420, 0, 640, 0, 425, 480, 0, 0, 1);
  cv::Mat D = (cv::Mat_<double>(1, 4) << 0.02, -0.01, 0.004, -0.001);
  for (int f = 0; f < 24; f++) {
    int b = f % 2;
    double s = f % 6 == 0 ? 1.1 : 0.0;   // every sixth view leaves the middle of the image
    cv::Mat r = (cv::Mat_<double>(3, 1) << 0.5 * std::sin(1.3 * f), 0.5 * std::cos(1.9 * f), 0.3 * std::sin(0.7 * f));
    cv::Mat t = (cv::Mat_<double>(3, 1) << -0.25 + 0.12 * std::sin(f * 2.1), -0.2 + 0.1 * std::cos(f * 1.1) - s, 0.65 + 0.08 * (f % 3));
    std::vector<cv::Point2f> px;
    std::vector<int> id;
    McCalib::projectPointsWithDistortion(k.boards_3d_[b]->pts_3d_, r, t, K, D, 1, px);
    for (size_t i = 0; i < px.size(); i++) id.push_back(i);
    k.insertNewBoard(0, f, b, px, id, "i");
  }
  try { k.initIntrinsic(); } catch (const std::exception &e) { return 2; }
  double e = std::fabs(cam.getCameraMat().at<double>(0, 0) - 420);
  fprintf(stderr, "%g\n", e);
  return e < 2 ? 0 : 1;
}
"""))
