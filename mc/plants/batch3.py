import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(sys.argv[1])))
from common import cxx, CONFIG
M = "McCalib/src/McCalib.cpp"
G = "McCalib/src/geometrytools.cpp"
BUGS = {}
BUGS["small_view_pose"] = dict(
    prop="C09",
    edits=[(M, """      if (cur_object_obs) {
        cv::Mat rot, trans;
        cur_object_obs->getPoseInGroupVec(rot, trans);""",
            """      // a pose seen through less than six corners is not worth reporting
      if (cur_object_obs && cur_object_obs->pts_id_.size() >= 6) {
        cv::Mat rot, trans;
        cur_object_obs->getPoseInGroupVec(rot, trans);""")],
    needs="a view of an object with four or five corners",
    what="the pose file has columns that were never written for the small views",
    demo="""
w = World(2, 1, 4)
obs = [w.see(c, f, 0, [0, 3, 8, 11] if (c, f) == (1, 2) else None)
       for f in range(4) for c in range(2)]
w.opt["number_iterations"] = 12
o = w.run(obs)
r, n, v = mats(o["calibrated_objects_pose_data.yml"], "poses")[0]
assert (r, n) == (6, 8), (r, n)
got = [pose(*[v[i * n + j] for i in range(6)]) for j in range(n)]
for f in range(4):
    T = mul(mul(w.T[0], w.M[f]), w.B[0])
    assert sum(diff(g, T) < 1e-2 for g in got) == 2, f
""")
BUGS["camera_key_digit"] = dict(
    prop="C08",
    edits=[(M, """        fs << "camera_" + std::to_string(cur_cam->cam_idx_);
        cv::Mat cam_matrix;""", """        std::string cam_key = "camera_0";
        cam_key.back() = static_cast<char>('0' + cur_cam->cam_idx_);
        fs << cam_key;
        cv::Mat cam_matrix;""")],
    needs="more than ten cameras",
    what="the camera file has no valid entry for the eleventh camera",
    demo="""
w = World(12, 1, 4)
obs = [w.see(c, f, 0) for f in range(4) for c in range(12)]
w.opt["number_iterations"] = 12
o = w.run(obs)
c = cameras(o)
assert o["rc"] == 0 and set(c) == set(range(12)), (o["rc"], set(c))
for k in c:
    assert diff(c[k]["pose"], w.rel(0, k)) < 5e-3, k
""")
BUGS["valid_by_corners"] = dict(
    prop="C13",
    edits=[("McCalib/src/BoardObs.cpp", "if (board_3d_ptr && inliers.rows < 4) {",
            "if (board_3d_ptr && pts_2d_.size() < 4) {")],
    needs="a board view with enough corners that agree with no pose",
    what="a view whose corners agree with no pose still ties cameras",
    demo="""
w = World(2, 2, 5)
obs = [w.see(c, f, c) for f in range(4) for c in range(2)]
# the only frame in which both cameras claim to see board 0
v = w.see(1, 4, 0, [0, 1, 2, 5, 6, 9])
v[4] = [(100, 100), (900, 850), (120, 830), (870, 90), (400, 420), (650, 130)]
o = w.run(obs + [w.see(0, 4, 0), v])
c = cameras(o)
assert o["rc"] == 0 and set(c) == {0, 1}, (o["rc"], set(c))
assert c[0]["group"] == c[1]["group"], c    # four common frames tie them
assert diff(c[1]["pose"], w.rel(0, 1)) < 5e-3, diff(c[1]["pose"], w.rel(0, 1))
""")
BUGS["ids_not_filtered"] = dict(
    prop="C14",
    edits=[("McCalib/src/BoardObs.cpp", """    pts_2d_ = new_pts_vec;
    charuco_id_ = new_charuco_id;""", """    pts_2d_ = new_pts_vec;
    // the corners are sorted, so that the outliers are left at the end
    if (charuco_id_.back() != new_charuco_id.back())
      charuco_id_ = new_charuco_id;
    charuco_id_.resize(new_pts_vec.size());""")],
    needs="a wrong corner that is not the last one of its view",
    what="after an outlier was removed the remaining corners carry the identifier of another one",
    demo="""
w = World(2, 1, 5)
obs = [w.see(c, f, 0) for f in range(5) for c in range(2)]
x, y = obs[3][4][4]
obs[3][4][4] = (x + 60, y - 45)
o = w.run(obs)
c = cameras(o)
assert set(c) == {0, 1}, c
assert diff(c[1]["pose"], w.rel(0, 1)) < 2e-3, diff(c[1]["pose"], w.rel(0, 1))
t = o["reprojection_error_data.yml"]
n = [k[0] * k[1] for k in mats(t, "error_list")]
assert sum(n) == sum(len(v[3]) for v in obs) - 1, n
e = [x for k in mats(t, "error_list") for x in k[2]]
assert max(e) < 0.1, max(e)
""")
SYN = CONFIG + r"""
static cv::Mat P(double a, double b, double c, double x, double y, double z) {
  return McCalib::RVecT2Proj((cv::Mat_<double>(3, 1) << a, b, c),
                             (cv::Mat_<double>(3, 1) << x, y, z));
}
static cv::Mat K() {
  return (cv::Mat_<double>(3, 3) << 700, 0, 640, 0, 690, 480, 0, 0, 1);
}
static void see(McCalib::Calibration &k, int c, int f, int b, const cv::Mat &pose) {
  std::vector<cv::Point2f> px;
  std::vector<int> id;
  cv::Mat r, t;
  McCalib::Proj2RT(pose, r, t);
  McCalib::projectPointsWithDistortion(k.boards_3d_[b]->pts_3d_, r, t, k.cams_[c]->getCameraMat(),
                                       k.cams_[c]->getDistortionVectorVector(),
                                       k.cams_[c]->distortion_model_, px);
  for (size_t i = 0; i < px.size(); i++) id.push_back(i);
  k.insertNewBoard(c, f, b, px, id, "im" + std::to_string(f));
}
"""
BUGS["single_board_views"] = dict(
    prop="C25",
    edits=[("McCalib/src/Object3D.cpp", "              if (ref_board_id_ == board_obs_ptr->board_id_)",
            "              if (ref_board_id_ == board_obs_ptr->board_id_ ||\n"
            "                  current_object_obs->board_observations_.size() == 1)")],
    needs="a view of an object that shows only a board other than the reference one",
    what="the refinement of an object fits such views as if they showed the reference board",
    demo_sh=cxx(SYN + r"""
int main(int, char **v) {
  std::string d = v[1];
  config(d, 1, 2);
  McCalib::Calibration k(d + "/c.yml");
  k.cams_[0]->setIntrinsics(K(), (cv::Mat_<double>(1, 5) << 0, 0, 0, 0, 0));
  cv::Mat rel = P(0.3, -0.4, 0.2, 0.5, 0.1, 0.2);
  for (int f = 0; f < 8; f++) {
    cv::Mat p = P(0.3 - 0.07 * f, 0.2 * (f % 3) - 0.3, 0.1 * f, -0.3 + 0.02 * f, -0.1, 1.5);
    if (f < 4) see(k, 0, f, 0, p);
    see(k, 0, f, 1, p * rel);
  }
  k.estimatePoseAllBoards();
  k.calibrate3DObjects();
  double worst = 0;
  for (const auto &o : k.object_observations_)
    worst = std::max<double>(worst, o.second->computeReprojectionError());
  return worst < 0.05 ? 0 : 1;
}
"""))
BUGS["object_chain_order"] = dict(
    prop="C02",
    edits=[(M, "          transform = transform * current_trans.inv(); // original\n"
               "          // transform = transform * current_trans;",
            "          transform = current_trans.inv() * transform;")],
    needs="three objects tied by two cameras, the first and the last only through the middle one",
    what="the points of objects tied through another object are misplaced",
    demo_sh=cxx(SYN + r"""
int main(int, char **v) {
  std::string d = v[1];
  config(d, 2, 3);
  McCalib::Calibration k(d + "/c.yml");
  for (int c = 0; c < 2; c++)
    k.cams_[c]->setIntrinsics(K(), (cv::Mat_<double>(1, 5) << 0, 0, 0, 0, 0));
  cv::Mat T[2] = {P(0, 0, 0, 0, 0, 0), P(0.2, -0.3, 0.9, -0.2, 0.1, 0.3)};
  cv::Mat B[3] = {P(0, 0, 0, 0, 0, 0), P(0.5, -0.4, 0.8, 0.3, 0.1, 0.1),
                  P(-0.6, 0.3, -0.7, -0.2, 0.3, 0.2)};
  for (int f = 0; f < 12; f++) {
    cv::Mat m = P(0.3 - 0.05 * f, 0.2 * (f % 3) - 0.3, 0.1 * f, -0.2 + 0.02 * f, -0.1, 1.8);
    see(k, 0, f, f < 4 ? 0 : 1, T[0] * m * B[f < 4 ? 0 : 1]);
    see(k, 1, f, f < 4 || f >= 8 ? 1 : 2, T[1] * m * B[f < 4 || f >= 8 ? 1 : 2]);
  }
  k.estimatePoseAllBoards();
  k.calibrate3DObjects();
  k.calibrateCameraGroup();
  k.estimatePoseAllObjects();
  k.computeAllObjPoseInCameraGroup();
  k.computeObjectsPairPose();
  k.initInterTransform(k.object_pose_pairs_, k.inter_object_transform_);
  k.initInterObjectsGraph();
  k.mergeObjects();
  if (k.object_3d_.size() != 1) return 2;
  auto &o = *k.object_3d_[0];
  double worst = 0;
  for (size_t i = 0; i < o.pts_3d_.size(); i++) {
    auto id = o.pts_obj_2_board_[i];
    cv::Point3f q = k.boards_3d_[id.first]->pts_3d_[id.second];
    cv::Mat x = B[id.first] * (cv::Mat_<double>(4, 1) << q.x, q.y, q.z, 1);
    worst = std::max(worst, cv::norm(cv::Point3d(x.at<double>(0), x.at<double>(1), x.at<double>(2)) -
                                     cv::Point3d(o.pts_3d_[i])));
  }
  fprintf(stderr, "%g\n", worst);
  return worst < 0.01 ? 0 : 1;
}
"""))
BUGS["fisheye_theta7"] = dict(
    prop="C25",
    edits=[("McCalib/include/OptimizationCeres.h", None, None)],
    needs="a fisheye camera with a non-null third coefficient, refined with boards and fixed "
          "intrinsics",
    what="the model minimised by this stage is not the one the points are projected with",
    demo="""
w = World(2, 2, 6)
for c in range(2):
    w.model[c] = 1
    w.f[c] = (300 + 5 * c, 305 - 3 * c, 640 + 5 * c, 480 - 4 * c)
    w.d[c] = [0.02, -0.01, 0.15, -0.02]
obs = [w.see(c, f, b) for f in range(6) for c in range(2) for b in range(2)]
o = w.run(obs)
c = cameras(o)
assert len(c) == 2, c
assert diff(c[1]["pose"], w.rel(0, 1)) < 2e-4, diff(c[1]["pose"], w.rel(0, 1))
""")
BUGS["consistency_last_pair"] = dict(
    prop="C15",
    edits=[(G, "        max_rotational_error = std::max(max_rotational_error, err_degree);",
            "        if (err_degree > max_rotational_error || j < i)\n"
            "          max_rotational_error = err_degree;")],
    needs="a grossly wrong pose in a frame that is not the last one drawn",
    what="subsets with a wrong pose pass the consistency test and enter the average",
    demo_sh=cxx(r"""
#include "geometrytools.hpp"
#include <boost/log/core.hpp>
using namespace McCalib;
static cv::Mat P(double a, double b, double c, double x, double y, double z) {
  return RVecT2Proj((cv::Mat_<double>(3, 1) << a, b, c), (cv::Mat_<double>(3, 1) << x, y, z));
}
int main() {
  boost::log::core::get()->set_logging_enabled(false);
  cv::Mat X = P(0.4, -0.7, 0.3, 0.5, -0.2, 0.3), Y = P(-0.2, 0.5, 0.9, 0.3, 0.4, -0.1);
  int bad = 0;
  for (int rep = 0; rep < 5; rep++) {
    std::vector<cv::Mat> a, b;
    for (int f = 0; f < 14; f++) {
      cv::Mat A = P(0.9 * std::sin(1.7 * f), 0.8 * std::cos(2.3 * f), 0.7 * std::sin(0.9 * f + 1),
                    0.5 * std::cos(f), 0.4 * std::sin(2.1 * f), 1.5 + 0.3 * std::sin(f));
      a.push_back(A);
      b.push_back(X.inv() * A * Y);
    }
    b[rep + 2] = b[rep + 2] * P(1.1, -0.9, 0.7, 0.2, -0.3, 0.4);
    cv::theRNG().state = 1 + rep;
    cv::Mat got = handeyeBootstraptTranslationCalibration(12, 200, a, b);
    double e = std::min(cv::norm(got - X, cv::NORM_INF), cv::norm(got - X.inv(), cv::NORM_INF));
    bad += !(e < 1e-2);
  }
  return bad ? 1 : 0;
}
""", run="$d/t"))
BUGS["view_valid_unset"] = dict(
    prop="C26",
    edits=[("McCalib/include/BoardObs.hpp", "  bool valid_ = true;", "  bool valid_;"),
           ("McCalib/src/BoardObs.cpp", """    if (board_3d_ptr && inliers.rows < 4) {
      valid_ = false;
    }""", """    if (board_3d_ptr && inliers.rows >= 4) {
      valid_ = true;
    }""")],
    needs="a view with too few usable corners in a block of memory that was used before",
    what="whether a view without pose is used depends on what the memory held",
    demo="""
res = []
for fill in ("0", "1", "254"):
    os.environ["MALLOC_PERTURB_"] = fill
    w = World(2, 2, 5)
    obs = [w.see(c, f, c) for f in range(4) for c in range(2)]
    v = w.see(1, 4, 0, [0, 1, 2, 5, 6, 9])
    v[4] = [(100, 100), (900, 850), (120, 830), (870, 90), (400, 420), (650, 130)]
    o = w.run(obs + [w.see(0, 4, 0), v])
    c = cameras(o)
    res.append((o["rc"], {k: c[k]["group"] for k in c}, len(objects(o)),
                len(mats(o["calibrated_objects_pose_data.yml"], "poses"))))
    assert len(c) == 2 and diff(c[1]["pose"], w.rel(0, 1)) < 5e-3, (fill, c)
assert res[0] == res[1] == res[2], res
""")
BUGS["threshold_first_board"] = dict(
    prop="C20",
    edits=[(M, "            std::round(min_perc_pts_ * boards_3d_[i]->nb_pts_))) {",
            "            std::round(min_perc_pts_ * boards_3d_[0]->nb_pts_))) {")],
    needs="boards with different numbers of squares, a partial view near the threshold",
    what="whether enough corners of a board are found is judged by the size of another board",
    demo_sh=cxx(CONFIG + r"""
int main(int, char **v) {
  std::string d = v[1];
  config(d, 1, 2, "refine_corner: 0\nnumber_x_square_per_board: [9, 4]\n"
                  "number_y_square_per_board: [7, 4]\nsquare_size_per_board: [0.1, 0.1]\n"
                  "resolution_x_per_board: [500, 500]\nresolution_y_per_board: [500, 500]\n");
  McCalib::Calibration k(d + "/c.yml");
  cv::imwrite(d + "/im/Cam_001/0.png", boardImage(k, 1));
  k.boardExtraction();
  return k.board_observations_.size() == 1 && k.board_observations_[0]->board_id_ == 1 ? 0 : 1;
}
"""))
BUGS["square_size_first"] = dict(
    prop="C17",
    edits=[],
    needs="", what="", demo="")
# the fourth occurrence of this line is the one of ReprojectionError_CameraGroupAndObjectRef
_h = open("/repo/McCalib/include/OptimizationCeres.h").read()
_a = _h.index("struct ReprojectionError_CameraGroupAndObjectRef {")
_b = _h.index("struct ReprojectionError_CameraGroupAndObjectRefAndIntrinsics {")
_m = _h[_a:_b]
BUGS["fisheye_theta7"]["edits"] = [(
    "McCalib/include/OptimizationCeres.h", _m,
    _m.replace("theta7 = theta6 * theta", "theta7 = theta6 * theta2"))]
del BUGS["square_size_first"]
