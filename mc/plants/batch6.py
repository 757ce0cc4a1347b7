import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(sys.argv[1])))
from common import cxx, CONFIG
import runpy
SYN = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(sys.argv[1])), "batch3.py"))["SYN"]
M = "McCalib/src/McCalib.cpp"
BUGS = {}
BUGS["graph_float"] = dict(
    prop="C05",
    edits=[("McCalib/include/Graph.hpp", "boost::edge_weight_t, double>", "boost::edge_weight_t, float>")],
    needs="two chains whose total weights differ by less than single precision resolves",
    what="the heavier of the two chains is taken",
    demo_sh=cxx(r"""
#include "Graph.hpp"
int main() {
  Graph a, b;
  for (int i = 0; i < 2; i++) {
    Graph &g = i ? b : a;
    const double e = i ? 1e-10 : -1e-10;
    g.addEdge(0, 1, 0.25);
    g.addEdge(1, 2, 0.25 + e);
    g.addEdge(0, 2, 0.5);
  }
  return a.shortestPathBetween(0, 2).size() == 3 && b.shortestPathBetween(0, 2).size() == 2 ? 0 : 1;
}
"""))
BUGS["average_hundred"] = dict(
    prop="C19",
    edits=[(M, """    const std::vector<cv::Mat> &poses_temp = it.second;
    cv::Mat average_translation""", """    // a hundred estimates are plenty
    const std::vector<cv::Mat> poses_temp(
        it.second.begin(),
        it.second.begin() + std::min<std::size_t>(it.second.size(), 100u));
    cv::Mat average_translation""")],
    needs="a pair seen together more than a hundred times",
    what="the estimates after the hundredth do not count in the average",
    demo_sh=cxx(SYN + r"""
int main(int, char **v) {
  config(v[1], 1, 1);
  McCalib::Calibration k(std::string(v[1]) + "/c.yml");
  std::map<std::pair<int, int>, std::vector<cv::Mat>> in;
  std::map<std::pair<int, int>, cv::Mat> out;
  for (int i = 0; i < 251; i++) {
    cv::Mat m = cv::Mat::eye(4, 4, CV_64F);
    m.at<double>(0, 3) = i;
    in[{0, 1}].push_back(m);
  }
  k.initInterTransform(in, out);
  return std::fabs(out[{0, 1}].at<double>(0, 3) - 125) < 1e-9 ? 0 : 1;
}
"""))
BUGS["group_frames_limit"] = dict(
    prop="C25",
    edits=[("McCalib/src/CameraGroup.cpp", """void CameraGroup::refineCameraGroupAndObjects(const int nb_iterations) {
  ceres::Problem problem;
""", """void CameraGroup::refineCameraGroupAndObjects(const int nb_iterations) {
  ceres::Problem problem;
  std::size_t nb_frames_used = 0u;
"""), ],
    needs="", what="", demo_sh="")
del BUGS["group_frames_limit"]
BUGS["keypoints_kept"] = dict(
    prop="C28",
    edits=[(M, """  cv::FileStorage fs;
  fs.open(keypoints_path_, cv::FileStorage::READ);
  LOG_INFO << "Loading keypoints from " << keypoints_path_;
""", """  // large keypoints files take long to parse
  static std::map<std::string, cv::FileStorage> opened;
  static std::mutex opened_lock;
  std::unique_lock<std::mutex> lock(opened_lock);
  cv::FileStorage &fs = opened[keypoints_path_.string()];
  if (!fs.isOpened())
    fs.open(keypoints_path_, cv::FileStorage::READ);
  LOG_INFO << "Loading keypoints from " << keypoints_path_;
"""), (M, """                     charuco_idxs[i], frame_paths[i]);
    }
  }
  fs.release();
""", """                     charuco_idxs[i], frame_paths[i]);
    }
  }
""")],
    needs="two calibrations in one process from keypoints files of the same name and other contents",
    what="the second calibration uses the keypoints of the first",
    demo_sh=cxx(CONFIG + r"""
static size_t once(const std::string &d, int n) {
  config(d, 1, 1);
  std::ifstream in(d + "/c.yml");
  std::string s((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
  in.close();
  const std::string a = "keypoints_path: \"None\"";
  s.replace(s.find(a), a.size(), "keypoints_path: \"" + d + "/k.yml\"");
  std::ofstream(d + "/c.yml") << s;
  std::ofstream k(d + "/k.yml");
  k << "%YAML:1.0\n---\ncamera_0:\n  img_width: 640\n  img_height: 480\n  frame_idxs: [";
  for (int i = 0; i < n; i++) k << (i ? ", " : " ") << i;
  k << " ]\n  frame_paths: [";
  for (int i = 0; i < n; i++) k << (i ? ", " : " ") << "\"im" << i << "\"";
  k << " ]\n  board_idxs: [";
  for (int i = 0; i < n; i++) k << (i ? ", " : " ") << 0;
  k << " ]\n  pts_2d:\n";
  for (int i = 0; i < n; i++)
    k << "    - [ 10., 10., 20., 10., 30., 10., 10., 20., 20., 20., 30., 20. ]\n";
  k << "  charuco_idxs:\n";
  for (int i = 0; i < n; i++) k << "    - [ 0, 1, 2, 4, 5, 6 ]\n";
  k.close();
  McCalib::Calibration c(d + "/c.yml");
  c.boardExtraction();
  return c.board_observations_.size();
}
int main(int, char **v) {
  const size_t a = once(v[1], 3), b = once(v[1], 5);
  return a == 3 && b == 5 ? 0 : 1;
}
"""))
BUGS["images_kept"] = dict(
    prop="C20",
    edits=[(M, """  cv::Mat image = cv::imread(frame_path);
  if (image.empty()) {
    LOG_ERROR << "Could not read the image :: " << frame_path;
    return;""", """  // reading is slow, keep the images
  static std::map<std::string, cv::Mat> images;
  static std::mutex images_lock;
  cv::Mat image;
  {
    std::unique_lock<std::mutex> lock(images_lock);
    cv::Mat &kept = images[frame_path];
    if (kept.empty())
      kept = cv::imread(frame_path);
    image = kept;
  }
  if (image.empty()) {
    LOG_ERROR << "Could not read the image :: " << frame_path;
    return;""")],
    needs="two extractions in one process of an image file that changed in between",
    what="the boards of the earlier contents of the file are registered",
    demo_sh=cxx(CONFIG + r"""
static std::set<int> once(const std::string &d, int b) {
  config(d, 1, 3);
  McCalib::Calibration c(d + "/c.yml");
  cv::imwrite(d + "/im/Cam_001/a.png", boardImage(c, b));
  c.boardExtraction();
  std::set<int> r;
  for (const auto &o : c.board_observations_) r.insert(o.second->board_id_);
  return r;
}
int main(int, char **v) {
  const std::set<int> a = once(v[1], 0), b = once(v[1], 2);
  return a == std::set<int>{0} && b == std::set<int>{2} ? 0 : 1;
}
"""))
