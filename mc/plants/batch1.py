import os
import sys
sys.path.insert(0, "/verif/mc/plants")
from common import cxx, CONFIG
M = "McCalib/src/McCalib.cpp"
BUGS = {}
BUGS["cam_pair_reverse"] = dict(
    prop="C01",
    edits=[(M, """                  camera_pose_pairs_[std::make_pair(cam_id_1, cam_id_2)]
                      .push_back(inter_cam_pose);""",
            """                  camera_pose_pairs_[std::make_pair(cam_id_1, cam_id_2)]
                      .push_back(cam_id_1 < cam_id_2
                                     ? inter_cam_pose
                                     : pose_cam_1.inv() * pose_cam_2);""")],
    needs="a co-visibility path from the reference camera that steps from a camera to one with a "
          "smaller number (chain 0-4-3-2-1)",
    what="the pose between two cameras is composed in the wrong frame when walked towards the "
         "smaller camera number",
    demo="""
w = World(5, 1, 9)
obs = []
for f, v in enumerate([(2, 1), (3, 2), (4, 3), (0, 4), (0,), (1,), (2,), (3,), (4,)]):
    for c in v:
        obs.append(w.see(c, f, 0))
w.opt["number_iterations"] = 12
o = w.run(obs)
c = cameras(o)
assert set(c) == {0, 1, 2, 3, 4}, c
for k in c:
    assert diff(c[k]["pose"], w.rel(0, k)) < 5e-3, (k, diff(c[k]["pose"], w.rel(0, k)))
""")
BUGS["obj_min_board"] = dict(
    prop="C02",
    edits=[(M, """    int ref_board_id =
        *min_element(connect_comp[i].begin(), connect_comp[i].end());""",
            """    int ref_board_id = connect_comp[i].front();"""),
           (M, """  // Each board is a vertex if it has been observed at least once
  for (const auto &it : boards_3d_) {
    if (it.second->board_observations_.size() > 0) {
      covis_boards_graph_.addVertex(it.second->board_id_);
    }
  }

  for (const auto &it : board_pose_pairs_) {
    const std::pair<int, int> &board_pair_idx = it.first;
    const std::vector<cv::Mat> &board_poses_temp = it.second;
    covis_boards_graph_.addEdge(board_pair_idx.first, board_pair_idx.second,
                                ((double)1 / board_poses_temp.size()));
  }
""", """  for (const auto &it : board_pose_pairs_) {
    const std::pair<int, int> &board_pair_idx = it.first;
    const std::vector<cv::Mat> &board_poses_temp = it.second;
    covis_boards_graph_.addEdge(board_pair_idx.first, board_pair_idx.second,
                                ((double)1 / board_poses_temp.size()));
  }

  // Each remaining board is a vertex if it is usually seen on its own
  for (const auto &it : boards_3d_) {
    if (it.second->board_observations_.size() > 1) {
      covis_boards_graph_.addVertex(it.second->board_id_);
    }
  }
""")],
    needs="a board observed exactly once and never together with another board",
    what="a board seen in a single image only is dropped from the objects",
    demo="""
w = World(1, 3, 6)
obs = [w.see(0, f, b) for f in range(4) for b in (0, 1)] + [w.see(0, 4, 2)]
o = w.run(obs)
ob = objects(o)
got = sorted(sorted({int(p[3]) for p in v}) for v in ob.values())
assert got == [[0, 1], [2]], got
""")
BUGS["graph_clear"] = dict(
    prop="C05",
    edits=[("McCalib/src/Graph.cpp", """  graph_.clear();
  idx_to_vertex_.clear();
""", """  // the vertices are kept, only the links are forgotten
  for (const auto &it : idx_to_vertex_)
    boost::clear_vertex(it.second, graph_);
""")],
    needs="a graph reused after being cleared, with different vertices",
    what="clearing a graph keeps its old vertices as isolated components",
    demo_sh=cxx(r"""
#include "Graph.hpp"
#include <boost/log/core.hpp>
int main() {
  boost::log::core::get()->set_logging_enabled(false);
  Graph g;
  g.addEdge(1, 2, 0.5);
  g.addVertex(7);
  g.clearGraph();
  g.addEdge(2, 3, 0.5);
  return g.connectedComponents().size() == 1 ? 0 : 1;
}
"""))
BUGS["kp_paths_shifted"] = dict(
    prop="C07",
    edits=[(M, """    fs << "frame_idxs" << frame_idxs;
    fs << "frame_paths" << frame_paths;
    fs << "board_idxs" << board_idxs;
    fs << "pts_2d" << points;
    fs << "charuco_idxs" << charuco_idxs;""",
            """    // one record per frame, the boards of a frame share its number
    frame_paths.erase(std::unique(frame_paths.begin(), frame_paths.end()),
                      frame_paths.end());
    if (frame_paths.size() != frame_idxs.size())
      frame_paths.resize(frame_idxs.size(), frame_paths.back());
    fs << "frame_idxs" << frame_idxs;
    fs << "frame_paths" << frame_paths;
    fs << "board_idxs" << board_idxs;
    fs << "pts_2d" << points;
    fs << "charuco_idxs" << charuco_idxs;""")],
    needs="several boards visible in one image followed by further images",
    what="image paths of the saved keypoints are shifted after an image with several boards",
    demo="""
w = World(1, 2, 3)
obs = [w.see(0, 0, 0), w.see(0, 0, 1), w.see(0, 1, 0), w.see(0, 2, 1)]
o = w.run(obs)
t = o["detected_keypoints_data.yml"]
p = re.findall(r'img\\d', t)
assert p == ["img0", "img0", "img1", "img2"], p
""")
BUGS["frame_number_of_readable"] = dict(
    prop="C20",
    edits=[(M, """  for (std::size_t frame_idx = 0u; frame_idx < num_frames; ++frame_idx) {
    LOG_DEBUG << "Frame index :: " << frame_idx;

    // detect the checkerboard on this image
    const std::string frame_path = fn[frame_idx];
""", """  std::size_t frame_idx = 0u;
  for (std::size_t file_idx = 0u; file_idx < num_frames; ++file_idx) {
    LOG_DEBUG << "Frame index :: " << frame_idx;

    // detect the checkerboard on this image
    const std::string frame_path = fn[file_idx];
    if (!cv::haveImageReader(frame_path))
      continue; // not an image
"""), (M, """                                this, frame_path, cam_idx, frame_idx));
""", """                                this, frame_path, cam_idx, frame_idx));
    ++frame_idx;
""")],
    needs="an unreadable image file in the folder of one camera",
    what="frames after an unreadable image are numbered one too low, so the cameras are no longer "
         "synchronised",
    demo_sh=cxx(CONFIG + r"""
int main(int, char **v) {
  std::string d = v[1];
  config(d, 1, 1);
  McCalib::Calibration k(d + "/c.yml");
  cv::Mat im = boardImage(k, 0);
  cv::imwrite(d + "/im/Cam_001/a.png", im);
  std::ofstream(d + "/im/Cam_001/b.png") << "damaged";
  cv::imwrite(d + "/im/Cam_001/c.png", im);
  k.boardExtraction();
  std::string s;
  for (auto &f : k.frames_)
    s += std::to_string(f.first);
  return s == "02" ? 0 : 1;
}
"""))
BUGS["thread_path_reference"] = dict(
    prop="C06",
    edits=[(M, """    const std::string frame_path = fn[frame_idx];
    boost::asio::post(pool,
                      std::bind(&Calibration::detectBoardsInImageWithCamera,
                                this, frame_path, cam_idx, frame_idx));
""", """    frame_path = fn[frame_idx];
    boost::asio::post(pool,
                      std::bind(&Calibration::detectBoardsInImageWithCamera,
                                this, std::cref(frame_path), cam_idx,
                                frame_idx));
"""), (M, """  std::size_t num_frames = fn.size();
""", """  std::size_t num_frames = fn.size();
  std::string frame_path; // reused for every frame
""")],
    needs="a worker thread that starts its image after the next one has been queued",
    what="the workers read an image path that the main thread is overwriting",
    demo_sh=cxx(CONFIG + r"""
int main(int, char **v) {
  std::string d = v[1];
  config(d, 1, 1);
  cv::Mat im;
  {
    McCalib::Calibration k(d + "/c.yml");
    im = boardImage(k, 0);
  }
  // every second image shows a board, the others are blank
  for (int i = 0; i < 40; i++)
    cv::imwrite(d + "/im/Cam_001/" + std::to_string(100 + i) + ".png",
                i % 2 ? cv::Mat(500, 500, CV_8UC1, cv::Scalar(255)) : im);
  for (int r = 0; r < 10; r++) {
    McCalib::Calibration k(d + "/c.yml");
    k.boardExtraction();
    int n = 0;
    for (auto &f : k.frames_) {
      n++;
      if (f.first % 2)
        return 1;
    }
    if (n != 20)
      return 1;
  }
  return 0;
}
"""))
