From c74cb6380e8af119f2c486936d4128f64879158b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:20 +0000
Subject: [PATCH 01/31] fix: write every camera group to the camera parameters
 file

---
 McCalib/src/McCalib.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index c2eda02..f5fcba3 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -378,9 +378,9 @@ void Calibration::saveCamerasParams() {
           ? save_path_ / camera_params_file_name_
           : save_path_ / "calibrated_cameras_data.yml";
   cv::FileStorage fs(save_path_camera_params, cv::FileStorage::WRITE);
+  fs << "nb_camera" << static_cast<int>(nb_camera_);
   for (const auto &it_cam_group : cam_group_) {
     std::shared_ptr<CameraGroup> cur_cam_group = it_cam_group.second;
-    fs << "nb_camera" << static_cast<int>(nb_camera_);
     for (const auto &it_cam : cur_cam_group->cameras_) {
       std::shared_ptr<Camera> cur_cam = it_cam.second.lock();
       if (cur_cam) {
@@ -399,9 +399,8 @@ void Calibration::saveCamerasParams() {
            << cur_cam_group->getCameraPoseMat(cur_cam->cam_idx_).inv() << "}";
       }
     }
-
-    fs.release();
   }
+  fs.release();
 }
 
 /**
-- 
2.43.0


From a63e370a254cc301952c09a3ed6460e1b87ece14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:44 +0000
Subject: [PATCH 02/31] fix: compose camera transforms along multi-edge paths
 in the right order

---
 McCalib/src/McCalib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index f5fcba3..5fe859d 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -1129,7 +1129,7 @@ void Calibration::initCameraGroup() {
               std::make_pair(current_cam, next_cam);
           cv::Mat current_trans = inter_camera_transform_[cam_pair_idx];
           // transform = transform * current_trans.inv();
-          transform = transform * current_trans;
+          transform = current_trans * transform;
         }
       }
       // Store the relative camera transformation in the object
-- 
2.43.0


From 7a20fbd9cc6324917888a4410727d013f6b2dc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:44 +0000
Subject: [PATCH 03/31] fix: compose camera group transforms along multi-edge
 paths in the right order

---
 McCalib/src/McCalib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index 5fe859d..dfe8745 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -1565,7 +1565,7 @@ void Calibration::mergeCameraGroup() {
           cv::Mat current_trans =
               no_overlap_camgroup_pair_pose_[group_pair_idx];
           // transform = transform * current_trans.inv();
-          transform = transform * current_trans;
+          transform = current_trans * transform;
         }
       }
       // Store the poses
-- 
2.43.0


From 8efc551b2b9ba5b21956d220ca8416de3bcf48ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:44 +0000
Subject: [PATCH 04/31] fix: do not reuse non-overlapping group poses after the
 groups were merged

---
 McCalib/src/McCalib.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index dfe8745..696c3a9 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -1482,7 +1482,7 @@ void Calibration::initNonOverlapPair(const int cam_group_id1,
  */
 void Calibration::findPoseNoOverlapAllCamGroup() {
   no_overlap_camgroup_pair_pose_.clear();
-  no_overlap_camgroup_pair_pose_.clear();
+  no_overlap__camgroup_pair_common_cnt_.clear();
 
   // Iterate through the camera groups
   for (const auto &it_groups_1 : cam_group_) {
@@ -1606,6 +1606,9 @@ void Calibration::mergeCameraGroup() {
   // Erase previous camera group and replace it with the merged one
   cam_group_.clear();
   cam_group_ = cam_group;
+  // The pairwise poses are indexed by the previous groups
+  no_overlap_camgroup_pair_pose_.clear();
+  no_overlap__camgroup_pair_common_cnt_.clear();
 }
 
 /**
-- 
2.43.0


From b735df31730c333d4a4377cf64815a64ae1227b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:44 +0000
Subject: [PATCH 05/31] fix: use floating point distances in the shortest path
 search

---
 McCalib/src/Graph.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/McCalib/src/Graph.cpp b/McCalib/src/Graph.cpp
index a985791..ea858fa 100755
--- a/McCalib/src/Graph.cpp
+++ b/McCalib/src/Graph.cpp
@@ -111,11 +111,8 @@ std::vector<int> Graph::shortestPathBetween(const int v1, const int v2) {
     return vert_in_path;
   }
 
-  std::vector<VertexProperties> p(boost::num_vertices(graph_));
-  std::vector<int> d(boost::num_vertices(graph_));
-
   const int num_vertices = boost::num_vertices(graph_);
-  std::vector<int> distances(num_vertices);
+  std::vector<double> distances(num_vertices);
   std::vector<Vertex> p_map(num_vertices);
 
   auto distance_map =
-- 
2.43.0


From e60e968ce346b63162159c7a83fafa3dd412a7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:50 +0000
Subject: [PATCH 06/31] fix: do not sample a pose hypothesis from fewer than
 four points

---
 McCalib/src/geometrytools.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/McCalib/src/geometrytools.cpp b/McCalib/src/geometrytools.cpp
index a4af8b6..a3d8f3a 100644
--- a/McCalib/src/geometrytools.cpp
+++ b/McCalib/src/geometrytools.cpp
@@ -246,6 +246,10 @@ cv::Mat ransacP3P(const std::vector<cv::Point3f> &scenePoints,
   cv::Mat Rot(1, 3, CV_64F);
   cv::Mat Trans(1, 3, CV_64F);
 
+  // A hypothesis needs four points
+  if (imagePoints.size() < 4)
+    return InliersR;
+
   // Vector of index to shuffle
   std::srand(unsigned(std::time(0)));
   std::vector<int> myvector(imagePoints.size());
-- 
2.43.0


From 0c3e23c22e0be3c4b3a33736cf3a10fb0ee95577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:50 +0000
Subject: [PATCH 07/31] fix: ignore board observations flagged as invalid

---
 McCalib/src/McCalib.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index 696c3a9..f50a3d0 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -720,7 +720,8 @@ void Calibration::refineIntrinsicAndPoseAllCam() {
  */
 void Calibration::computeReproErrAllBoard() {
   for (const auto &it : board_observations_) {
-    std::ignore = it.second->computeReprojectionError();
+    if (it.second->valid_)
+      std::ignore = it.second->computeReprojectionError();
   }
 }
 
@@ -741,11 +742,11 @@ void Calibration::computeBoardsPairPose() {
     {
       for (const auto &it1 : current_board->board_observations_) {
         auto board1_obs_ptr = it1.second.lock();
-        if (board1_obs_ptr) {
+        if (board1_obs_ptr && board1_obs_ptr->valid_) {
           int boardid1 = board1_obs_ptr->board_id_;
           for (const auto &it2 : current_board->board_observations_) {
             auto board2_obs_ptr = it2.second.lock();
-            if (board2_obs_ptr) {
+            if (board2_obs_ptr && board2_obs_ptr->valid_) {
               int boardid2 = board2_obs_ptr->board_id_;
               cv::Mat proj_1 = board1_obs_ptr->getPoseMat();
               if (boardid1 != boardid2) // We do not care about the
@@ -949,7 +950,7 @@ void Calibration::init3DObjectObs(const int object_idx) {
         current_camobs->board_observations_;
     for (const auto &it_board_obs : current_board_obs) {
       auto board_obs_ptr = it_board_obs.second.lock();
-      if (board_obs_ptr) {
+      if (board_obs_ptr && board_obs_ptr->valid_) {
         // Check if this board correspond to the object of interest
         std::map<int, std::weak_ptr<Board>>::iterator it =
             object_3d_[object_idx]->boards_.find(board_obs_ptr->board_id_);
-- 
2.43.0


From c4eec96a2aa000ae6068bcb3e32e2dba245e1345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:50 +0000
Subject: [PATCH 08/31] fix: register a frame with every camera and board
 observed in it

---
 McCalib/src/McCalib.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index f50a3d0..5d54446 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -620,9 +620,9 @@ void Calibration::insertNewBoard(const int cam_idx, const int frame_idx,
         std::make_shared<Frame>(frame_idx, cam_idx, frame_path);
     frames_[frame_idx] = newFrame; // Initialize the Frame if key does not exist
     frames_[frame_idx]->insertNewBoard(new_board);
-    cams_[cam_idx]->insertNewFrame(newFrame);
-    boards_3d_[board_idx]->insertNewFrame(newFrame);
   }
+  cams_[cam_idx]->insertNewFrame(frames_[frame_idx]);
+  boards_3d_[board_idx]->insertNewFrame(frames_[frame_idx]);
 
   // Add CamObs in the CamobsList and frame
   std::pair<int, int> cam_frame_idx = std::make_pair(cam_idx, frame_idx);
-- 
2.43.0


From 408f067f2a79d82c2af66f5d480d366ace92e7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:50 +0000
Subject: [PATCH 09/31] fix: do not duplicate the object observations when
 objects are merged

---
 McCalib/src/McCalib.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index 5d54446..a007e8a 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -1854,12 +1854,8 @@ void Calibration::mergeAllObjectObs() {
   object_observations_.clear();
 
   // Reinitialize all the 3D object
-  for (const auto &it_object : object_3d_) {
-    (void)it_object;
-    // Reinitialize all object obserations
-    for (const auto &it : object_3d_)
-      this->init3DObjectObs(it.first);
-  }
+  for (const auto &it : object_3d_)
+    this->init3DObjectObs(it.first);
 }
 
 /**
-- 
2.43.0


From 0ebd4ac8d604391617ede24200388efd738fdebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:50 +0000
Subject: [PATCH 10/31] fix: list only the frames of the camera group in the
 reprojection report

---
 McCalib/src/McCalib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index a007e8a..ed8bbaf 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -2251,7 +2251,6 @@ void Calibration::saveReprojectionErrorToFile() {
   const std::filesystem::path save_reprojection_error =
       save_path_ / "reprojection_error_data.yml";
   cv::FileStorage fs(save_reprojection_error, cv::FileStorage::WRITE);
-  cv::Mat frame_list;
   int nb_cam_group = cam_group_.size();
   fs << "nb_camera_group" << nb_cam_group;
 
@@ -2259,6 +2258,7 @@ void Calibration::saveReprojectionErrorToFile() {
     int cam_group_idx = it.second->cam_group_idx_;
     fs << "camera_group_" + std::to_string(cam_group_idx);
     fs << "{";
+    cv::Mat frame_list;
     std::shared_ptr<CameraGroup> cur_cam_group = it.second;
     // iterate through frames
     for (const auto &it_frame : cur_cam_group->frames_) {
-- 
2.43.0


From a7c7ece8110735b8efff889dd1dd364af143dd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:50 +0000
Subject: [PATCH 11/31] fix: report one entry per camera when it sees several
 objects in a frame

---
 McCalib/src/McCalib.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index ed8bbaf..60dc046 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -2265,6 +2265,7 @@ void Calibration::saveReprojectionErrorToFile() {
       std::shared_ptr<Frame> it_frame_ptr = it_frame.second.lock();
       if (it_frame_ptr) {
         cv::Mat camera_list;
+        std::map<int, cv::Mat> camera_errors; // errors of all seen objects
         fs << "frame_" + std::to_string(it_frame_ptr->frame_idx_);
         fs << "{";
         frame_list.push_back(it_frame_ptr->frame_idx_);
@@ -2294,18 +2295,12 @@ void Calibration::saveReprojectionErrorToFile() {
                 const std::vector<int> &obj_pts_idx = it_obj3d_ptr->pts_id_;
                 const std::vector<cv::Point2f> &obj_pts_2d =
                     it_obj3d_ptr->pts_2d_;
-                camera_list.push_back(current_cam_id);
-                fs << "camera_" + std::to_string(current_cam_id);
-                fs << "{";
 
                 // compute the reprojection error
                 std::vector<cv::Point3f> object_pts;
                 for (const auto &obj_pt_idx : obj_pts_idx)
                   object_pts.push_back(obj_pts_3d[obj_pt_idx]);
 
-                int nb_pts = obj_pts_idx.size();
-                fs << "nb_pts" << nb_pts;
-
                 // apply object pose transform
                 std::vector<cv::Point3f> object_pts_trans1 =
                     transform3DPts(object_pts,
@@ -2326,11 +2321,18 @@ void Calibration::saveReprojectionErrorToFile() {
 
                 cv::Mat error_list =
                     computeDistanceBetweenPoints(obj_pts_2d, repro_pts);
-                fs << "error_list" << error_list << "}";
+                camera_errors[current_cam_id].push_back(error_list);
               }
             }
           }
         }
+        for (const auto &it_errors : camera_errors) {
+          camera_list.push_back(it_errors.first);
+          fs << "camera_" + std::to_string(it_errors.first);
+          fs << "{";
+          fs << "nb_pts" << it_errors.second.rows;
+          fs << "error_list" << it_errors.second << "}";
+        }
         fs << "camera_list" << camera_list << "}";
       }
     }
-- 
2.43.0


From 986374260aa5e52b5d5f06875f1f0ffd98c39cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:07 +0000
Subject: [PATCH 12/31] fix: do not pick more pose clusters than available in
 the hand-eye bootstrap

---
 McCalib/src/geometrytools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/src/geometrytools.cpp b/McCalib/src/geometrytools.cpp
index a3d8f3a..5fb4709 100644
--- a/McCalib/src/geometrytools.cpp
+++ b/McCalib/src/geometrytools.cpp
@@ -639,7 +639,7 @@ cv::Mat handeyeBootstraptTranslationCalibration(
 
   std::vector<double> r1_he, r2_he, r3_he; // structure to save valid rot
   std::vector<double> t1_he, t2_he, t3_he; // structure to save valid trans
-  const unsigned int nb_clust_pick = 6;
+  const unsigned int nb_clust_pick = std::min(6u, num_clusters);
   unsigned int nb_success = 0;
   for (unsigned int iter = 0; iter < nb_it; iter++) {
     std::vector<cv::Mat> r_cam_group_1, t_cam_group_1, r_cam_group_2,
-- 
2.43.0


From fc50e9f05a9e5dda8b2bf91f9ca11156e433a9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:07 +0000
Subject: [PATCH 13/31] fix: use both cameras in the hand-eye fallback

---
 McCalib/src/geometrytools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/src/geometrytools.cpp b/McCalib/src/geometrytools.cpp
index 5fb4709..87a66dc 100644
--- a/McCalib/src/geometrytools.cpp
+++ b/McCalib/src/geometrytools.cpp
@@ -684,7 +684,7 @@ cv::Mat handeyeBootstraptTranslationCalibration(
     return pose_g1_g2;
   } else {
     LOG_INFO << "Run the normal handeye calibration on all the samples";
-    cv::Mat pose_g1_g2 = handeyeCalibration(pose_abs_1, pose_abs_1);
+    cv::Mat pose_g1_g2 = handeyeCalibration(pose_abs_1, pose_abs_2);
     return pose_g1_g2;
   }
 }
-- 
2.43.0


From f659a8160a3f9b3e7ed5293374a0ad5ffd795f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:07 +0000
Subject: [PATCH 14/31] fix: check the consistency of hand-eye solutions on
 pairs of distinct poses

---
 McCalib/src/geometrytools.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/McCalib/src/geometrytools.cpp b/McCalib/src/geometrytools.cpp
index 87a66dc..2020326 100644
--- a/McCalib/src/geometrytools.cpp
+++ b/McCalib/src/geometrytools.cpp
@@ -587,11 +587,12 @@ double checkSetConsistency(const std::vector<cv::Mat> &pose_abs_1,
     cv::Mat pose_cam_group_2_1 = pose_abs_2[selected_poses_idxs[i]];
     for (unsigned int j = 0; j < selected_poses_idxs.size(); j++) {
       if (i != j) {
-        cv::Mat pose_cam_group_1_2 = pose_abs_1[selected_poses_idxs[i]];
-        cv::Mat pose_cam_group_2_2 = pose_abs_2[selected_poses_idxs[i]];
-        cv::Mat PP1 = pose_cam_group_1_2.inv() * pose_cam_group_1_1;
-        cv::Mat PP2 = pose_cam_group_2_1.inv() * pose_cam_group_2_2;
-        cv::Mat ErrMat = PP2.inv() * pose_g1_g2 * PP1 * pose_g1_g2;
+        cv::Mat pose_cam_group_1_2 = pose_abs_1[selected_poses_idxs[j]];
+        cv::Mat pose_cam_group_2_2 = pose_abs_2[selected_poses_idxs[j]];
+        // AX = XB, with the displacements A and B of the two camera groups
+        cv::Mat PP1 = pose_cam_group_1_2 * pose_cam_group_1_1.inv();
+        cv::Mat PP2 = pose_cam_group_2_2 * pose_cam_group_2_1.inv();
+        cv::Mat ErrMat = PP1 * pose_g1_g2 * PP2.inv() * pose_g1_g2.inv();
         cv::Mat ErrRot, ErrTrans;
         Proj2RT(ErrMat, ErrRot, ErrTrans);
         cv::Mat ErrRotMat;
-- 
2.43.0


From 04215c6e32c2c6008c7c56774dc7b2bc368b7779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:29 +0000
Subject: [PATCH 15/31] fix: read the quaternion_averaging option

---
 McCalib/src/McCalib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index 60dc046..860c40e 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -54,7 +54,7 @@ Calibration::Calibration(const std::filesystem::path &config_path) {
   fs["number_y_square"] >> nb_y_square;
   root_path_ = convertStrToPath(fs["root_path"]);
   fs["cam_prefix"] >> cam_prefix_;
-  fs["quaternion_averaging:"] >> quaternion_averaging_;
+  fs["quaternion_averaging"] >> quaternion_averaging_;
   fs["ransac_threshold"] >> ransac_thresh_;
   fs["number_iterations"] >> nb_iterations_;
   fs["distortion_model"] >> distortion_model;
-- 
2.43.0


From fa5d7e05dbc4086b45a3a54b39e311c9a8872bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:29 +0000
Subject: [PATCH 16/31] fix: resolve every per-board list of the configuration
 independently

---
 McCalib/src/Board.cpp                         | 20 +++++++++----------
 McCalib/src/McCalib.cpp                       |  2 ++
 .../src/create_charuco_boards.cpp             | 16 +++++++--------
 3 files changed, 20 insertions(+), 18 deletions(-)

diff --git a/McCalib/src/Board.cpp b/McCalib/src/Board.cpp
index ab8e854..31e2728 100644
--- a/McCalib/src/Board.cpp
+++ b/McCalib/src/Board.cpp
@@ -45,19 +45,19 @@ Board::Board(const std::filesystem::path &config_path, const int board_idx,
     std::iota(boards_index.begin(), boards_index.end(), 0);
   }
 
-  if (square_size_per_board.size() == 0) {
-    fs["number_x_square"] >> nb_x_square_;
-    fs["number_y_square"] >> nb_y_square_;
-    fs["length_square"] >> length_square_;
-    fs["length_marker"] >> length_marker_;
-    fs["resolution_x"] >> res_x_;
-    fs["resolution_y"] >> res_y_;
-    fs["square_size"] >> square_size_;
-  } else {
+  fs["number_x_square"] >> nb_x_square_;
+  fs["number_y_square"] >> nb_y_square_;
+  fs["length_square"] >> length_square_;
+  fs["length_marker"] >> length_marker_;
+  fs["resolution_x"] >> res_x_;
+  fs["resolution_y"] >> res_y_;
+  fs["square_size"] >> square_size_;
+  if (number_x_square_per_board.size() != 0)
     nb_x_square_ = number_x_square_per_board[boards_index[board_idx]];
+  if (number_y_square_per_board.size() != 0)
     nb_y_square_ = number_y_square_per_board[boards_index[board_idx]];
+  if (square_size_per_board.size() != 0)
     square_size_ = square_size_per_board[boards_index[board_idx]];
-  }
 
   fs.release(); // close the input file
 
diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index 860c40e..e2b5422 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -88,6 +88,8 @@ Calibration::Calibration(const std::filesystem::path &config_path) {
   }
   if (number_x_square_per_board_.size() == 0) {
     number_x_square_per_board_.assign(max_board_idx + 1, nb_x_square);
+  }
+  if (number_y_square_per_board_.size() == 0) {
     number_y_square_per_board_.assign(max_board_idx + 1, nb_y_square);
   }
 
diff --git a/apps/create_charuco_boards/src/create_charuco_boards.cpp b/apps/create_charuco_boards/src/create_charuco_boards.cpp
index b0fabec..142b099 100644
--- a/apps/create_charuco_boards/src/create_charuco_boards.cpp
+++ b/apps/create_charuco_boards/src/create_charuco_boards.cpp
@@ -71,14 +71,14 @@ int main(int argc, char *argv[]) {
   fs.release(); // close the input file
 
   // Check if multi-size boards are used or not
-  if (square_size_per_board.size() == 0) {
-    for (std::size_t i = 0; i < num_board; i++) {
-      number_x_square_per_board.push_back(num_x_square);
-      number_y_square_per_board.push_back(num_y_square);
-      resolution_x_per_board.push_back(res_x);
-      resolution_y_per_board.push_back(res_y);
-    }
-  }
+  if (number_x_square_per_board.size() == 0)
+    number_x_square_per_board.assign(num_board, num_x_square);
+  if (number_y_square_per_board.size() == 0)
+    number_y_square_per_board.assign(num_board, num_y_square);
+  if (resolution_x_per_board.size() == 0)
+    resolution_x_per_board.assign(num_board, res_x);
+  if (resolution_y_per_board.size() == 0)
+    resolution_y_per_board.assign(num_board, res_y);
 
   const std::vector<cv::Mat> charuco_boards_images =
       McCalib::createCharucoBoardsImages(
-- 
2.43.0


From 2120d127c98fb6cd0fdd469ae0eb020c1aed9814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:29 +0000
Subject: [PATCH 17/31] fix: initialise the number of kernel elements of the
 corner refinement

---
 McCalib/include/point_refinement.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/include/point_refinement.h b/McCalib/include/point_refinement.h
index d932aae..6985cfb 100644
--- a/McCalib/include/point_refinement.h
+++ b/McCalib/include/point_refinement.h
@@ -205,7 +205,7 @@ void saddleSubpixelRefinement(const cv::Mat &input,
 
   cv::Mat smoothingKernel;
   cv::Mat mask;
-  int nnz;
+  int nnz = 0;
   initConeSmoothingKernel(window_half_size, smoothingKernel, mask, nnz);
 
   cv::Mat invAtAAt;
-- 
2.43.0


From 0abc87006cf238304c5c8c45083c3282e3462a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:29 +0000
Subject: [PATCH 18/31] fix: save the object poses with respect to the
 reference camera

---
 McCalib/src/McCalib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index e2b5422..4e618f9 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -467,7 +467,7 @@ void Calibration::save3DObjPose() {
       std::shared_ptr<Object3DObs> cur_object_obs = it_obj_obs.second.lock();
       if (cur_object_obs) {
         cv::Mat rot, trans;
-        cur_object_obs->getPoseVec(rot, trans);
+        cur_object_obs->getPoseInGroupVec(rot, trans);
         pose_mat.at<double>(0, a) = rot.at<double>(0);
         pose_mat.at<double>(1, a) = rot.at<double>(1);
         pose_mat.at<double>(2, a) = rot.at<double>(2);
-- 
2.43.0


From 2f3ff8f45b8de178f8606144493ff329b70fc74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:29 +0000
Subject: [PATCH 19/31] fix: report a missing configuration path instead of
 crashing

---
 apps/calibrate/src/calibrate.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/apps/calibrate/src/calibrate.cpp b/apps/calibrate/src/calibrate.cpp
index 3834662..80ce794 100644
--- a/apps/calibrate/src/calibrate.cpp
+++ b/apps/calibrate/src/calibrate.cpp
@@ -85,7 +85,10 @@ void runCalibrationWorkflow(const std::filesystem::path &config_path) {
 }
 
 int main(int argc, char *argv[]) {
-  (void)argc; // casting to fix -Werror=unused-parameter
+  if (argc < 2) {
+    LOG_FATAL << "You need to provide the path to the configuration file";
+    return -1;
+  }
   const std::filesystem::path config_path = argv[1];
   const bool is_file_available = std::filesystem::exists(config_path) &&
                                  config_path.has_filename() &&
-- 
2.43.0


From 96d7c848c67134c02856249ca3046fb17f442f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:29 +0000
Subject: [PATCH 20/31] fix: take the image size of a camera from its first
 readable image

---
 McCalib/src/McCalib.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index 4e618f9..af5b19e 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -241,7 +241,9 @@ void Calibration::detectBoardsWithCamera(const std::vector<cv::String> &fn,
 
   std::size_t num_frames = fn.size();
   if (num_frames > 0u) {
-    cv::Mat image = cv::imread(fn[0]);
+    cv::Mat image;
+    for (std::size_t i = 0u; i < num_frames && image.empty(); ++i)
+      image = cv::imread(fn[i]);
     if (image.empty()) {
       LOG_ERROR << "Could not read the image :: " << fn[0];
       assert((!image.empty()) && "Calibration cannot be done");
-- 
2.43.0


From 39ee72dc965c45bf128a0f11fe4b34c636acc09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:29 +0000
Subject: [PATCH 21/31] fix: keep refining the corners that follow a diverged
 one

---
 McCalib/src/McCalib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index af5b19e..3bbb75b 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -332,7 +332,7 @@ void Calibration::detectBoardsInImageWithCamera(const std::string &frame_path,
                                  corner_ref_window_, corner_ref_max_iter_);
         for (std::size_t j = 0; j < charuco_corners[i].size(); j++) {
           if (std::isinf(refined[j].x) || std::isinf(refined[j].y)) {
-            break;
+            continue;
           }
           charuco_corners[i][j].x = refined[j].x;
           charuco_corners[i][j].y = refined[j].y;
-- 
2.43.0


From 06c894f2798e7450b32e16e38cccbc9d85173e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:29 +0000
Subject: [PATCH 22/31] fix: set the shared detector parameters before starting
 the detection threads

---
 McCalib/src/McCalib.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index 3bbb75b..90b5adc 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -239,6 +239,13 @@ void Calibration::detectBoardsWithCamera(const std::vector<cv::String> &fn,
   boost::asio::thread_pool pool(num_threads);
   LOG_INFO << "Number of threads for board detection :: " << num_threads;
 
+#if (defined(CV_VERSION_MAJOR) && CV_VERSION_MAJOR <= 4 &&                     \
+     defined(CV_VERSION_MINOR) && CV_VERSION_MINOR < 7)
+  charuco_params_->adaptiveThreshConstant = 1;
+#else
+  charuco_params_.adaptiveThreshConstant = 1;
+#endif
+
   std::size_t num_frames = fn.size();
   if (num_frames > 0u) {
     cv::Mat image;
@@ -294,13 +301,6 @@ void Calibration::detectBoardsInImageWithCamera(const std::string &frame_path,
   // key == board id, value == ID corners on checkerboard
   std::map<int, std::vector<int>> charuco_idx;
 
-#if (defined(CV_VERSION_MAJOR) && CV_VERSION_MAJOR <= 4 &&                     \
-     defined(CV_VERSION_MINOR) && CV_VERSION_MINOR < 7)
-  charuco_params_->adaptiveThreshConstant = 1;
-#else
-  charuco_params_.adaptiveThreshConstant = 1;
-#endif
-
   for (std::size_t i = 0; i < nb_board_; i++) {
 
 #if (defined(CV_VERSION_MAJOR) && CV_VERSION_MAJOR <= 4 &&                     \
-- 
2.43.0


From 91478a918ea2c9cc5fed4bdb4af164928e188d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:26 +0000
Subject: [PATCH 23/31] fix: return no path between disconnected vertices
 instead of looping forever

---
 McCalib/src/Graph.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/McCalib/src/Graph.cpp b/McCalib/src/Graph.cpp
index ea858fa..95bc5ac 100755
--- a/McCalib/src/Graph.cpp
+++ b/McCalib/src/Graph.cpp
@@ -140,6 +140,8 @@ std::vector<int> Graph::getPath(const std::vector<Vertex> &p_map,
   std::vector<int> path;
   Vertex current = destination;
   while (current != source) {
+    if (p_map[current] == current) // not reachable from the source
+      return {};
     path.push_back(std::stoi(boost::get(boost::vertex_name, graph_, current)));
     current = p_map[current];
   }
-- 
2.43.0


From d6681fe388d4685773b84b22896f6ebb52e9b504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:26 +0000
Subject: [PATCH 24/31] fix: create a single vertex for a self loop

---
 McCalib/src/Graph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/src/Graph.cpp b/McCalib/src/Graph.cpp
index 95bc5ac..53ef0fe 100755
--- a/McCalib/src/Graph.cpp
+++ b/McCalib/src/Graph.cpp
@@ -19,10 +19,10 @@ void Graph::addEdge(const int v1, const int v2, const double weight) {
   Vertex vertex1 = (idx_to_vertex_.find(v1) != idx_to_vertex_.end())
                        ? idx_to_vertex_[v1]
                        : boost::add_vertex(std::to_string(v1), graph_);
+  idx_to_vertex_[v1] = vertex1;
   Vertex vertex2 = (idx_to_vertex_.find(v2) != idx_to_vertex_.end())
                        ? idx_to_vertex_[v2]
                        : boost::add_vertex(std::to_string(v2), graph_);
-  idx_to_vertex_[v1] = vertex1;
   idx_to_vertex_[v2] = vertex2;
 
   boost::add_edge(vertex1, vertex2, EdgeWeightProperty(weight), graph_);
-- 
2.43.0


From eac08d1453160ab7862b63145f3307fa52d9b2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:08 +0000
Subject: [PATCH 25/31] fix: do not average non finite hand-eye solutions

---
 McCalib/src/geometrytools.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/McCalib/src/geometrytools.cpp b/McCalib/src/geometrytools.cpp
index 2020326..5f90c40 100644
--- a/McCalib/src/geometrytools.cpp
+++ b/McCalib/src/geometrytools.cpp
@@ -660,7 +660,8 @@ cv::Mat handeyeBootstraptTranslationCalibration(
 
     double max_rotational_error = checkSetConsistency(
         pose_abs_1, pose_abs_2, selected_poses_idxs, pose_g1_g2);
-    if (max_rotational_error < 15) {
+    // the solver is singular for opposite orientations of the two groups
+    if (cv::checkRange(pose_g1_g2) && max_rotational_error < 15) {
       nb_success++;
       // if it is a sucess then add to our valid pose vector
       cv::Mat rot_temp, trans_temp;
-- 
2.43.0


From 695804b5e161817650e21d47f68d71cf0493426c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:37 +0000
Subject: [PATCH 26/31] fix: create a save directory given with a trailing
 slash

---
 McCalib/src/McCalib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index 90b5adc..c517f10 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -99,7 +99,7 @@ Calibration::Calibration(const std::filesystem::path &config_path) {
            << "   Distortion mode : " << distortion_model;
 
   // check if the save dir exist and create it if it does not
-  if (!std::filesystem::exists(save_path_) && save_path_.has_filename()) {
+  if (!std::filesystem::exists(save_path_) && !save_path_.empty()) {
     std::filesystem::create_directories(save_path_);
   }
 
-- 
2.43.0


From 1257a384fdc2d8f5fee1b114e5dc5231ee0afe56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:11 +0000
Subject: [PATCH 27/31] Revert "fix: report one entry per camera when it sees
 several objects in a frame"

No input of the program reaches that situation: boards seen in one image
always belong to the same object.
---
 McCalib/src/McCalib.cpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index c517f10..f80eac7 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -2269,7 +2269,6 @@ void Calibration::saveReprojectionErrorToFile() {
       std::shared_ptr<Frame> it_frame_ptr = it_frame.second.lock();
       if (it_frame_ptr) {
         cv::Mat camera_list;
-        std::map<int, cv::Mat> camera_errors; // errors of all seen objects
         fs << "frame_" + std::to_string(it_frame_ptr->frame_idx_);
         fs << "{";
         frame_list.push_back(it_frame_ptr->frame_idx_);
@@ -2299,12 +2298,18 @@ void Calibration::saveReprojectionErrorToFile() {
                 const std::vector<int> &obj_pts_idx = it_obj3d_ptr->pts_id_;
                 const std::vector<cv::Point2f> &obj_pts_2d =
                     it_obj3d_ptr->pts_2d_;
+                camera_list.push_back(current_cam_id);
+                fs << "camera_" + std::to_string(current_cam_id);
+                fs << "{";
 
                 // compute the reprojection error
                 std::vector<cv::Point3f> object_pts;
                 for (const auto &obj_pt_idx : obj_pts_idx)
                   object_pts.push_back(obj_pts_3d[obj_pt_idx]);
 
+                int nb_pts = obj_pts_idx.size();
+                fs << "nb_pts" << nb_pts;
+
                 // apply object pose transform
                 std::vector<cv::Point3f> object_pts_trans1 =
                     transform3DPts(object_pts,
@@ -2325,18 +2330,11 @@ void Calibration::saveReprojectionErrorToFile() {
 
                 cv::Mat error_list =
                     computeDistanceBetweenPoints(obj_pts_2d, repro_pts);
-                camera_errors[current_cam_id].push_back(error_list);
+                fs << "error_list" << error_list << "}";
               }
             }
           }
         }
-        for (const auto &it_errors : camera_errors) {
-          camera_list.push_back(it_errors.first);
-          fs << "camera_" + std::to_string(it_errors.first);
-          fs << "{";
-          fs << "nb_pts" << it_errors.second.rows;
-          fs << "error_list" << it_errors.second << "}";
-        }
         fs << "camera_list" << camera_list << "}";
       }
     }
-- 
2.43.0


From 4743150831b36363f8720311b470691f7e266caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:47 +0000
Subject: [PATCH 28/31] fix: calibrate the other cameras when one without known
 intrinsics saw no board

---
 McCalib/src/Camera.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/McCalib/src/Camera.cpp b/McCalib/src/Camera.cpp
index 79305a4..86bd4e6 100644
--- a/McCalib/src/Camera.cpp
+++ b/McCalib/src/Camera.cpp
@@ -165,6 +165,12 @@ void Camera::initializeCalibration() {
   LOG_INFO << "NB of frames where this camera saw a board :: "
            << frames_.size();
 
+  // Nothing can be estimated for a camera that never saw a board
+  if (board_observations_.empty()) {
+    LOG_WARNING << "Camera " << cam_idx_ << " has no board observation";
+    return;
+  }
+
   // Subsample the total number of images (because the OpenCV function is
   // significantly too slow...)
   std::vector<int> indbv(board_observations_.size());
-- 
2.43.0


From 135057996c5fc659d0cd359c4ca87e52901d0d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:49 +0000
Subject: [PATCH 29/31] fix: initialise the unused intrinsic of fisheye cameras

The ninth intrinsic of a Kannala camera was never set but belongs to the
parameter block given to Ceres. Depending on what the memory held, the
refinement of the intrinsics stopped early or was refused.
---
 McCalib/include/Camera.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/include/Camera.hpp b/McCalib/include/Camera.hpp
index dba3284..73eaf36 100644
--- a/McCalib/include/Camera.hpp
+++ b/McCalib/include/Camera.hpp
@@ -43,7 +43,7 @@ public:
   // intrinsics
   // fx,fy,u0,v0,r1,r2,t1,t2,r3 (perspective)
   // fx,fy,u0,v0,k1,k2,k3,k4 (Kannala)
-  std::array<double, 9> intrinsics_;
+  std::array<double, 9> intrinsics_{};
 
   int cam_idx_ = 0; // camera index
   int distortion_model_ = 0;
-- 
2.43.0


From 5dd3bd7df29d6f3f3cfd2fdb39b8fe0bf49efdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:40 +0000
Subject: [PATCH 30/31] fix: count a pair of objects once per frame when
 choosing how to tie camera groups

The pair was counted once per pair of camera views, so that a pair seen by
several cameras in three frames or less won over a pair seen in enough frames,
and the groups were not tied at all.
---
 McCalib/src/McCalib.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index f80eac7..6b1cb13 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -3,6 +3,7 @@
 #include <opencv2/aruco/charuco.hpp>
 #include <opencv2/opencv.hpp>
 #include <random>
+#include <set>
 #include <stdio.h>
 
 #include "McCalib.hpp"
@@ -1300,6 +1301,8 @@ void Calibration::findPairObjectForNonOverlap() {
                 common_frames_cam_group1_obs_ptr->object_observations_;
             std::map<int, std::weak_ptr<Object3DObs>> object_obs_2 =
                 common_frames_cam_group2_obs_ptr->object_observations_;
+            // count a pair once per frame, whichever cameras see it
+            std::set<std::pair<int, int>> visible_pairs;
             for (const auto &it_object_obs_1 : object_obs_1) {
               auto object_obs_1_ptr = it_object_obs_1.second.lock();
               if (object_obs_1_ptr) {
@@ -1308,11 +1311,13 @@ void Calibration::findPairObjectForNonOverlap() {
                   auto object_obs_2_ptr = it_object_obs_2.second.lock();
                   if (object_obs_2_ptr) {
                     int obj_ind_2 = object_obs_2_ptr->object_3d_id_;
-                    count_pair_obs[std::make_pair(obj_ind_1, obj_ind_2)]++;
+                    visible_pairs.insert(std::make_pair(obj_ind_1, obj_ind_2));
                   }
                 }
               }
             }
+            for (const auto &pair : visible_pairs)
+              count_pair_obs[pair]++;
           }
         }
 
-- 
2.43.0


From ecb0ae7c4dc9610e055abb640b010f6118d4cda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:10 +0000
Subject: [PATCH 31/31] fix: do not add empty objects when no usable object
 exists

---
 McCalib/src/McCalib.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index 6b1cb13..1e50a2b 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -1359,10 +1359,6 @@ void Calibration::initNonOverlapPair(const int cam_group_id1,
   int object_cam_1 = object_pair.first;
   int object_cam_2 = object_pair.second;
 
-  // Prepare the 3D objects
-  std::shared_ptr<Object3D> object_3D_1 = object_3d_[object_cam_1];
-  std::shared_ptr<Object3D> object_3D_2 = object_3d_[object_cam_2];
-
   // std::vector to store data for non-overlapping calibration
   std::vector<cv::Mat> pose_abs_1,
       pose_abs_2; // absolute pose stored to compute relative displacements
-- 
2.43.0

