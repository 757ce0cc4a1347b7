"""Single source of the property texts; mc/gen.py derives properties.jsonl and
MANIFEST.json from it."""
F = "McCalib/src/"
H = "McCalib/include/"
TESTS = ("The repository's tests exercise Graph on a handful of fixed graphs and a few "
         "geometry helpers on one value each; ")
ASSUME_BB = ["observations are synthetic, noise free and of bounded size",
             "random sampling of the code under test draws from a fixed, case specific stream "
             "(std::random_device is replaced by a deterministic stand-in)",
             "OpenCV, Ceres and Boost are trusted"]
PROPS = []


def P(id, title, statement, over, text, tests, files, mech, observe, technique, note, quick,
      thorough="", state=None, assume=None, hook=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text,
                      tests=tests, files=files, mech=mech, observe=observe,
                      technique=technique, note=note, quick=quick,
                      thorough=thorough or quick, state=state,
                      assume=assume if assume is not None else ASSUME_BB, hook=hook))


P("C01", "Camera poses are exact for every co-visibility topology of the cameras",
  "For error-free observations with known intrinsics, the written camera file declares every "
  "camera, cameras that are linked directly or through other cameras by commonly seen boards, or "
  "by boards of an object that are linked by images, end up in the same group, and each camera's written pose equals its true pose "
  "relative to the reference camera of its group. This holds for every way the cameras overlap "
  "(any chain, tree, cycle or set of separate components, any number of frames per overlap, "
  "any order of the frames), for perspective and fisheye cameras, and whatever the number of "
  "refinement iterations.",
  ["inputs", "configurations"],
  "every co-visibility graph over up to 4 cameras (5: all trees; thorough: all graphs), named "
  "topologies up to 13 cameras, three board layouts, camera models, frame orders and weights",
  TESTS + "none runs a calibration, so no topology is covered.",
  [F + "McCalib.cpp", F + "CameraGroup.cpp", F + "CameraGroupObs.cpp", F + "Graph.cpp",
   F + "OptimizationCeres.cpp", "apps/calibrate/src/calibrate.cpp"],
  [("pairwise camera poses and inter-camera graph", F + "McCalib.cpp computeCamerasPairPose, "
    "initInterTransform, initInterCamerasGraph, initCameraGroup"),
   ("pose composition along shortest paths", F + "McCalib.cpp initCameraGroup"),
   ("bundle adjustment", F + "CameraGroup.cpp refineCameraGroupAndObjects")],
  ["calibrated_cameras_data.yml"],
  "exhaustive enumeration of co-visibility graphs, each executed on the real application",
  "Exhaustive within the stated bound: every enumerated topology is run through the complete "
  "calibrate application (files in, files out) and compared with the ground truth of a "
  "synthetic world.",
  "all graphs on 1-4 cameras x 3 board layouts x 3 camera-model mixes x 2 weights x 2 frame "
  "orders x 2 refinement budgets (partially crossed), all 125 trees on 5 cameras, 7 named "
  "topologies on 6,10,11,12,13 cameras",
  "as quick fully crossed, all 1024 graphs on 5 cameras x 3 board layouts")

P("C02", "Boards are fused into 3D objects exactly, for every board co-visibility",
  "Boards that are seen together in an image, or simultaneously by different cameras whose "
  "relative pose is known, directly or through other boards, are reported as one 3D object and "
  "boards with no such link are not. For error-free observations every 3D point of an object "
  "carries its board and corner identifier and its true position in the frame of the object's "
  "reference board, whatever the topology, order and number of the joint views.",
  ["inputs", "configurations"],
  "every board co-visibility graph over up to 4 boards (5: all trees; thorough: all graphs), "
  "named topologies up to 13 boards, links within one camera, across cameras or mixed",
  TESTS + "no board or object is ever built.",
  [F + "McCalib.cpp", F + "Object3D.cpp", F + "Object3DObs.cpp", F + "Board.cpp",
   F + "CameraGroupObs.cpp", F + "Graph.cpp"],
  [("pairwise board poses, board graph and object creation", F + "McCalib.cpp "
    "computeBoardsPairPose, initInterBoardsGraph, init3DObjects"),
   ("merging of objects seen across cameras", F + "McCalib.cpp merge3DObjects, mergeObjects")],
  ["calibrated_objects_data.yml"],
  "exhaustive enumeration of board co-visibility graphs, each executed on the real application",
  "Exhaustive within the stated bound on the real application against ground truth.",
  "all graphs on 1-4 boards x 3 link modes x weights x orders x camera models x refinement "
  "budgets (partially crossed), all trees on 5 boards, 6 named topologies on 6-13 boards",
  "as quick fully crossed, all 1024 graphs on 5 boards")

P("C03", "Grouping, poses and accounting are right for every visibility pattern",
  "Whichever boards are visible to whichever cameras in whichever frames, the calibration "
  "terminates normally, partitions the cameras into groups and the boards into objects exactly "
  "as the visibility links dictate, and every pose and point it writes is true for error-free "
  "data. Every observed corner is accounted for exactly once in the reprojection report, under "
  "the camera and frame where it was seen, and no image without observation is reported.",
  ["inputs", "histories"],
  "every subset of camera x frame x board visibility cells for the listed grid sizes, "
  "including empty cameras, boards and frames",
  TESTS + "no visibility pattern is run at all.",
  [F + "McCalib.cpp", F + "Camera.cpp", F + "CameraGroup.cpp", F + "Frame.cpp",
   F + "CameraObs.cpp", F + "Object3D.cpp"],
  [("registries linking frames, cameras, boards and objects", F + "McCalib.cpp insertNewBoard, "
    "insertNewObject3DObservation"),
   ("group and object merging", F + "McCalib.cpp mergeCameraGroup, merge3DObjects, "
    "mergeAllCameraGroupObs")],
  ["calibrated_cameras_data.yml", "calibrated_objects_data.yml",
   "calibrated_objects_pose_data.yml", "reprojection_error_data.yml"],
  "exhaustive enumeration of visibility matrices against a reference model",
  "Every visibility matrix of the listed sizes is executed on the real application; the "
  "partition comes from an independent reference model of the linking rules, the numbers from "
  "ground truth.",
  "all visibility matrices of (cameras,frames,boards) up to (2,2,2), (2,3,2), (3,2,2), (2,2,3), "
  "(3,4,1); large scenes (270 frames, boards of 340 corners, 4 boards in 30 frames, 14 cameras) with "
  "views at every period 1-12",
  "additionally (2,4,2), (2,5,1), (4,4,1), (3,5,1), (4,2,2); large scenes with periods 1-40",
  state=[dict(name="visibility matrix", meaning="which camera sees which board in which frame",
              where="keypoints file")])

P("C04", "Registries stay consistent for every order of registering observations",
  "Whatever order observations are registered or loaded in, every observation can be reached "
  "exactly once and with its own data from its camera, its frame, its board and its "
  "camera-at-frame view, and nothing refers to an observation that does not exist. The "
  "calibration result does not depend on the order of the entries in a keypoints file.",
  ["histories", "inputs"],
  "every subset and every registration order of a small universe of (camera, frame, board) "
  "observations; every order of the entries of a keypoints file within the bound",
  TESTS + "no observation is ever registered.",
  [F + "McCalib.cpp", F + "Camera.cpp", F + "Frame.cpp", F + "Board.cpp", F + "CameraObs.cpp",
   F + "BoardObs.cpp"],
  [("insertion of an observation in all registries", F + "McCalib.cpp insertNewBoard"),
   ("loading of precomputed keypoints", F + "McCalib.cpp boardExtraction/detectBoards")],
  ["public registries of the calibration object", "calibrated_cameras_data.yml"],
  "exhaustive enumeration of operation sequences on the real registries",
  "All insertion sequences within the bound executed on the real object and compared with a "
  "list of what was inserted.",
  "all ordered subsets of up to 5 of 8 observations (plus longer rotations), all subsets loaded "
  "from file in several orders, 120 entry permutations through the whole calibration",
  "longer sequences, all rotations")

P("C05", "The co-visibility graph: components and minimum-weight paths are always right",
  "For every history of adding vertices and weighted edges, the connected components reported "
  "are exactly those of the graph built, and the path between any two connected vertices is a "
  "real path of minimum total weight. A query always terminates, reports no path between "
  "unconnected vertices, and does not change the graph.",
  ["histories", "inputs"],
  "all operation histories up to a depth over small vertex sets, and all weighted graphs over "
  "3-5 vertices with non-integer weights below 1 (as the calibration uses)",
  "The existing tests use 18 fixed graphs with few distinct weights; they cannot cover every "
  "weight assignment, insertion order, parallel edge or vertex numbering.",
  [F + "Graph.cpp", H + "Graph.hpp"],
  [("vertex and edge insertion", F + "Graph.cpp addVertex, addEdge"),
   ("components and shortest paths", F + "Graph.cpp connectedComponents, "
    "shortestPathBetween")],
  ["return values of the graph queries"],
  "explicit exploration of all operation histories with a reference model",
  "Every history/graph within the bound is executed on the real class; oracle is an independent "
  "Floyd-Warshall model.",
  "operation histories over 3-4 vertices up to the stated depth; all graphs on 3 and 4 vertices "
  "with 4-5 weights x 3 vertex namings x 4 insertion modes; 5 vertices with 2 weights; "
  "structured graphs up to 30 vertices",
  "5 vertices with 3 weights, 6 vertices, up to 60 vertices", assume=[
      "weights are positive and finite; ties within 1e-9 are accepted either way"])

P("C06", "Board detection is independent of the scheduling of the worker threads",
  "However the operating system interleaves the threads that detect boards, and whatever the "
  "number of threads, the set of registered observations, their corner positions, the image "
  "paths and sizes are the same as in a sequential run. No interleaving has a data race, a "
  "deadlock or a lost or duplicated observation.",
  ["schedules"],
  "all interleavings at synchronisation, allocation and tree-insertion points up to a "
  "preemption bound for several camera/frame/board/thread configurations",
  "No existing test runs the detection, and a test would only see the schedules the operating "
  "system happens to produce.",
  [F + "McCalib.cpp", H + "McCalib.hpp", H + "point_refinement.h"],
  [("mutex guarding the registries during detection", F + "McCalib.cpp detectBoards, "
    "insertNewBoard"),
   ("thread pool and completion wait", F + "McCalib.cpp boardExtraction")],
  ["public registries of the calibration object after board extraction"],
  "stateless model checking: controlled scheduler, preemption-bounded search",
  "All schedules of the real detection code (real thread pool, real locks, interposed at link "
  "time) up to the preemption bound; ThreadSanitizer judges every explored schedule in a second "
  "build. Image decoding and marker detection are replaced by exact stand-ins.",
  "7 scenarios, 2-3 worker threads, 2-4 images, preemption bound 1-3",
  "higher bounds and more images", assume=[
      "scheduling points are mutex, condition, rwlock, thread create/join, operator new and "
      "std::map insertion; other unsynchronised accesses are covered by ThreadSanitizer only",
      "image decoding and marker detection are replaced by deterministic stand-ins"])

P("C07", "Saved keypoints reload to exactly the same observations",
  "Saving the detected keypoints and loading the saved file again yields exactly the same "
  "observations: camera, frame number, board, corner identifiers, pixel positions, image path "
  "and image size. This holds for every set of observations, including cameras without any, any "
  "path text, and repeated save/load cycles, and a calibration repeated from the saved file "
  "finds the same groups, objects and poses.",
  ["inputs", "histories"],
  "all visibility subsets of a small universe with assorted frame numbers, all pairs of a set "
  "of awkward paths, extreme pixel values, more than ten cameras/boards",
  TESTS + "no keypoints file is ever written or read.",
  [F + "McCalib.cpp"],
  [("keypoints writer", F + "McCalib.cpp saveDetectedKeypoints"),
   ("keypoints loader", F + "McCalib.cpp boardExtraction")],
  ["detected_keypoints_data.yml", "public registries after loading"],
  "exhaustive enumeration of observation sets through save/load cycles",
  "Every enumerated observation set goes through three generations of the real writer and "
  "loader and is compared bit for bit.",
  "2048 visibility subsets (3 cameras x 3 boards x frames), all pairs of awkward paths, "
  "36 large layouts, 63 calibrate-save-calibrate cycles",
  "16384 visibility subsets, 255 cycles")

P("C08", "The camera file is complete, well formed, in place and reusable",
  "After every successful calibration all result files lie in the configured directory, which is "
  "created when missing, and the camera file (under its configured or default name) declares the "
  "configured number of cameras and gives, for every observed camera and no other, a 3x3 matrix, "
  "the distortion coefficients and type of its own model, its image size, its group and a rigid "
  "4x4 pose. The groups are those of the reprojection report, and reading the file back as the "
  "initial intrinsics of another calibration reproduces them exactly.",
  ["inputs", "configurations"],
  "every set partition of up to 4 cameras into groups x every assignment of camera models, every "
  "set of observed cameras out of 5, rigs up to 14 cameras, every combination of directory and "
  "file name forms",
  TESTS + "no result file is ever written by a test.",
  [F + "McCalib.cpp", F + "Camera.cpp", F + "CameraGroup.cpp"],
  [("writing of the camera file", F + "McCalib.cpp saveCamerasParams"),
   ("creation of the save directory", F + "McCalib.cpp Calibration::Calibration"),
   ("initial intrinsics from a file", F + "McCalib.cpp initializeCalibrationAllCam"),
   ("intrinsics layout per model", F + "Camera.cpp setDistortionVector, getDistortionVectorVector")],
  ["calibrated_cameras_data.yml or the configured name", "listing of the save directory"],
  "exhaustive enumeration of group/model/name configurations on the real application",
  "Exhaustive within the stated bound on the complete application, against ground truth.",
  "15+5+2+1 set partitions x model masks x fixed/free intrinsics (4 cameras: one combination in "
  "four), 174 observed-camera sets, 30 rigs of 5-14 cameras, 10 directories x 6 names x "
  "absolute/relative x existing/missing",
  "as quick fully crossed, up to 6 and 24 cameras")

P("C09", "Written objects and object poses are complete and true",
  "The object file lists every corner of every observed board exactly once, and the pose file "
  "lists the same objects with exactly one pose for every image in which the object was seen. For "
  "error-free data each pose is the true pose of the object in the frame of the reference camera "
  "of the group that saw it, whichever cameras, frames and boards are involved, however few "
  "corners of a view are visible, and also after groups without common view have been tied.",
  ["inputs", "histories"],
  "every camera x frame x board visibility pattern of the listed grids, every subset of at least "
  "6 of 9 corners in one view, tied group pairs, up to 12 boards",
  TESTS + "no object pose is ever computed or written by a test.",
  [F + "McCalib.cpp", F + "CameraGroup.cpp", F + "CameraGroupObs.cpp", F + "Object3DObs.cpp",
   F + "Object3D.cpp"],
  [("object and pose files", F + "McCalib.cpp save3DObj, save3DObjPose"),
   ("pose of the object in the group", F + "CameraGroup.cpp computeObjPoseInCameraGroup; "
    + F + "CameraGroupObs.cpp updateObjObsPose"),
   ("merged object observations", F + "McCalib.cpp mergeAllObjectObs")],
  ["calibrated_objects_data.yml", "calibrated_objects_pose_data.yml"],
  "exhaustive enumeration of visibility patterns on the real application",
  "Exhaustive within the stated bound; the written poses are matched one to one with the true "
  "poses of the images.",
  "all patterns of 2x2x2, 1x3x3, 3x3x1 grids (larger grids subsampled with a fixed stride), every "
  "corner subset of a view that determines its pose, 80 tied pairs, 24 board rings",
  "all patterns of 2x3x2, 3x2x2, 2x2x3, 4x3x1 grids as well")

P("C10", "The reprojection report equals a recomputation from the other results",
  "Every error in the reprojection report equals the distance between an observed corner and the "
  "projection of the written object corner through the written object pose, camera pose, camera "
  "matrix and distortion. Camera groups, frame lists, camera lists and point counts agree with "
  "the observations and the camera file, and the average error returned is the mean over images "
  "of objects of their mean error, also for data that no parameters fit exactly.",
  ["inputs", "configurations"],
  "every visibility pattern of the listed grids x disturbance patterns x camera models, several "
  "camera groups with fixed and free intrinsics",
  TESTS + "no reprojection error is ever computed by a test.",
  [F + "McCalib.cpp", F + "CameraGroupObs.cpp", F + "Object3DObs.cpp", F + "geometrytools.cpp"],
  [("report", F + "McCalib.cpp saveReprojectionErrorToFile"),
   ("average", F + "McCalib.cpp computeAvgReprojectionError"),
   ("projection", F + "geometrytools.cpp projectPointsWithDistortion")],
  ["reprojection_error_data.yml", "average returned to the application"],
  "exhaustive enumeration of visibility and disturbance patterns with an independent recomputation",
  "Exhaustive within the stated bound; the recomputation uses its own projection code and only "
  "the written files.",
  "grids 2x2x2, 1x3x3, 3x3x1, 2x3x2 (strided) x 2 disturbances, 27 group layouts x 2 lengths x "
  "fixed/free intrinsics",
  "6 disturbance patterns, complete grids, both entry points for every pattern")

P("C11", "The written result minimises the robust reprojection error",
  "For observations that no parameters fit exactly, the written camera poses, object geometry, "
  "object poses and, when they are free, intrinsics form a minimum of the total robust "
  "reprojection error of each camera group whose objects are seen by no other group: no camera "
  "but the reference, no board but the reference, and no object pose can be moved to lower it. "
  "The boards stay rigid, the reference board stays at the origin, and the result stays near the "
  "truth in proportion to the disturbance when each camera sees every board in every frame.",
  ["inputs", "configurations"],
  "every visibility pattern of the listed grids x disturbance patterns x camera models, complete "
  "rigs of 1-3 cameras x 1-3 boards with three amplitudes and fixed or free intrinsics",
  TESTS + "no refinement is ever run by a test.",
  [F + "CameraGroup.cpp", F + "Object3D.cpp", F + "Camera.cpp", F + "CameraGroupObs.cpp",
   H + "OptimizationCeres.h", F + "McCalib.cpp"],
  [("bundle adjustment problems", F + "CameraGroup.cpp refineCameraGroupAndObjects, "
    "refineCameraGroupAndObjectsAndIntrinsics"),
   ("residuals", H + "OptimizationCeres.h"),
   ("propagation to objects and poses", F + "McCalib.cpp refineAllCameraGroupAndObjects, "
    "refineAllCameraGroupAndObjectsAndIntrinsic")],
  ["all result files"],
  "exhaustive enumeration of visibility and disturbance patterns with an independent optimality test",
  "On every enumerated case an independent damped Gauss-Newton step over all parameters, computed "
  "from the written files with separate projection code, must not lower the cost by more than "
  "one part in 10000.",
  "grids 2x2x2, 1x3x3, 3x3x1, 2x3x2 (strided) x 4 disturbance patterns, 162 complete rigs",
  "8 disturbance patterns, complete grids, 972 complete rigs")

P("C12", "Fixed intrinsics are untouched, free ones are recovered",
  "With fixed intrinsics the written camera matrix and distortion of every camera are exactly the "
  "given initial values, however wrong. With free intrinsics, a calibration of well observed "
  "error-free data recovers the true intrinsics and poses of every camera, whether started from "
  "wrong values or from nothing, for both camera models and any grouping of the cameras, also when "
  "other cameras never see a board. The "
  "reference camera of every group carries the identity pose.",
  ["inputs", "configurations"],
  "every set partition of up to 3 cameras x every assignment of 4 kinds of initial error to the "
  "cameras x models x fixed/free; from nothing: cameras x boards x number of views x models, and "
  "every set of cameras that see nothing",
  TESTS + "intrinsics are never estimated by a test.",
  [F + "Camera.cpp", F + "McCalib.cpp", F + "CameraGroup.cpp", H + "OptimizationCeres.h"],
  [("initial estimation", F + "Camera.cpp initializeCalibration"),
   ("refinement per camera", F + "Camera.cpp refineIntrinsicCalibration"),
   ("decision to refine", F + "McCalib.cpp initIntrinsic; apps/calibrate/src/calibrate.cpp")],
  ["calibrated_cameras_data.yml"],
  "exhaustive enumeration of groupings, initial errors and view counts on the real application",
  "Exhaustive within the stated bound on the complete application against ground truth; 0.05 px "
  "tolerance on intrinsics and on projected points.",
  "1+2+5 partitions x 4^n initial errors x 3 model mixes x fixed/free (3 cameras: one in four), "
  "7 view counts x 3 board counts x 3 model mixes x 3 camera counts and 22 sets of blind cameras x 3 "
  "model mixes from nothing; 15 sets of views that touch the border of the image x 1-2 boards x models",
  "fully crossed, 31 view counts")

P("C13", "Too small or degenerate board views never corrupt a calibration",
  "Board views with too few usable corners to determine a pose are left out: they create no "
  "link between cameras or boards, contribute no point to the report, and the result for "
  "everything else is as if they had never been observed. The calibration neither crashes nor "
  "reads invalid memory, wherever such views occur.",
  ["inputs", "fault_sequences"],
  "every placement of weak views (1 to 4 corners, several kinds) over all camera x frame x board "
  "cells of several grids",
  TESTS + "no weak observation is ever processed.",
  [F + "McCalib.cpp", F + "BoardObs.cpp", F + "Object3DObs.cpp", F + "geometrytools.cpp",
   F + "Frame.cpp", F + "Camera.cpp"],
  [("validity flag of board views", F + "BoardObs.cpp estimatePose"),
   ("minimum point counts", F + "geometrytools.cpp ransacP3PDistortion, ransacP3P")],
  ["all result files", "memory safety (AddressSanitizer/UBSan build)"],
  "exhaustive fault-placement enumeration on the real application",
  "Every placement within the bound is run on the real application, in an optimised and an "
  "AddressSanitizer/UBSan build, against the result of the reference model without the weak "
  "views.",
  "all placements over 2x2x2, 2x3x1, 1x3x2, 3x2x1 grids x 5 kinds, up to 3 placements over 2x2x3",
  "all placements over 2x2x3 as well")

P("C14", "Gross outliers never change the pose and are never counted as inliers",
  "Whichever minority of the corners of a board view are grossly wrong and however they are "
  "displaced, robust pose estimation returns exactly the correct corners as inliers and the "
  "true pose, for perspective and fisheye cameras. In a calibration with such outliers, camera "
  "poses, object geometry and groups are unaffected and the reprojection report counts exactly "
  "the correct corners.",
  ["inputs", "fault_sequences"],
  "every placement of up to 2-3 outliers over the corners of several boards, three displacement "
  "patterns, camera models, poses and thresholds; every placement of two outliers in every "
  "observation of a calibration",
  TESTS + "the robust estimators are not called by any test.",
  [F + "geometrytools.cpp", F + "BoardObs.cpp", F + "Object3DObs.cpp"],
  [("RANSAC pose estimation", F + "geometrytools.cpp ransacP3PDistortion, ransacP3P"),
   ("removal of outliers from the observation", F + "BoardObs.cpp estimatePose")],
  ["inlier list and pose returned", "all result files"],
  "exhaustive outlier-placement enumeration on the real code",
  "All placements within the bound with a deterministic random stream; three further streams "
  "must agree before a failure is reported.",
  "4x2, 3x3 (<=2 outliers), 4x3 (<=3), 5x4 (<=2) corner boards x 3 patterns x 2 models x 2 "
  "poses x 3 thresholds; 3-outlier placements in a 2x2x3 calibration",
  "4x3 with <=4 outliers, 6 poses, all pairs in the calibration")

P("C15", "Hand-eye calibration recovers the transform between separated groups",
  "Given the poses of one object in one camera group and of another object rigidly tied to it in a "
  "second camera group, both hand-eye methods return the true rigid transform between the groups "
  "for error-free poses. This holds for every relative rotation including none and half a turn, "
  "any number of common frames from four, any number of clusters, and frames in which the rig "
  "repeats its pose as long as enough distinct motions remain. The bootstrapped method also gives it "
  "when one or two of many frames carry a grossly wrong pose, and falls back to a fit over all frames "
  "when no subset of them is consistent.",
  ["inputs"],
  "a grid of rotations (7 axes x 9 angles up to and including half a turn) x translations x every "
  "subset of at least 4 of 6 motions, numbers of poses x numbers of clusters, repetition patterns, "
  "every placement of one or two wrong poses, every assignment of large errors to the frames",
  "Existing tests never call a hand-eye routine.",
  [F + "geometrytools.cpp"],
  [("bootstrapped and direct hand-eye calibration", F + "geometrytools.cpp "
    "handeyeBootstraptTranslationCalibration, handeyeCalibration"),
   ("consistency test and rotation averaging", F + "geometrytools.cpp checkSetConsistency, "
    "getAverageRotation")],
  ["returned 4x4 transform"],
  "exhaustive enumeration of rotation grids and motion subsets on the real code",
  "Exhaustive within the bound with deterministic random streams; two further streams must agree "
  "before a failure is reported. Rotations between the frames stay below 120 degrees, where "
  "OpenCV's solver is exact.",
  "189 transforms x 22 motion subsets (one in three), 27 pose counts x 6 cluster counts, all "
  "repetition patterns of up to 5 motions",
  "fully crossed; up to 54 poses; 7 motions")

P("C16", "Camera groups that share no view are tied exactly when enough frames allow",
  "Camera groups without common view end up in one group exactly when some pair of objects is "
  "seen by them simultaneously in more than three frames, directly or through other groups, and "
  "the poses of cameras and objects of the resulting group are then the true ones for error-free "
  "data. Groups with fewer common frames stay separate, and every observation remains reported "
  "once.",
  ["inputs", "histories", "configurations"],
  "numbers of common frames, sizes of the groups, chains and stars of up to 4 groups, every "
  "assignment of frames to group pairs within the bound, both hand-eye methods",
  "No existing test builds a camera group.",
  [F + "McCalib.cpp", F + "geometrytools.cpp", F + "CameraGroupObs.cpp", F + "Graph.cpp"],
  [("choice of object pairs and their transform", F + "McCalib.cpp findPairObjectForNonOverlap, "
    "initNonOverlapPair, findPoseNoOverlapAllCamGroup"),
   ("merging of groups and of their observations", F + "McCalib.cpp initInterCamGroupGraph, "
    "mergeCameraGroup, mergeAllCameraGroupObs")],
  ["calibrated_cameras_data.yml", "calibrated_objects_data.yml", "reprojection_error_data.yml"],
  "exhaustive enumeration of simultaneous-view patterns on the real application",
  "Exhaustive within the stated bound on the complete application against the reference model and "
  "ground truth.",
  "all 125 triples of common-frame counts from {0,1,3,4,5} x 4 group layouts x 2 methods (one of "
  "two refinement budgets), all 64 link graphs on 4 groups x 2 methods, the 210 link graphs with 4 "
  "edges on 5 groups, 256 object-pair count patterns (one method each), the "
  "cameras of each group that see in the common frames, two object pairs x cameras x frames",
  "fully crossed, all 1024 link graphs on 5 groups")

P("C20", "Board extraction registers exactly the acceptable detections of every image",
  "For every camera folder, image frames are numbered in sorted path order over all readable or "
  "unreadable files with a supported extension, and a board is registered for a frame exactly "
  "when enough of its corners are found (more than the configured share and at least five) and "
  "they are not all on one line. Unreadable images and foreign files never disturb the other "
  "images, and the image size is taken from a readable image of the same camera.",
  ["inputs", "fault_sequences", "configurations"],
  "every subset of detected corners of small boards, every subset of a set of folder entries, "
  "every pattern of unreadable images, every detection status of camera x frame x board cells",
  "No existing test reads an image folder or detects a board.",
  [F + "McCalib.cpp"],
  [("file listing and frame numbering", F + "McCalib.cpp boardExtraction"),
   ("acceptance of a detection", F + "McCalib.cpp detectBoardsInImageWithCamera")],
  ["public registries of the calibration object after board extraction"],
  "exhaustive enumeration of environment answers with exact stand-ins",
  "Every enumerated folder/detection/fault pattern is run through the real extraction code with "
  "image decoding and marker detection replaced by stand-ins; detections within rounding of the "
  "collinearity threshold are not judged.",
  "all corner subsets of four small boards x 7 shares, 4096 folder contents, 4096 unreadable "
  "image patterns (partially), 4096 detection-status matrices, 125 triples of board sizes x 4 shares x "
  "3 square sizes x 89 corner counts, camera counts up to 101",
  "complete products of the same", assume=[
      "cv::imread and aruco detection are replaced by deterministic stand-ins"])
P("C21", "Corner refinement is exact on saddles, silent elsewhere, never out of bounds",
  "Sub-pixel refinement started within a pixel of a corner returns its exact position on a saddle "
  "shaped surface and its position within a tenth of a pixel on a rendered chessboard corner, for "
  "every orientation, sub-pixel offset, contrast, skew and window size. Where there is no saddle "
  "or the window does not fit in the image it reports no position, it never reads outside the "
  "image, and the answer for a corner does not depend on the other corners.",
  ["inputs"],
  "grids of orientation, offset, contrast, window size and start position; every position over "
  "and around a small image; every list of up to 4 corners of 6 kinds",
  "No existing test refines a corner.",
  [H + "point_refinement.h", F + "McCalib.cpp"],
  [("saddle fitting", H + "point_refinement.h saddleSubpixelRefinement, initSaddleFitting"),
   ("sampling of the image", H + "point_refinement.h interpolatePatch")],
  ["refined positions returned"],
  "exhaustive enumeration of a grid of corners and start positions on the real code",
  "Exhaustive within the bound, in an optimised and an address/undefined-behaviour instrumented "
  "build.",
  "1920 saddle surfaces x 49 starts, 1728 rendered corners x 25 starts, 27x23 positions x 16 "
  "offsets x 4 windows x 2 depths, 1554 lists",
  "13824 surfaces, 18432 corners; as quick otherwise", assume=["OpenCV filtering is trusted"])
P("C17", "Every configuration means what the documentation says",
  "Whatever combination of the common and the per-board lists, of an ordered selection of boards "
  "and of per-camera models is given, each board in use has exactly the configured number of "
  "squares, square size, corner positions and marker identifiers, each camera has its configured "
  "lens model, and each option takes effect without changing another one. Both programs refuse a "
  "missing or unusable configuration path with an error status, without crashing and without "
  "writing a file.",
  ["configurations", "inputs"],
  "every ordered selection of boards x declared number x presence of each per-board list; every "
  "list of camera models; every pair of option values; every kind of bad command line",
  "No existing test reads a configuration.",
  [F + "McCalib.cpp", F + "Board.cpp", F + "Camera.cpp", F + "utilities.cpp",
   "apps/calibrate/src/calibrate.cpp",
   "apps/create_charuco_boards/src/create_charuco_boards.cpp"],
  [("reading of the configuration", F + "McCalib.cpp Calibration, " + F + "Board.cpp Board"),
   ("marker identifiers of each board", F + "utilities.cpp createCharucoBoards"),
   ("command lines", "apps/*/src/*.cpp main")],
  ["public members of the calibration object after construction",
   "exit status of the programs"],
  "exhaustive enumeration of configurations executed on the real code",
  "Exhaustive within the bound: each configuration file is read by the real constructor and the "
  "resulting object compared with a direct reading of the documented rules.",
  "5 declared numbers x all ordered selections of up to 3 of 5 (4 of 4) boards x 8 presence masks "
  "x 2 list lengths; all camera model lists for up to 5 cameras; all pairs of 36 option values; "
  "42 bad command lines",
  "all ordered selections of up to 5 of 5 boards, all lists for 6 cameras",
  assume=["OpenCV's YAML reader is trusted"])

P("C18", "Printed boards are recognised corner by corner, each as itself",
  "Every board image the generator prints has the requested size, and in any image showing some of "
  "the printed boards, at any roll, moderate tilt and scale, exactly the boards that are shown and "
  "in use are registered, each once, under its own position in the configured selection. Every "
  "inner corner of a shown board is found with its right identifier within a fraction of a pixel "
  "of its true position, with or without corner refinement, also under uneven, dim or coloured light "
  "and noise.",
  ["inputs", "configurations"],
  "every pair of 8 board shapes x 3 print resolutions x ways to declare them; a grid of roll, tilt, "
  "scale and refinement; every subset of three boards in each of two images x every ordered "
  "selection of boards in use; image sizes, kinds of light and file formats",
  "No existing test prints or detects a board.",
  [F + "utilities.cpp", F + "McCalib.cpp", F + "Board.cpp", H + "point_refinement.h",
   "apps/create_charuco_boards/src/create_charuco_boards.cpp"],
  [("board generation", F + "utilities.cpp createCharucoBoardsImages"),
   ("numbering of the markers", F + "utilities.cpp createCharucoBoards"),
   ("detection", F + "McCalib.cpp detectBoardsInImageWithCamera")],
  ["printed files", "registered board observations"],
  "exhaustive enumeration of board sets, poses and selections through the real generator and detector",
  "Exhaustive within the bound; the generator program writes the boards, images are rendered from "
  "its files with known homographies, the real extraction reads them back.",
  "256 print sets, 432 board poses, 448 image pairs, 5 image sizes x 10 kinds of light, colour and "
  "noise x rolls x refinement x file formats",
  "3888 x 2 board poses, 1024 x 2 image pairs", assume=[
      "the aruco module of OpenCV is trusted to find markers in clean images",
      "images are renderings with slight blur, some with uneven light, colour or mild noise"])
P("C19", "Pose algebra, averaging and projection agree with their definitions",
  "Every conversion between rotation vectors, matrices, quaternions and rigid poses, and every "
  "inversion and application of a pose, is exact up to rounding for all rotations including null, "
  "tiny and half-turn ones. The average of several pose estimates is their mean rotation in the "
  "configured sense and their median translation, for any list in any order; line fits, "
  "projections through both lens models and triangulations equal their definitions.",
  ["inputs"],
  "grid of 286 rotations (null to half turn) x translations; every list of poses, of numbers, of "
  "points of a grid and of views up to the bound",
  "The five existing geometry tests use one value each; half turns, repeated or antipodal "
  "rotations and short lists are not covered.",
  [F + "geometrytools.cpp", F + "McCalib.cpp"],
  [("conversions", F + "geometrytools.cpp RVecT2Proj ... convertQuaternionToRotationMatrix"),
   ("averages", F + "geometrytools.cpp getAverageRotation, median, " + F +
    "McCalib.cpp initInterTransform"),
   ("line fit, projection, triangulation", F + "geometrytools.cpp")],
  ["values returned by the functions"],
  "exhaustive enumeration of input grids and lists against independent reference models",
  "Exhaustive within the bound; each function is compared with an independently written "
  "definition.",
  "286 rotations x 4 translations; all lists of up to 7 of 4 numbers; all lists of up to 4 of 7 "
  "poses x 2 averages; all 2516 point sets; 1152 projections; 702 view sets",
  "lists of up to 8 numbers and 5 poses, all 65519 point sets", assume=[])
P("C24", "Saved images show every used corner and prediction, in the right file",
  "When detection or reprojection images are requested, exactly one image is written for each "
  "camera and frame with an observation and a readable source image, under the camera's folder and "
  "the frame's number, and none otherwise. Each shows a mark at every observed corner, in "
  "reprojection images also at every predicted corner of the written results, and no mark "
  "elsewhere; unreadable or missing source images never disturb the calibration or the other "
  "images.",
  ["inputs", "fault_sequences", "configurations"],
  "every visibility pattern of camera x frame x board cells for the listed sizes, every pattern of "
  "unreadable images x save options, sparse and large frame numbers, camera counts up to 13",
  "No existing test writes an image.",
  [F + "McCalib.cpp", F + "Frame.cpp", F + "CameraGroupObs.cpp", F + "Object3DObs.cpp",
   "apps/calibrate/src/calibrate.cpp"],
  [("reprojection images", F + "McCalib.cpp saveReprojectionImages"),
   ("detection images", F + "McCalib.cpp saveDetectionImages")],
  ["images handed to the image writer", "folders created"],
  "exhaustive enumeration of visibility and fault patterns executed on the real application",
  "Exhaustive within the bound; image reading and writing are replaced by recording stand-ins and "
  "every pixel of every written image is judged against the written results.",
  "256 + 64 + 64 + 64 patterns, 1365 of the 4095 patterns of 2x3x2, 256 fault/option patterns, 16 "
  "numberings",
  "all 4095 patterns of 2x3x2 and of 3x2x2 in addition",
  assume=ASSUME_BB + ["image decoding and encoding are replaced by stand-ins"])
P("C25", "Every refinement stage minimises over what it frees and touches nothing else",
  "Each refinement stage, started from any state near the solution, ends at a minimum of the "
  "Huber-robust (1 pixel) reprojection error of all its observations over exactly the parameters it "
  "frees: intrinsics and board views; boards and object views; cameras and object poses; these and "
  "boards; and everything with intrinsics. The reference camera of each group, the reference board "
  "of each object and every other parameter keep exactly their value. Object corners and the poses "
  "handed to the views follow what was refined.",
  ["inputs", "histories"],
  "every visibility pattern of small grids of cameras x frames x boards x refinement stages x states "
  "before and after merging x disturbed starts; rigs with each view missing for the stages that free "
  "intrinsics",
  TESTS + "no test runs an optimisation; which parameter a residual is wired to only shows in "
  "particular combinations of shared objects, boards and cameras.",
  [F + "Camera.cpp", F + "Object3D.cpp", F + "CameraGroup.cpp", F + "McCalib.cpp",
   H + "OptimizationCeres.h"],
  [("intrinsics and views", F + "Camera.cpp refineIntrinsicCalibration"),
   ("objects", F + "Object3D.cpp refineObject, updateObjectPts"),
   ("groups", F + "CameraGroup.cpp refineCameraGroup*"),
   ("residuals", H + "OptimizationCeres.h"),
   ("derived data", F + "CameraGroupObs.cpp updateObjObsPose")],
  ["Calibration::refineAll* (public interface)"],
  "exhaustive enumeration of visibility patterns and stages, each run on the real code from a "
  "disturbed state and checked against an independent model of the residuals",
  "Exhaustive within the stated bound; an own projection model and an own damped Gauss-Newton step "
  "decide optimality (relative slack 1e-4) on the in-memory parameters of the implementation.",
  "all patterns of grids 2x2x2, 3x2x1, 1x2x3, 2x3x1, 1x3x2 (cameras x frames x boards) and every "
  "seventh of 3x3x1 and 1x3x3, 5 stage/merge combinations, 2 starts; 135 + 270 rigs of 8 frames",
  "all patterns of all grids and 2x3x2, 6 starts; each view dropped in turn, 3 starts")

P("C26", "The result depends on the input alone",
  "For the same observations and configuration every run writes the same cameras, intrinsics, "
  "groups, objects, poses and accounting, up to numerical noise: neither what the memory of the "
  "process held before, nor where in memory things are placed, nor which random numbers are drawn shows in it. This holds with given fixed "
  "and with free intrinsics, for exact and for noisy observations, with views too small to be used among "
  "them, and for groups that share no view.",
  ["inputs", "environment"],
  "visibility patterns of small grids and well observed rigs x contents of fresh memory x orders of "
  "the addresses handed out x streams of random draws",
  TESTS + "a test runs once, in one process, on memory that happens to be clean.",
  [F + "Camera.cpp", H + "Camera.hpp", F + "McCalib.cpp", F + "geometrytools.cpp",
   F + "BoardObs.cpp", F + "Object3DObs.cpp"],
  [("random samples", F + "geometrytools.cpp ransacP3PDistortion, handeyeBootstratpTranslationCalibration"),
   ("state of a camera", H + "Camera.hpp"),
   ("views without a pose", F + "BoardObs.cpp, Object3DObs.cpp estimatePose")],
  ["all result files"],
  "exhaustive enumeration of scenes x memory contents x address orders x draw streams on the real application, "
  "comparing the complete results",
  "Exhaustive within the stated bound: the explorer owns the contents of every fresh heap block, the addresses of small ones and "
  "both random sources; results are compared corner by corner.",
  "3 models x (128 patterns of 2x2x2, all of 3x2x1, 1x2x3, and 2x2x1, 1x2x2 filled up with views of 2 or 3 "
  "corners), 72 rigs of 4 kinds; 5 memory contents, 3 address orders and 3 draw streams (7 combinations)",
  "all patterns, also of 3x3x1, 2x3x1 with weak views; 7 memory contents x 3 draw streams")

P("C27", "Units, frame numbers, numbering and strangers change nothing",
  "Expressing all square sizes in another unit multiplies every written translation and point by the "
  "factor and changes nothing else; giving the frames other numbers, the cameras or boards another "
  "order, or adding cameras and boards that are never seen changes only the numbers. Adding "
  "observations of other boards by other cameras in other frames leaves the result of the original "
  "ones as it was, for exact and noisy observations and for fixed and free intrinsics.",
  ["inputs", "configurations"],
  "visibility patterns of small grids and well observed rigs x renumberings, units and additions",
  TESTS + "a test uses one numbering, one unit and one scene.",
  [F + "McCalib.cpp", F + "CameraGroup.cpp", F + "CameraGroupObs.cpp", F + "Object3D.cpp",
   F + "OptimizationCeres.cpp", F + "geometrytools.cpp"],
  [("registration by number", F + "McCalib.cpp boardExtraction, insertNewBoard, insertNewObjectObservation"),
   ("grouping and fusion", F + "McCalib.cpp calibrate3DObjects, calibrateCameraGroup"),
   ("lengths", F + "geometrytools.cpp handeyeBootstratpTranslationCalibration, calibrateHandEye")],
  ["all result files"],
  "exhaustive enumeration of scenes x renumberings, units and additions on the real application, "
  "comparing the complete results with those of the original scene",
  "Exhaustive within the stated bound; a metamorphic oracle: the original run and its image under each "
  "change must agree corner by corner. Where an object is seen by two groups the order in which they "
  "are refined shows, so those are compared less tightly.",
  "3 models x (51 patterns of 2x2x2 exact, 37 noisy, 32 of 3x2x1 and 1x2x3), 72 rigs of 4 kinds; about 12 "
  "changes each",
  "all patterns, also of 3x3x1; 288 rigs; all permutations, 4 units")

P("C28", "Calibrations in one process do not disturb each other",
  "When several calibrations run in one process, in one thread or in a thread each, with their stages "
  "interleaved in any order, every one of them writes what it writes alone: the same groups, objects, "
  "poses and report in its own output directory. This also holds when one of them is finished and "
  "destroyed while others go on, and when they use different camera models, options and refinements.",
  ["schedules", "histories"],
  "all interleavings of the stages of two calibrations with up to three switches (five: a grid), turn by "
  "turn interleavings of up to four, every ordered pair of four different scenes",
  TESTS + "none runs two calibrations, nor one.",
  [F + "McCalib.cpp", F + "Camera.cpp", F + "CameraGroup.cpp", F + "Object3D.cpp",
   F + "geometrytools.cpp", H + "McCalib.hpp"],
  [("state of a calibration", H + "McCalib.hpp"),
   ("stages", "apps/calibrate/src/calibrate.cpp runCalibrationWorkflow"),
   ("numbering of groups and objects", F + "McCalib.cpp initCameraGroup, init3DObjects")],
  ["all result files of each calibration"],
  "exhaustive enumeration of stage interleavings with a bound on the switches, on the real library",
  "Exhaustive within the stated bound: the explorer decides which calibration executes its next stage; "
  "ground truth and the reference model decide.",
  "16 ordered pairs of scenes x 147 schedules with three switches and 75 with five; turns of 1-3 stages "
  "of 2-4 calibrations in every order",
  "16 x 441 schedules with three switches, all start points of five switches; turns of 1-7 stages")

P("C29", "What was stored is what is read back, each under its own key",
  "Poses of views, boards in objects, cameras in groups and objects in group views, and the intrinsics "
  "of cameras, read back in every form (vectors or matrix) as the value stored last under that key, in "
  "whatever form it was given; other keys keep theirs and no stored value shares memory with the caller's. "
  "The reprojection error of a view is the mean distance for what is stored at that moment.",
  ["inputs", "histories"],
  "all states of pairs of keys over the value set x every operation x every form, for five classes; "
  "sequences of intrinsics updates on two cameras; all corner subsets of two small boards",
  TESTS + "no accessor is tested.",
  [F + "BoardObs.cpp", F + "Object3DObs.cpp", F + "Object3D.cpp", F + "CameraGroup.cpp",
   F + "CameraGroupObs.cpp", F + "Camera.cpp"],
  [("pose accessors", F + "BoardObs.cpp, Object3DObs.cpp, Object3D.cpp, CameraGroup.cpp, CameraGroupObs.cpp"),
   ("intrinsics", F + "Camera.cpp setIntrinsics, getIntrinsics"),
   ("error of a view", F + "BoardObs.cpp, Object3DObs.cpp computeReprojectionError")],
  ["getters of the public classes"],
  "explicit-state exploration of the accessors against a model that remembers the last stored value",
  "Exhaustive within the stated value set; after every transition every getter is compared with the "
  "model, stored vectors bit for bit, matrices to 1e-9 (3e-5 for tiny rotations, which OpenCV rounds).",
  "5 classes x 2 keys x about 16 values x 4 forms, sequences of three; 144 x 144 intrinsics steps; 126 "
  "views",
  "31 values", assume=["OpenCV's Rodrigues conversion is trusted to its own accuracy"],
  state=[dict(name="accessor state", meaning="value and form stored last under each key",
              where="public members of the views, objects and groups")])

P("C30", "A run owns the memory it touches and gives all of it back",
  "Whatever cameras, boards, corners, lenses, groups and images a run is given, it never reads or writes "
  "memory that is not its own or no longer alive, and never divides integers by zero or overflows them. "
  "Calibrations repeated in one process keep nothing behind: memory, open files and threads do not grow.",
  ["inputs", "histories"],
  "scenes of six kinds: visibility patterns, numbers of corners, sizes and gaps, separate groups, unknown "
  "lenses, image files with the board cut at every shift; five runs in a row of each",
  TESTS + "none runs under a sanitizer or repeats a run.",
  [F + "McCalib.cpp", F + "Board.cpp", F + "BoardObs.cpp", F + "Camera.cpp", F + "CameraGroup.cpp",
   F + "CameraGroupObs.cpp", F + "CameraObs.cpp", F + "Frame.cpp", F + "Object3D.cpp",
   F + "Object3DObs.cpp", F + "geometrytools.cpp", F + "Graph.cpp", H + "point_refinement.h"],
  [("ownership between observations, frames, cameras and groups", H + "McCalib.hpp, CameraGroup.hpp, "
    "Object3D.hpp weak_ptr members"),
   ("arrays handed to the optimiser", H + "OptimizationCeres.h"),
   ("windows of pixels", H + "point_refinement.h")],
  ["sanitizer reports", "live heap blocks, open files and threads after each run"],
  "exhaustive enumeration of scenes on the real program, under address and undefined-behaviour sanitizers "
  "and with a counting heap",
  "Exhaustive within the stated scenes. The compiled code of MC-Calib is instrumented; OpenCV and Ceres are "
  "not, but their heap calls are intercepted.",
  "about 1080 scenes under the sanitizers, 1190 five times each with the counting heap",
  "about 3000 scenes each")

P("C31", "Further passes leave a true result true",
  "From the moment poses exist, running any of the passes of the library again, in any order and at any "
  "later point of a calibration (estimating poses, evaluating errors, refining, fusing objects, tying "
  "groups, saving), does not spoil the outcome. For error-free data the groups, objects, poses, points "
  "and the accounting finally written are the true ones, with nothing lost or counted twice.",
  ["histories"],
  "every sequence of up to two of 14 passes (three: a slice) at each of four points of a calibration, four "
  "scenes",
  TESTS + "none repeats a pass.",
  [F + "McCalib.cpp", F + "CameraGroup.cpp", F + "CameraGroupObs.cpp", F + "Object3D.cpp",
   F + "Object3DObs.cpp", F + "Camera.cpp", H + "McCalib.hpp"],
  [("passes", H + "McCalib.hpp public members of Calibration"),
   ("fusing and tying", F + "McCalib.cpp mergeObjects, mergeCameraGroup, mergeAllObjectObs, "
    "mergeAllCameraGroupObs"),
   ("program", "apps/calibrate/src/calibrate.cpp repeats merging and estimation")],
  ["result files"],
  "exhaustive enumeration of operation sequences on the real library",
  "Exhaustive within the stated depth; ground truth and the reference model decide.",
  "4 scenes x 4 points x (1 + 14 + 196 sequences and every seventeenth of 2744)",
  "4 scenes x 4 points x 2955 sequences")

P("C22", "Initial poses are chained along the best supported links",
  "When cameras, boards, fused objects or camera groups are linked by several chains of pairwise "
  "poses that disagree, the initial pose of each relative to the reference of its component is the "
  "composition of the pairwise poses along a chain with the least sum of reciprocal numbers of "
  "joint views, each link taken in the right direction. Every member of a component is placed once "
  "and its points move with it.",
  ["inputs", "histories"],
  "every graph on up to 4 nodes with every assignment of joint view counts, at each of the four "
  "levels",
  "No existing test chains poses.",
  [F + "McCalib.cpp", F + "Graph.cpp", F + "CameraGroup.cpp", F + "Object3D.cpp"],
  [("chaining of boards, cameras, objects and groups", F + "McCalib.cpp init3DObjects, "
    "initCameraGroup, mergeObjects, mergeCameraGroup"),
   ("weights of the links", F + "McCalib.cpp initInter*Graph"),
   ("shortest path", F + "Graph.cpp shortestPathBetween")],
  ["poses of the public object, group and registry members after each stage"],
  "exhaustive enumeration of weighted graphs, staged execution of the real code",
  "Exhaustive within the bound; pairwise poses are made inconsistent on purpose so that every chain "
  "gives a different pose, and the pose obtained is compared with all optimal chains found by "
  "enumerating all simple paths.",
  "at each level: 2 nodes x 4 counts, 3 nodes x 5 counts, 4 nodes x 4 counts (all), 5 nodes x 3 "
  "counts (every 31st)",
  "5 nodes x 3 counts (objects, groups: all 59049; boards, cameras: every seventh)")
P("C23", "A rig is recovered from nothing but images of the printed boards",
  "From image files showing the boards the generator prints, seen through perspective or fisheye "
  "lenses, the calibration recovers the grouping exactly and the camera poses, object geometry, "
  "object poses and, when they are not given, focal lengths to within a small tolerance. This "
  "holds for every pattern of which camera sees which board in which image, with or without corner "
  "refinement, and images that cannot be read count as images showing nothing.",
  ["inputs", "fault_sequences", "configurations"],
  "every visibility pattern of camera x frame x board cells for the listed sizes, every pattern of "
  "unreadable images, numbers of cameras, boards and frames x lens models with unknown lenses",
  "No existing test detects a board or runs a calibration.",
  [F + "McCalib.cpp", F + "utilities.cpp", F + "Board.cpp", F + "Camera.cpp", F + "geometrytools.cpp",
   H + "point_refinement.h", "apps/calibrate/src/calibrate.cpp",
   "apps/create_charuco_boards/src/create_charuco_boards.cpp"],
  [("generation and detection of the boards", F + "utilities.cpp, " + F + "McCalib.cpp "
    "detectBoardsInImageWithCamera"),
   ("the whole pipeline", "apps/calibrate/src/calibrate.cpp")],
  ["all result files"],
  "exhaustive enumeration of visibility and fault patterns through both real programs",
  "Exhaustive within the bound; images are rendered from the generator's own files through an "
  "independent lens model and written to disk, nothing is replaced.",
  "86 of 256 patterns of 2x2x2, 63 of 3x2x1, 32 of 1x2x3, 32 patterns of unreadable images, 36 blind "
  "calibrations",
  "all patterns of these and of 3x3x1, 108 blind calibrations", assume=[
      "images are noise free renderings", "OpenCV, Ceres and Boost are trusted"])
NOT_APPLICABLE = []
