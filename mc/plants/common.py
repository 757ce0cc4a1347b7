"""Shared pieces of the demonstrations."""
L = "/usr/lib/x86_64-linux-gnu/libboost_"


def cxx(code, run="$d/t $d", flags="-O1"):
    """demo.sh that compiles `code` against the library built in _build"""
    return """#!/bin/bash
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
cat > $d/t.cpp <<'X'
%s
X
g++ -std=c++17 -w %s -DGLOG_CUSTOM_PREFIX_SUPPORT -IMcCalib/include -IMcCalib/src -Iinclude \\
  -I/usr/include/opencv4 -I/usr/include/eigen3 $d/t.cpp _build/McCalib/libMcCalib.a -o $d/t \\
  -lopencv_aruco -lopencv_calib3d -lopencv_imgcodecs -lopencv_highgui -lopencv_imgproc \\
  -lopencv_core -lceres -lglog %s -pthread || exit 3
%s
""" % (code.strip(), flags, " ".join(L + m + ".a" for m in (
        "log", "thread", "filesystem", "chrono", "atomic", "system")), run)


CONFIG = r'''
#include "McCalib.hpp"
#include <boost/log/core.hpp>
#include <fstream>
#include <set>
static void config(const std::string &d, int cams, int boards, const std::string &extra = "") {
  boost::log::core::get()->set_logging_enabled(false);
  for (int c = 1; c <= cams; c++)
    std::filesystem::create_directories(d + "/im/Cam_00" + std::to_string(c));
  std::ofstream(d + "/c.yml") << "%YAML:1.0\n---\nnumber_x_square: 5\nnumber_y_square: 5\n"
    "resolution_x: 500\nresolution_y: 500\nlength_square: 0.04\nlength_marker: 0.03\n"
    "number_board: " << boards << "\nboards_index: []\nsquare_size: 0.1\nnumber_camera: " << cams
    << "\ndistortion_model: 0\ndistortion_per_camera: []\nmin_perc_pts: 0.4\n"
    "cam_params_path: \"None\"\nfix_intrinsic: 0\nroot_path: \"" << d << "/im\"\n"
    "cam_prefix: \"Cam_\"\nkeypoints_path: \"None\"\nquaternion_averaging: 1\n"
    "ransac_threshold: 3\nnumber_iterations: 10\nhe_approach: 0\nsave_path: \"" << d
    << "/out\"\nsave_detection: 0\nsave_reprojection: 0\ncamera_params_file_name: \"\"\n"
    << (extra.empty() ? "refine_corner: 0\n" : extra);
}
static cv::Mat boardImage(McCalib::Calibration &k, int b) {
  cv::Mat im;
  k.boards_3d_[b]->charuco_board_->draw(cv::Size(500, 500), im, 20, 1);
  return im;
}
'''
