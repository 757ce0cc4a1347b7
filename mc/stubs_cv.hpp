// Replaces image decoding and marker detection by functions of the harness.
#pragma once
#include <functional>
#include <opencv2/aruco/charuco.hpp>
#include <opencv2/opencv.hpp>
namespace stubs {
extern std::function<cv::Mat(const std::string &)> imread;
// image, dictionary, parameters -> marker ids found
extern std::function<std::vector<int>(const cv::Mat &, const cv::aruco::Dictionary *,
                                      const cv::aruco::DetectorParameters *)>
    markers;
struct Corners {
  std::vector<cv::Point2f> px;
  std::vector<int> ids;
};
// image, board, marker ids
extern std::function<Corners(const cv::Mat &, const cv::aruco::CharucoBoard *,
                             const std::vector<int> &)>
    corners;
// file, image; replaces cv::imwrite when set, otherwise nothing is written
extern std::function<bool(const std::string &, const cv::Mat &)> imwrite;
extern void (*point)(); // called around every stub
} // namespace stubs
