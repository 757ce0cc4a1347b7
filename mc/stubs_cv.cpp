#include "stubs_cv.hpp"
namespace stubs {
std::function<cv::Mat(const std::string &)> imread;
std::function<std::vector<int>(const cv::Mat &, const cv::aruco::Dictionary *,
                               const cv::aruco::DetectorParameters *)>
    markers;
std::function<Corners(const cv::Mat &, const cv::aruco::CharucoBoard *,
                      const std::vector<int> &)>
    corners;
std::function<bool(const std::string &, const cv::Mat &)> imwrite;
void (*point)() = nullptr;
static void pt() {
  if (point)
    point();
}
} // namespace stubs
namespace cv {
Mat imread(const String &f, int) {
  stubs::pt();
  Mat m = stubs::imread(f);
  stubs::pt();
  return m;
}
bool imwrite(const String &f, InputArray m, const std::vector<int> &) {
  return stubs::imwrite ? stubs::imwrite(f, m.getMat()) : false;
}
namespace aruco {
void detectMarkers(InputArray image, const Ptr<Dictionary> &dict,
                   OutputArrayOfArrays corners, OutputArray ids,
                   const Ptr<DetectorParameters> &p, OutputArrayOfArrays) {
  stubs::pt();
  std::vector<int> v = stubs::markers(image.getMat(), dict.get(), p.get());
  corners.create((int)v.size(), 1, CV_32FC2);
  for (int i = 0; i < (int)v.size(); i++) {
    corners.create(4, 1, CV_32FC2, i, true);
    Mat m = corners.getMat(i);
    for (int k = 0; k < 4; k++)
      m.at<Point2f>(k) = Point2f((float)v[i], (float)k);
  }
  Mat(v).copyTo(ids);
  stubs::pt();
}
int interpolateCornersCharuco(InputArrayOfArrays, InputArray markerIds,
                              InputArray image, const Ptr<CharucoBoard> &board,
                              OutputArray cc, OutputArray ci, InputArray,
                              InputArray, int) {
  stubs::pt();
  Mat mi = markerIds.getMat();
  std::vector<int> v;
  for (int i = 0; i < (int)mi.total(); i++)
    v.push_back(mi.at<int>(i));
  stubs::Corners k = stubs::corners(image.getMat(), board.get(), v);
  Mat(k.px).copyTo(cc);
  Mat(k.ids).copyTo(ci);
  stubs::pt();
  return (int)k.px.size();
}
} // namespace aruco
} // namespace cv
