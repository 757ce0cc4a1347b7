// Sub-pixel refinement of chessboard corners: exact on saddle surfaces,
// accurate on rendered corners, silent elsewhere, independent per corner.
#include "vh.hpp"
#include <opencv2/opencv.hpp>
#include <iostream>
// the header defines non-inline functions: use a copy in its own namespace
#define McCalib SutCalib
#include "point_refinement.h"
#undef McCalib
using SutCalib::SaddlePoint;
namespace {
// grey level of a saddle a*u*v centred at (x0,y0), rotated by t
cv::Mat quadric(int w, int h, double x0, double y0, double t, double a, double skew) {
  cv::Mat m(h, w, CV_64F);
  for (int y = 0; y < h; y++)
    for (int x = 0; x < w; x++) {
      double u = (x - x0) * std::cos(t) + (y - y0) * std::sin(t),
             v = -(x - x0) * std::sin(t) + (y - y0) * std::cos(t);
      m.at<double>(y, x) = 128 + a * u * (v + skew * u);
    }
  return m;
}
// anti-aliased chessboard corner, axes at angles t and t+90deg+k
cv::Mat corner(int w, int h, double x0, double y0, double t, double k, int depth) {
  cv::Mat m(h, w, CV_64F);
  const int S = 8;
  const double cu = std::cos(t), su = std::sin(t), cv_ = std::cos(t + k), sv = std::sin(t + k);
  for (int y = 0; y < h; y++)
    for (int x = 0; x < w; x++) {
      int n = 0;
      for (int i = 0; i < S; i++)
        for (int j = 0; j < S; j++) {
          double px = x + (i + 0.5) / S - 0.5 - x0, py = y + (j + 0.5) / S - 0.5 - y0;
          n += (px * cu + py * su > 0) == (-px * sv + py * cv_ > 0);
        }
      m.at<double>(y, x) = 20 + 210.0 * n / (S * S);
    }
  cv::Mat o;
  cv::GaussianBlur(m, m, cv::Size(5, 5), 0.8);
  m.convertTo(o, depth);
  return o;
}
bool same(const SaddlePoint &a, const SaddlePoint &b) {
  return (a.x == b.x || (std::isinf(a.x) && std::isinf(b.x))) &&
         (a.y == b.y || (std::isinf(a.y) && std::isinf(b.y)));
}
template <class P>
std::vector<SaddlePoint> refine(const cv::Mat &im, const std::vector<P> &in, int win, int it) {
  // the image lives in a buffer of its exact size: a read outside is caught
  cv::Mat copy = im.clone();
  std::vector<SaddlePoint> out;
  SutCalib::saddleSubpixelRefinement(copy, in, out, win, it);
  return out;
}
} // namespace
int main(int argc, char **argv) {
  vh::Run run(argc, argv);
  cv::setNumThreads(1);
  const bool T = run.thorough();
  const double PI = 3.14159265358979;
  // 1. exact saddle surfaces: window x rotation x sub-pixel offset x strength,
  // every initial position of a grid within 0.9 px
  for (int win = 1; win <= (T ? 6 : 5); win++)
    for (int rot = 0; rot < (T ? 24 : 8); rot++)
      for (int ox = 0; ox < (T ? 8 : 4); ox++)
        for (int oy = 0; oy < (T ? 8 : 4); oy++)
          for (int am = 0; am < 3; am++)
            run.run(vh::cat("quad_", win, "_", rot, "_", ox, oy, "_", am), [&](vh::Case &c) {
              const double A[3] = {0.9, -0.35, 6}, x0 = 20 + ox * (T ? 0.125 : 0.25),
                           y0 = 19 + oy * (T ? 0.125 : 0.25);
              cv::Mat im = quadric(44, 40, x0, y0, rot * PI / (T ? 24 : 8), A[am],
                                   am == 1 ? 0.4 : 0);
              std::vector<cv::Point2f> in;
              for (int i = -3; i <= 3; i++)
                for (int j = -3; j <= 3; j++)
                  in.emplace_back((float)(x0 + 0.3 * i), (float)(y0 + 0.3 * j));
              auto out = refine(im, in, win, 20);
              c.trace(in.size());
              c.step(in.size());
              c.state(c.id);
              if (out.size() != in.size())
                return c.fail("size", vh::cat(out.size(), " results for ", in.size(), " corners"));
              for (size_t i = 0; i < in.size(); i++) {
                double e = std::hypot(out[i].x - x0, out[i].y - y0);
                if (!(e < 1e-3))
                  c.fail("exact", vh::cat("started at ", in[i].x, ",", in[i].y, " for a saddle at ",
                                          x0, ",", y0, ": ", out[i].x, ",", out[i].y));
              }
            });
  // 2. rendered corners
  for (int win : {2, 3, 5})
    for (int rot = 0; rot < (T ? 32 : 12); rot++)
      for (int ox = 0; ox < (T ? 8 : 4); ox++)
        for (int oy = 0; oy < (T ? 8 : 4); oy++)
          for (int sk = 0; sk < 3; sk++)
            run.run(vh::cat("corner_", win, "_", rot, "_", ox, oy, "_", sk), [&](vh::Case &c) {
              const double SK[3] = {0, 0.3, -0.3}, x0 = 16 + ox * (T ? 0.125 : 0.25),
                           y0 = 17 + oy * (T ? 0.125 : 0.25);
              cv::Mat im = corner(36, 34, x0, y0, rot * 2 * PI / (T ? 32 : 12), SK[sk],
                                  (rot + ox) % 2 ? CV_8U : CV_64F);
              std::vector<cv::Point2f> in;
              for (int i = -2; i <= 2; i++)
                for (int j = -2; j <= 2; j++)
                  in.emplace_back((float)(x0 + 0.3 * i), (float)(y0 + 0.3 * j));
              auto out = refine(im, in, win, 20);
              c.trace(in.size());
              c.step(in.size());
              c.state(c.id);
              for (size_t i = 0; i < in.size(); i++) {
                double e = std::hypot(out[i].x - x0, out[i].y - y0);
                if (!(e < 0.1))
                  c.fail("accuracy", vh::cat("started at ", in[i].x, ",", in[i].y,
                                             " for a corner at ", x0, ",", y0, ": ", out[i].x, ",",
                                             out[i].y));
              }
            });
  // 3. every position over and around the image: never a wrong answer, never
  // an access outside, and no answer where the window does not fit
  for (int win = 1; win <= 4; win++)
    for (int fx = 0; fx < 4; fx++)
      for (int fy = 0; fy < 4; fy++)
        for (int depth = 0; depth < 2; depth++)
          run.run(vh::cat("border_", win, "_", fx, fy, "_", depth), [&](vh::Case &c) {
            const int W = 21, H = 17, D[2] = {CV_8U, CV_64F};
            for (int x = -3; x <= W + 2; x++)
              for (int y = -3; y <= H + 2; y++) {
                double x0 = x + fx * 0.25, y0 = y + fy * 0.25;
                cv::Mat im = quadric(W, H, x0, y0, 0.3, 1.1, 0), in8;
                im.convertTo(in8, D[depth]);
                std::vector<cv::Point2f> in = {{(float)x0, (float)y0}};
                auto out = refine(in8, in, win, 20);
                c.step();
                bool fits = x0 > win + 1 && x0 < W - win - 2 && y0 > win + 1 && y0 < H - win - 2;
                bool deep = x0 > 2 * win + 2 && x0 < W - 2 * win - 3 && y0 > 2 * win + 2 &&
                            y0 < H - 2 * win - 3;
                bool inf = std::isinf(out[0].x) && std::isinf(out[0].y);
                double e = std::hypot(out[0].x - x0, out[0].y - y0);
                if (std::isinf(out[0].x) != std::isinf(out[0].y) || std::isnan(out[0].x) ||
                    std::isnan(out[0].y))
                  c.fail("form", vh::cat("at ", x0, ",", y0, ": ", out[0].x, ",", out[0].y));
                if (!fits && !inf)
                  c.fail("outside", vh::cat("at ", x0, ",", y0, " window ", win, ": ", out[0].x,
                                            ",", out[0].y));
                if (fits && !inf && e > 1.5)
                  c.fail("wander", vh::cat("at ", x0, ",", y0, " moved by ", e));
                if (deep && !(e < (depth ? 1e-3 : 0.1)))
                  c.fail("inside", vh::cat("at ", x0, ",", y0, " window ", win, ": ", out[0].x, ",",
                                           out[0].y));
              }
            c.trace();
            c.state(c.id);
          });
  // 4. every list of up to 4 corners out of 6 kinds, in every order: each
  // answer is the one obtained alone; only saddles are answered
  {
    cv::Mat im(70, 120, CV_8U, cv::Scalar(128));
    corner(30, 30, 15.3, 14.6, 0.4, 0, CV_8U).copyTo(im(cv::Rect(5, 5, 30, 30)));
    corner(30, 30, 14.8, 15.2, 1.9, 0.2, CV_8U).copyTo(im(cv::Rect(45, 5, 30, 30)));
    cv::circle(im, cv::Point(100, 20), 5, cv::Scalar(250), cv::FILLED);
    cv::rectangle(im, cv::Rect(80, 45, 30, 20), cv::Scalar(10), cv::FILLED);
    const std::vector<cv::Point2f> kinds = {{20.1f, 19.8f}, {60.2f, 20.4f}, {100, 20},  // blob
                                            {30, 60},                                   // flat
                                            {0.5f, 69},                                 // border
                                            {21.9f, 21.9f}};                            // too far
    std::vector<SaddlePoint> alone;
    for (int n = 1; n <= 4; n++) {
      std::vector<int> d(n, 0), rad(n, 6);
      do
        run.run("list_" + vh::digits(d), [&](vh::Case &c) {
          if (alone.empty())
            for (auto &k : kinds)
              alone.push_back(refine(im, std::vector<cv::Point2f>{k}, 2, 20)[0]);
          std::vector<cv::Point2f> in;
          for (int v : d)
            in.push_back(kinds[v]);
          auto out = refine(im, in, 2, 20);
          c.trace(n);
          c.step(n);
          c.state(c.id);
          for (int i = 0; i < n; i++) {
            if (!same(out[i], alone[d[i]]))
              c.fail("independent", vh::cat("corner ", i, " (kind ", d[i], ") depends on the others"));
            bool inf = std::isinf(out[i].x);
            if ((d[i] < 2) == inf && d[i] < 5)
              c.fail("kind", vh::cat("kind ", d[i], inf ? " not answered" : " answered"));
          }
        });
      while (vh::nextDigits(d, rad));
    }
    // long lists
    for (int n : {9, 31, 33, 100, 127, 129, 255, 257, 500, 1001})
      for (int step = 1; step <= 5; step++)
        run.run(vh::cat("longlist_", n, "_", step), [&](vh::Case &c) {
          std::vector<cv::Point2f> in;
          for (int i = 0; i < n; i++)
            in.push_back(kinds[(i * step + i / 7) % 6]);
          auto out = refine(im, in, 2, 20);
          c.trace(n);
          c.step(n);
          c.state(c.id);
          if ((int)out.size() != n)
            return c.fail("size", vh::cat(out.size(), " results for ", n, " corners"));
          for (int i = 0; i < n; i++) {
            const int k = (i * step + i / 7) % 6;
            auto one = refine(im, std::vector<cv::Point2f>{kinds[k]}, 2, 20);
            if (!same(out[i], one[0]))
              c.fail("independent", vh::cat("corner ", i, " of ", n, " depends on the others"));
          }
        });
  }
  // large images: corners near and far from the origin
  for (int win : {2, 5, 8})
    for (int at = 0; at < 6; at++)
      for (int rot = 0; rot < (T ? 12 : 4); rot++)
        run.run(vh::cat("large_", win, "_", at, "_", rot), [&](vh::Case &c) {
          const int X[6] = {3, 1000, 2047, 4090, 60, 4140}, Y[6] = {3000, 1020, 2049, 3080, 2500, 7};
          const double dx = 16.3 + 0.11 * at, dy = 17.7 - 0.13 * rot;
          cv::Mat im(3200, 4200, CV_8U, cv::Scalar(128));
          corner(36, 34, dx, dy, rot * 0.4, 0.2, CV_8U).copyTo(im(cv::Rect(X[at], Y[at], 36, 34)));
          std::vector<cv::Point2f> in;
          for (int i = -2; i <= 2; i++)
            in.emplace_back((float)(X[at] + dx + 0.3 * i), (float)(Y[at] + dy - 0.25 * i));
          auto out = refine(im, in, win, 20);
          c.trace(in.size());
          c.step(in.size());
          c.state(c.id);
          for (size_t i = 0; i < in.size(); i++) {
            double e = std::hypot(out[i].x - X[at] - dx, out[i].y - Y[at] - dy);
            if (!(e < 0.1))
              c.fail("accuracy", vh::cat("corner off by ", e, " at ", X[at], ",", Y[at]));
          }
        });
  return run.finish();
}
