// Hand-eye calibration of two rigidly linked camera groups: every rotation of
// a grid, every subset of a set of motions, with repeated poses.
#include "geometrytools.hpp"
#include "world.hpp"
using namespace world;
int main(int argc, char **argv) {
  vh::Run run(argc, argv);
  run.retries = 2;
  quiet();
  const double AX[7][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {0.7071, -0.7071, 0},
                           {0.5774, 0.5774, 0.5774}, {-0.6, 0, 0.8}, {0.36, 0.48, -0.8}};
  const double ANG[9] = {0, 0.02, 0.6, 1.5707963, 2.3, 3.0, 3.14, 3.1415, 3.14159265358979};
  const double TR[3][3] = {{0, 0, 0}, {1.5, -0.2, 0.4}, {-0.3, 0.1, -4}};
  // object 1 as seen by group 1: general motion
  const double MO[9][6] = {{0.1, 0.2, -0.1, 0.1, -0.2, 1.5},  {0.7, -0.3, 0.4, -0.3, 0.1, 1.2},
                           {-0.5, 0.6, 0.2, 0.2, 0.3, 1.9},   {0.2, -0.7, -0.6, 0.0, 0.2, 1.4},
                           {-0.4, -0.4, 0.9, -0.2, -0.1, 2.2}, {0.9, 0.3, -0.7, 0.35, 0.0, 1.1},
                           {-0.8, 0.1, -0.3, -0.1, 0.25, 1.7}, {0.3, 0.8, 0.6, 0.15, -0.3, 2.0},
                           {-0.2, -0.9, 0.3, -0.25, -0.25, 1.3}};
  const Pose Y = make(0.4, -1.1, 0.7, 0.8, -0.5, 0.3); // object 1 -> object 2
  auto judge = [&](vh::Case &c, const std::vector<int> &sel, const Pose &X, int clusters,
                   bool extra) {
    cv::theRNG().state = 0x12345678 + run.salt;
    std::vector<cv::Mat> A, B;
    for (int i : sel) {
      const double *q = MO[i % 9];
      // displacements stay below 120 degrees: beyond, OpenCV's Tsai solver is not exact
      const double k = 0.85;
      // the motions come again a little different; long recordings stay in the same range
      const double r = i / 9 < 6 ? i / 9 : 5 * std::fmod(0.381966 * (i / 9), 1);
      Pose P = make(k * q[0] + 0.05 * r, k * q[1] - 0.07 * r, k * q[2] + 0.05 * r, q[3] + 0.02 * r, q[4],
                    q[5] + 0.06 * r);
      A.push_back(toMat(P));
      B.push_back(toMat(X * P * Y.inv()));
    }
    double widest = 0;
    for (auto &p : A)
      for (auto &q : A)
        widest = std::max(widest, rotAngle(fromMat(p).R, fromMat(q).R));
    if (widest > 2.08)
      return c.fail("harness", vh::cat("motion of ", widest, " rad"));
    c.trace(2);
    c.step(sel.size());
    c.state(c.id);
    auto cmp = [&](const char *w, const cv::Mat &m) {
      if (m.rows != 4 || m.cols != 4)
        return c.fail(w, "no 4x4 pose");
      Pose g = fromMat(m).inv(); // group 1 -> group 2
      double r = rotAngle(g.R, X.R), t = transErr(g, X);
      if (!(r < 1e-4) || !(t < 5e-4))
        c.fail(w, vh::cat("rotation error ", r, " translation error ", t));
    };
    cmp("direct", McCalib::handeyeCalibration(A, B));
    cmp("bootstrap", McCalib::handeyeBootstraptTranslationCalibration(clusters, extra ? 60 : 25, A, B));
  };
  // 1. every rotation of the grid x every subset of at least 4 of 6 motions
  for (int a = 0; a < 7; a++)
    for (int g = 0; g < 9; g++)
      for (int t = 0; t < 3; t++)
        for (int m = 0; m < 64; m++) {
          if (__builtin_popcount(m) < 4)
            continue;
          if (!run.thorough() && (a + g + t + m) % 3 && m != 63)
            continue;
          run.run(vh::cat("x", a, "_", g, "_", t, "_", m), [&](vh::Case &c) {
            std::vector<int> sel;
            for (int i = 0; i < 6; i++)
              if (m >> i & 1)
                sel.push_back(i);
            Pose X{rotvec(AX[a][0] * ANG[g], AX[a][1] * ANG[g], AX[a][2] * ANG[g]),
                   {TR[t][0], TR[t][1], TR[t][2]}};
            judge(c, sel, X, 20, false);
          });
        }
  // 2. number of poses x number of clusters
  for (int n = 4; n <= (run.thorough() ? 54 : 30); n++)
    for (int k : {3, 5, 6, 7, 20, 40})
      for (int a = 0; a < 7; a += run.thorough() ? 1 : 3)
        run.run(vh::cat("n", n, "_", k, "_", a), [&](vh::Case &c) {
          if (k < 5 || n < 5)
            return;
          std::vector<int> sel;
          for (int i = 0; i < n; i++)
            sel.push_back(i);
          Pose X{rotvec(AX[a][0] * 1.1, AX[a][1] * 1.1, AX[a][2] * 1.1), {0.4, 0.2, -0.9}};
          judge(c, sel, X, k, true);
        });
  for (int n : {60, 101, 128, 200, 257, 400})
    for (int k : {5, 20, 40, 100})
      for (int a = 0; a < 7; a++)
        run.run(vh::cat("long", n, "_", k, "_", a), [&](vh::Case &c) {
          std::vector<int> sel;
          for (int i = 0; i < n; i++)
            sel.push_back(i);
          Pose X{rotvec(AX[a][0] * 0.8, AX[a][1] * 0.8, AX[a][2] * 0.8), {-0.4, 0.6, 0.9}};
          judge(c, sel, X, k, true);
        });
  // 3. the rig stands still: every way of repeating poses that leaves four
  // distinct ones in any six frames
  std::vector<int> rep(7, 0), rad(7, 4);
  do {
    int tot = 0, distinct = 0;
    for (int v : rep) {
      tot += v;
      distinct += v > 0;
    }
    std::vector<int> top = rep;
    std::sort(top.rbegin(), top.rend());
    if (distinct < 4 || top[0] < 2 || top[0] + top[1] + top[2] > 5 ||
        (!run.thorough() && distinct > 5))
      continue;
    run.run("rep_" + vh::digits(rep), [&](vh::Case &c) {
      std::vector<int> sel;
      for (int i = 0; i < 7; i++)
        for (int k = 0; k < rep[i]; k++)
          sel.push_back(i);
      Pose X{rotvec(0.4, -1.0, 0.3), {0.4, 0.2, -0.9}};
      judge(c, sel, X, 20, false);
    });
  } while (vh::nextDigits(rep, rad));
  // 4. one or two frames carry a grossly wrong pose of one group: the subsets
  // that contain them are inconsistent and must not count
  auto wrong = [&](const std::vector<int> &sel, const Pose &X, std::vector<cv::Mat> &A,
                   std::vector<cv::Mat> &B) {
    for (int i : sel) {
      const double *q = MO[i % 9];
      const double k = 0.85;
      // the motions come again a little different; long recordings stay in the same range
      const double r = i / 9 < 6 ? i / 9 : 5 * std::fmod(0.381966 * (i / 9), 1);
      Pose P = make(k * q[0] + 0.05 * r, k * q[1] - 0.07 * r, k * q[2] + 0.05 * r, q[3] + 0.02 * r, q[4],
                    q[5] + 0.06 * r);
      A.push_back(toMat(P));
      B.push_back(toMat(X * P * Y.inv()));
    }
  };
  for (int n : {9, 12})
    for (int o = 0; o < n; o++)
      for (int o2 = o; o2 < n; o2++)
        for (int side = 0; side < 2; side++)
          for (int a = 0; a < 7; a++) {
            if (n == 9 && o2 != o)
              continue;
            if (!run.thorough() && (o + o2 + a) % 4)
              continue;
            run.run(vh::cat("wrong", n, "_", o, "_", o2, "_", side, "_", a), [&](vh::Case &c) {
              cv::theRNG().state = 0x12345678 + run.salt;
              std::vector<int> sel;
              for (int i = 0; i < n; i++)
                sel.push_back(i);
              Pose X{rotvec(AX[a][0] * 2.3, AX[a][1] * 2.3, AX[a][2] * 2.3), {0.4, 0.2, -0.9}};
              std::vector<cv::Mat> A, B;
              wrong(sel, X, A, B);
              for (int f : {o, o2}) {
                auto &V = side ? B : A;
                Pose bad = make(1.9, -0.8, 1.1 + 0.9 * (f == o2), 0.4, -0.7, 0.5);
                V[f] = toMat(bad * fromMat(V[f]));
                if (o == o2)
                  break;
              }
              c.trace(1);
              c.step(n);
              c.state(c.id);
              cv::Mat m = McCalib::handeyeBootstraptTranslationCalibration(20, 80, A, B);
              if (m.rows != 4 || m.cols != 4)
                return c.fail("wrong", "no 4x4 pose");
              Pose g = fromMat(m).inv();
              double r = rotAngle(g.R, X.R), t = transErr(g, X);
              if (!(r < 2e-2) || !(t < 5e-2))
                c.fail("wrong", vh::cat("rotation error ", r, " translation error ", t));
            });
          }
  // 5. no subset is consistent: every assignment of large errors to the frames;
  // the answer is then a fit over all frames
  for (int m = 0; m < 256; m++)
    for (int a = 0; a < 7; a += run.thorough() ? 1 : 3)
      run.run(vh::cat("noisy", m, "_", a), [&](vh::Case &c) {
        cv::theRNG().state = 0x12345678 + run.salt;
        std::vector<int> sel;
        for (int i = 0; i < 16; i++)
          sel.push_back(i);
        Pose X{rotvec(AX[a][0] * 2.3, AX[a][1] * 2.3, AX[a][2] * 2.3), {0.4, 0.2, -0.9}};
        std::vector<cv::Mat> A, B;
        wrong(sel, X, A, B);
        for (int i = 0; i < 16; i++) {
          double s = (m >> (i % 8) & 1) ^ (i / 8) ? 0.3 : -0.3;
          double v[3] = {0, 0, 0};
          v[i % 3] = s;
          B[i] = toMat(make(v[0], v[1], v[2], 0, 0, 0) * fromMat(B[i]));
        }
        c.trace(1);
        c.step(16);
        c.state(c.id);
        cv::Mat g4 = McCalib::handeyeBootstraptTranslationCalibration(20, 40, A, B);
        if (g4.rows != 4 || g4.cols != 4)
          return c.fail("noisy", "no 4x4 pose");
        double r = rotAngle(fromMat(g4).inv().R, X.R);
        if (!(r < 0.7))
          c.fail("noisy", vh::cat("rotation error ", r));
      });
  return run.finish();
}
