#include "world.hpp"
#include <algorithm>
#include <boost/log/core.hpp>
#include <iomanip>
#include <numeric>
#include <opencv2/calib3d.hpp>
#include <opencv2/core/utils/logger.hpp>
#include <opencv2/opencv.hpp>

namespace fs = std::filesystem;
namespace world {

cv::Matx33d rotvec(double x, double y, double z) {
  // Rodrigues, written out (independent of cv::Rodrigues)
  double a = std::sqrt(x * x + y * y + z * z);
  if (a < 1e-15)
    return cv::Matx33d::eye();
  x /= a;
  y /= a;
  z /= a;
  double c = std::cos(a), s = std::sin(a), k = 1 - c;
  return {c + x * x * k,     x * y * k - z * s, x * z * k + y * s,
          y * x * k + z * s, c + y * y * k,     y * z * k - x * s,
          z * x * k - y * s, z * y * k + x * s, c + z * z * k};
}
Pose make(double rx, double ry, double rz, double tx, double ty, double tz) {
  return {rotvec(rx, ry, rz), {tx, ty, tz}};
}
double rotAngle(const cv::Matx33d &A, const cv::Matx33d &B) {
  // ||A-B||_F = 2 sqrt2 |sin(angle/2)|
  double n = cv::norm(A - B, cv::NORM_L2) / (2 * std::sqrt(2.0));
  if (!(n == n))
    return 1e9;
  return 2 * std::asin(std::min(1.0, n));
}
double transErr(const Pose &a, const Pose &b) {
  double n = cv::norm(a.t - b.t);
  return n == n ? n : 1e9;
}
Pose fromMat(const cv::Mat &m) {
  Pose p;
  if (m.rows < 3 || m.cols < 4)
    return p;
  for (int i = 0; i < 3; i++) {
    for (int j = 0; j < 3; j++)
      p.R(i, j) = m.at<double>(i, j);
    p.t[i] = m.at<double>(i, 3);
  }
  return p;
}
cv::Mat toMat(const Pose &p) {
  cv::Mat m = cv::Mat::eye(4, 4, CV_64F);
  for (int i = 0; i < 3; i++) {
    for (int j = 0; j < 3; j++)
      m.at<double>(i, j) = p.R(i, j);
    m.at<double>(i, 3) = p.t[i];
  }
  return m;
}

cv::Vec2d projectModel(const Cam &c, const cv::Vec3d &p) {
  double x = p[0] / p[2], y = p[1] / p[2];
  double xd, yd;
  if (c.model == 0) {
    double k1 = c.d[0], k2 = c.d[1], p1 = c.d[2], p2 = c.d[3], k3 = c.d[4];
    double r2 = x * x + y * y;
    double rad = 1 + k1 * r2 + k2 * r2 * r2 + k3 * r2 * r2 * r2;
    xd = x * rad + 2 * p1 * x * y + p2 * (r2 + 2 * x * x);
    yd = y * rad + p1 * (r2 + 2 * y * y) + 2 * p2 * x * y;
  } else {
    double r = std::sqrt(x * x + y * y), th = std::atan(r);
    double t2 = th * th;
    double td = th * (1 + t2 * (c.d[0] + t2 * (c.d[1] + t2 * (c.d[2] + t2 * c.d[3]))));
    double s = r > 1e-12 ? td / r : 1;
    xd = x * s;
    yd = y * s;
  }
  return {c.fx * xd + c.u0, c.fy * yd + c.v0};
}

World World::standard(int ncam, int nboard, int nframe, int model,
                      bool distortion) {
  World w;
  static const double CT[6][6] = {{0.05, -0.08, 0.03, 0.02, -0.03, 0.05},
                                  {-0.06, 0.16, -0.09, -0.25, 0.06, 0.03},
                                  {0.14, -0.11, 0.12, 0.21, 0.10, -0.07},
                                  {-0.12, -0.15, 0.07, 0.12, -0.22, 0.10},
                                  {0.09, 0.10, -0.14, -0.14, 0.17, 0.11},
                                  {0.02, 0.18, 0.11, -0.3, -0.1, -0.04}};
  for (int c = 0; c < ncam; c++) {
    Cam k;
    const double *q = CT[c % 6];
    // strong roll: relative camera poses must not commute
    static const double ROLL[6] = {0.3, 1.7, -2.4, 0.9, 2.8, -1.2};
    k.T = make(0, 0, ROLL[c % 6] + 0.21 * (c / 6), 0.02 * (c / 6), 0, 0) *
          make(q[0], q[1], q[2], q[3], q[4], q[5]);
    k.model = model == 2 ? c % 2 : model;
    k.fx = 700 + 13 * c;
    k.fy = 690 + 17 * c;
    k.u0 = 640 + 5 * c;
    k.v0 = 480 - 4 * c;
    k.w = 1280 + 16 * c;
    k.h = 960 + 8 * c;
    if (k.model == 0)
      k.d = distortion ? std::vector<double>{-0.06 + 0.01 * c, 0.02, 0.001,
                                             -0.0008, 0.004}
                       : std::vector<double>(5, 0.0);
    else
      k.d = distortion ? std::vector<double>{0.02 - 0.004 * c, -0.006, 0.002,
                                             -0.0005}
                       : std::vector<double>(4, 0.0);
    w.cams.push_back(k);
  }
  static const double BT[6][6] = {
      {0.55, -0.45, 0.10, -0.25, -0.20, 0.10},
      {-0.50, 0.40, -0.30, 0.10, -0.15, 0.05},
      {0.45, 0.60, 0.50, -0.20, 0.10, -0.10},
      {-0.60, -0.35, 0.20, 0.12, 0.12, 0.00},
      {0.35, -0.65, -0.40, -0.05, -0.05, -0.2},
      {-0.40, 0.55, 0.70, 0.0, 0.2, 0.15}};
  static const int NX[6] = {5, 6, 5, 4, 6, 5}, NY[6] = {4, 4, 5, 5, 5, 4};
  for (int b = 0; b < nboard; b++) {
    Brd k;
    const double *q = BT[b % 6];
    k.B = make(q[0], q[1], q[2], q[3], q[4], q[5]);
    k.nx = NX[b % 6];
    k.ny = NY[b % 6];
    k.sq = 0.13 + 0.01 * (b % 3);
    static const double SPIN[6] = {0.4, -1.9, 2.6, 1.2, -0.8, -2.9};
    double cx = k.sq * (k.nx - 2) / 2, cy = k.sq * (k.ny - 2) / 2;
    k.B = k.B * make(0, 0, 0, cx, cy, 0) *
          make(0, 0, SPIN[b % 6] + 0.3 * (b / 6), 0, 0, 0) *
          make(0, 0, 0, -cx, -cy, 0);
    w.boards.push_back(k);
  }
  static const double MT[12][3] = {
      {0.0, 0.0, 0.0},    {0.30, 0.0, 0.15},  {-0.25, 0.2, -0.2},
      {0.1, -0.35, 0.3},  {0.22, 0.28, -0.4}, {-0.3, -0.2, 0.1},
      {0.05, 0.33, 0.5},  {-0.15, 0.1, -0.6}, {0.27, -0.17, 0.4},
      {-0.2, 0.31, 0.25}, {0.33, 0.12, -0.1}, {-0.08, -0.3, -0.45}};
  for (int f = 0; f < nframe; f++) {
    const double *q = MT[f % 12];
    int z = f / 12;
    w.motion.push_back(make(q[0] + 0.04 * z, q[1] - 0.03 * z, q[2] + 0.05 * z,
                            0.06 * ((f * 3) % 5 - 2) + 0.01 * z,
                            0.05 * ((f * 2) % 5 - 2) - 0.01 * z,
                            1.15 + 0.07 * ((f * 5) % 4) + 0.02 * z));
  }
  return w;
}

Obs World::observe(int c, int f, int b) const {
  Obs o{c, f, b, {}, {}};
  Pose P = camFromBoard(c, f, b);
  for (int k = 0; k < boards[b].nPts(); k++) {
    cv::Vec2d p = projectModel(cams[c], P(boards[b].pt(k)));
    o.ids.push_back(k);
    o.px.emplace_back((float)p[0], (float)p[1]);
  }
  return o;
}

void writeKeypoints(const World &w, const std::vector<Obs> &obs,
                    const std::string &path) {
  cv::FileStorage st(path, cv::FileStorage::WRITE);
  st << "nb_camera" << (int)w.cams.size();
  for (int c = 0; c < (int)w.cams.size(); c++) {
    std::vector<int> fi, bi;
    std::vector<std::string> fp;
    std::vector<std::vector<cv::Point2f>> pts;
    std::vector<std::vector<int>> ids;
    for (const Obs &o : obs)
      if (o.c == c) {
        fi.push_back(o.f);
        bi.push_back(o.b);
        fp.push_back("img_" + std::to_string(c) + "_" + std::to_string(o.f));
        pts.push_back(o.px);
        ids.push_back(o.ids);
      }
    st << "camera_" + std::to_string(c) << "{";
    st << "img_width" << w.cams[c].w << "img_height" << w.cams[c].h;
    st << "frame_idxs" << fi << "frame_paths" << fp << "board_idxs" << bi
       << "pts_2d" << pts << "charuco_idxs" << ids << "}";
  }
  st.release();
}

void initialIntrinsics(const World &w, const Options &o, int c, cv::Mat &K, cv::Mat &D) {
  const Cam &k = w.cams[c];
  auto at = [&](const std::vector<double> &v, double def) {
    return c < (int)v.size() ? v[c] : def;
  };
  const double s = 1 + at(o.focalPerturb, o.intrinsicPerturb), u = at(o.centerPerturb, 0);
  K = (cv::Mat_<double>(3, 3) << k.fx * s, 0, k.u0 + u, 0, k.fy * s, k.v0 - u, 0, 0, 1);
  D = cv::Mat(1, (int)k.d.size(), CV_64F);
  for (size_t i = 0; i < k.d.size(); i++)
    D.at<double>((int)i) = k.d[i] + (i == 0 ? at(o.distPerturb, 0) : 0);
}

void writeInputs(const World &w, const std::vector<Obs> &obs,
                 const Options &o, const std::string &dir) {
  writeKeypoints(w, obs, dir + "/keypoints.yml");
  if (o.camParams && o.camParamsPath.empty()) {
    cv::FileStorage st(dir + "/cams.yml", cv::FileStorage::WRITE);
    st << "nb_camera" << (int)w.cams.size();
    for (int c = 0; c < (int)w.cams.size(); c++) {
      cv::Mat K, D;
      initialIntrinsics(w, o, c, K, D);
      st << "camera_" + std::to_string(c) << "{"
         << "camera_matrix" << K << "distortion_vector" << D << "}";
    }
    st.release();
  }
  std::ofstream c(dir + "/config.yml");
  auto list = [](const std::vector<std::string> &v) {
    std::string s = "[";
    for (size_t i = 0; i < v.size(); i++)
      s += (i ? "," : "") + v[i];
    return s + "]";
  };
  std::vector<std::string> nx, ny, sq, dm;
  for (auto &b : w.boards) {
    nx.push_back(std::to_string(b.nx));
    ny.push_back(std::to_string(b.ny));
    sq.push_back(vh::cat(b.sq));
  }
  for (auto &k : w.cams)
    dm.push_back(std::to_string(k.model));
  c << "%YAML:1.0\n---\n"
    << "number_x_square: 5\nnumber_y_square: 4\nresolution_x: 500\n"
       "resolution_y: 500\nlength_square: 0.04\nlength_marker: 0.03\n"
    << "number_board: " << w.boards.size()
    << "\nboards_index: []\nsquare_size: 0.1\n"
    << "number_x_square_per_board: " << list(nx)
    << "\nnumber_y_square_per_board: " << list(ny)
    << "\nsquare_size_per_board: " << list(sq) << "\n"
    << "distortion_model: 0\ndistortion_per_camera: " << list(dm)
    << "\nnumber_camera: " << w.cams.size()
    << "\nrefine_corner: 1\nmin_perc_pts: 0.5\n"
    << "cam_params_path: \""
    << (!o.camParams ? std::string("None")
                     : o.camParamsPath.empty() ? dir + "/cams.yml"
                                               : o.camParamsPath) << "\"\n"
    << "fix_intrinsic: " << o.fix_intrinsic << "\n"
    << "root_path: \"" << dir << "/images\"\ncam_prefix: \"Cam_\"\n"
    << "keypoints_path: \"" << dir << "/keypoints.yml\"\n"
    << "quaternion_averaging: " << o.quaternion_averaging
    << "\nransac_threshold: " << o.ransac
    << "\nnumber_iterations: " << o.iterations
    << "\nhe_approach: " << o.he_approach << "\nsave_path: \""
    << (o.savePath.empty() ? dir + "/out" : o.savePath) << "\"\nsave_detection: " << o.saveDetection
    << "\nsave_reprojection: " << o.saveReprojection << "\n"
    << "camera_params_file_name: \"" << o.camFile << "\"\n";
}

Result readOutputs(const World &w, const std::string &dir, const Options &o) {
  Result r;
  r.dir = dir;
  r.cams.resize(w.cams.size());
  const std::string out = (o.savePath.empty() ? dir + "/out" : o.savePath) + "/";
  const std::string camf =
      out +
      (o.camFile.empty() ? std::string("calibrated_cameras_data.yml") : o.camFile);
  if (fs::exists(camf)) {
    cv::FileStorage st(camf, cv::FileStorage::READ);
    if (!st["nb_camera"].empty())
      st["nb_camera"] >> r.nbCamera;
    for (size_t c = 0; c < w.cams.size(); c++) {
      cv::FileNode n = st["camera_" + std::to_string(c)];
      if (n.empty())
        continue;
      CamOut &k = r.cams[c];
      k.present = true;
      n["camera_matrix"] >> k.K;
      n["distortion_vector"] >> k.D;
      n["distortion_type"] >> k.type;
      n["camera_group"] >> k.group;
      n["img_width"] >> k.w;
      n["img_height"] >> k.h;
      n["camera_pose_matrix"] >> k.P;
      const cv::Mat &P = k.P;
      k.pose = fromMat(P);
    }
  }
  if (fs::exists(out + "calibrated_objects_data.yml")) {
    cv::FileStorage st(out + "calibrated_objects_data.yml",
                       cv::FileStorage::READ);
    cv::FileStorage sp(out + "calibrated_objects_pose_data.yml",
                       cv::FileStorage::READ);
    for (size_t i = 0; i < w.boards.size() + 1; i++) {
      cv::FileNode n = st["object_" + std::to_string(i)];
      if (n.empty())
        continue;
      ObjOut ob;
      n["points"] >> ob.pts;
      cv::FileNode m = sp["object_" + std::to_string(i)];
      if (!m.empty())
        m["poses"] >> ob.poses;
      r.objs[(int)i] = ob;
    }
  }
  const std::string rep = out + "reprojection_error_data.yml";
  if (fs::exists(rep)) {
    cv::FileStorage st(rep, cv::FileStorage::READ);
    if (!st["nb_camera_group"].empty())
      st["nb_camera_group"] >> r.nbGroups;
    cv::FileNode root = st.root();
    for (auto it = root.begin(); it != root.end(); ++it) {
      cv::FileNode g = *it;
      std::string nm = g.name();
      if (nm.rfind("camera_group_", 0) != 0)
        continue;
      RepGroup G;
      G.id = std::stoi(nm.substr(13));
      for (auto jt = g.begin(); jt != g.end(); ++jt) {
        cv::FileNode f = *jt;
        std::string fn = f.name();
        if (fn == "frame_list") {
          cv::Mat m;
          f >> m;
          for (int i = 0; i < (int)m.total(); i++)
            G.frameList.push_back(m.at<int>(i));
        } else if (fn.rfind("frame_", 0) == 0) {
          RepFrame F;
          F.frame = std::stoi(fn.substr(6));
          for (auto kt = f.begin(); kt != f.end(); ++kt) {
            cv::FileNode c = *kt;
            std::string cn = c.name();
            if (cn == "camera_list") {
              cv::Mat m;
              c >> m;
              for (int i = 0; i < (int)m.total(); i++)
                F.camList.push_back(m.at<int>(i));
            } else if (cn.rfind("camera_", 0) == 0) {
              RepCam C;
              C.cam = std::stoi(cn.substr(7));
              c["nb_pts"] >> C.nb;
              cv::Mat e;
              c["error_list"] >> e;
              for (int i = 0; i < (int)e.total(); i++)
                C.err.push_back(e.at<float>(i));
              F.cams.push_back(C);
            }
          }
          G.frames.push_back(F);
        }
      }
      r.groups.push_back(G);
    }
  }
  return r;
}

uint64_t drawSalt = 0;
Result calibrate(const World &w, const std::vector<Obs> &obs, const Options &o,
                 const std::string &dir) {
  fs::create_directories(dir);
  fs::remove_all(dir + "/out");
  writeInputs(w, obs, o, dir);
  cv::theRNG().state =
      0x12345678 + (vh::Run::instance() ? vh::Run::instance()->salt : 0) + 977 * drawSalt;
  std::string a0 = "calibrate", a1 = dir + "/config.yml";
  std::vector<char *> argv = {a0.data(), a1.data(), nullptr};
  int rc = calibrate_main(2, argv.data());
  Result r = readOutputs(w, dir, o);
  r.rc = rc;
  return r;
}

// ---------------------------------------------------------------- model ----
struct UF {
  std::vector<int> p;
  explicit UF(int n) : p(n) { std::iota(p.begin(), p.end(), 0); }
  int f(int x) { return p[x] == x ? x : p[x] = f(p[x]); }
  void u(int a, int b) { p[f(a)] = f(b); }
};
static std::string setKey(std::vector<std::set<int>> v) {
  std::sort(v.begin(), v.end());
  std::string s;
  for (auto &x : v) {
    s += "{";
    for (int i : x)
      s += std::to_string(i) + " ";
    s += "}";
  }
  return s;
}
std::string ModelOut::key() const {
  return "cams" + setKey(camGroups) + " boards" + setKey(objects);
}

ModelOut referenceModel(const World &w, const std::vector<Obs> &obs) {
  const int C = w.cams.size(), B = w.boards.size();
  std::set<int> cams, boards, frames;
  for (auto &o : obs) {
    cams.insert(o.c);
    boards.insert(o.b);
    frames.insert(o.f);
  }
  UF ob(B), cg(C);
  // stage 1: boards sharing an image form an object
  for (auto &a : obs)
    for (auto &b : obs)
      if (a.c == b.c && a.f == b.f)
        ob.u(a.b, b.b);
  // stage 2: cameras seeing the same object in the same frame form a group
  {
    UF n = cg;
    for (auto &a : obs)
      for (auto &b : obs)
        if (a.f == b.f && a.c != b.c && ob.f(a.b) == ob.f(b.b))
          n.u(a.c, b.c);
    cg = n;
  }
  auto mergeObjects = [&]() {
    UF n = ob;
    for (auto &a : obs)
      for (auto &b : obs)
        if (a.f == b.f && cg.f(a.c) == cg.f(b.c))
          n.u(a.b, b.b);
    ob = n;
  };
  // stage 3: objects seen by one group in one frame merge
  mergeObjects();
  // stage 4: groups linked by some pair of objects seen in more than 3 frames
  auto objObs = [&]() { // distinct (cam, frame, object)
    std::set<std::array<int, 3>> s;
    for (auto &a : obs)
      s.insert({a.c, a.f, ob.f(a.b)});
    return s;
  };
  {
    auto s = objObs();
    std::set<int> groups;
    for (int c : cams)
      groups.insert(cg.f(c));
    UF n = cg;
    for (int g1 : groups)
      for (int g2 : groups)
        if (g1 != g2) {
          std::map<std::pair<int, int>, std::set<int>> fr;
          for (auto &x : s)
            for (auto &y : s)
              if (x[1] == y[1] && cg.f(x[0]) == g1 && cg.f(y[0]) == g2)
                fr[std::make_pair(x[2], y[2])].insert(x[1]);
          bool linked = false;
          for (auto &k : fr)
            linked |= k.second.size() > 3;
          if (linked)
            n.u(g1, g2);
        }
    cg = n;
  }
  // stage 5: merge objects again with the final groups
  mergeObjects();
  ModelOut m;
  std::map<int, std::set<int>> a, b;
  for (int c : cams)
    a[cg.f(c)].insert(c);
  for (int x : boards)
    b[ob.f(x)].insert(x);
  for (auto &x : a)
    m.camGroups.push_back(x.second);
  for (auto &x : b)
    m.objects.push_back(x.second);
  return m;
}

ModelOut resultPartition(const Result &r) {
  ModelOut m;
  std::map<int, std::set<int>> g;
  for (size_t c = 0; c < r.cams.size(); c++)
    if (r.cams[c].present)
      g[r.cams[c].group].insert((int)c);
  for (auto &x : g)
    m.camGroups.push_back(x.second);
  for (auto &o : r.objs) {
    std::set<int> s;
    for (int i = 0; i < o.second.pts.cols; i++)
      s.insert((int)std::lround(o.second.pts.at<float>(3, i)));
    m.objects.push_back(s);
  }
  return m;
}

std::string compareWithTruth(const World &w, const std::vector<Obs> &obs,
                             const Result &r, double tol) {
  (void)obs;
  // cameras: pose expressed in the reference (lowest index) camera of the group
  std::map<int, int> ref;
  for (size_t c = 0; c < r.cams.size(); c++)
    if (r.cams[c].present && !ref.count(r.cams[c].group))
      ref[r.cams[c].group] = (int)c;
  for (size_t c = 0; c < r.cams.size(); c++)
    if (r.cams[c].present) {
      int rc = ref[r.cams[c].group];
      Pose truth = w.relCam(rc, (int)c).inv();
      double da = rotAngle(truth.R, r.cams[c].pose.R),
             dt = transErr(truth, r.cams[c].pose);
      if (da > tol || dt > tol)
        return vh::cat("camera ", c, " relative to camera ", rc,
                       ": rotation error ", da, " rad, translation error ", dt);
    }
  // objects: points in the frame of the reference (lowest index) board
  for (auto &o : r.objs) {
    const cv::Mat &P = o.second.pts;
    if (P.rows != 5)
      return vh::cat("object ", o.first, " has ", P.rows, " rows");
    int rb = 1 << 20;
    std::set<std::pair<int, int>> seen;
    for (int i = 0; i < P.cols; i++)
      rb = std::min(rb, (int)std::lround(P.at<float>(3, i)));
    for (int i = 0; i < P.cols; i++) {
      int b = (int)std::lround(P.at<float>(3, i)),
          k = (int)std::lround(P.at<float>(4, i));
      if (b < 0 || b >= (int)w.boards.size() || k < 0 ||
          k >= w.boards[b].nPts())
        return vh::cat("object ", o.first, " refers to board ", b, " point ", k);
      if (!seen.insert({b, k}).second)
        return vh::cat("object ", o.first, " lists board ", b, " point ", k,
                       " twice");
      cv::Vec3d x = w.relBoard(rb, b)(w.boards[b].pt(k));
      double e = cv::norm(x - cv::Vec3d(P.at<float>(0, i), P.at<float>(1, i),
                                        P.at<float>(2, i)));
      if (!(e < tol))
        return vh::cat("object ", o.first, " board ", b, " point ", k,
                       " is off by ", e);
    }
    for (auto &s : seen)
      for (int k = 0; k < w.boards[s.first].nPts(); k++)
        if (!seen.count({s.first, k}))
          return vh::cat("object ", o.first, " misses board ", s.first,
                         " point ", k);
  }
  return "";
}

// lowest camera of each written group
static std::map<int, int> referenceCameras(const Result &r) {
  std::map<int, int> ref;
  for (size_t c = 0; c < r.cams.size(); c++)
    if (r.cams[c].present && !ref.count(r.cams[c].group))
      ref[r.cams[c].group] = (int)c;
  return ref;
}
static std::map<int, int> objectOfBoard(const Result &r) {
  std::map<int, int> m;
  for (auto &o : r.objs)
    for (int i = 0; i < o.second.pts.cols; i++)
      m[(int)std::lround(o.second.pts.at<float>(3, i))] = o.first;
  return m;
}
static Pose poseColumn(const cv::Mat &m, int j) {
  return make(m.at<double>(0, j), m.at<double>(1, j), m.at<double>(2, j), m.at<double>(3, j),
              m.at<double>(4, j), m.at<double>(5, j));
}

std::string comparePoses(const World &w, const std::vector<Obs> &obs, const Result &r,
                         double tol) {
  auto ref = referenceCameras(r);
  auto of = objectOfBoard(r);
  std::map<int, std::set<std::pair<int, int>>> images; // object -> (camera, frame)
  std::map<int, int> refBoard;
  for (auto &x : of)
    if (!refBoard.count(x.second))
      refBoard[x.second] = x.first;
  for (auto &o : obs) {
    if (!of.count(o.b))
      return vh::cat("board ", o.b, " belongs to no object");
    images[of[o.b]].insert({o.c, o.f});
  }
  for (auto &o : r.objs) {
    const cv::Mat &m = o.second.poses;
    const auto &im = images[o.first];
    if (m.rows != 6 || m.type() != CV_64F)
      return vh::cat("object ", o.first, ": the poses are not 6 rows of numbers");
    if (m.cols != (int)im.size())
      return vh::cat("object ", o.first, ": ", m.cols, " poses for ", im.size(), " images");
    std::vector<char> used(m.cols, 0);
    for (auto &i : im) {
      const CamOut &cam = r.cams[i.first];
      if (!cam.present)
        return vh::cat("camera ", i.first, " not written");
      Pose truth = w.camFromBoard(ref[cam.group], i.second, refBoard[o.first]);
      int best = -1;
      double err = 1e18;
      for (int j = 0; j < m.cols; j++)
        if (!used[j]) {
          Pose p = poseColumn(m, j);
          double e = std::max(rotAngle(p.R, truth.R), transErr(p, truth));
          if (e < err)
            err = e, best = j;
        }
      if (best < 0 || !(err < tol))
        return vh::cat("object ", o.first, " seen by camera ", i.first, " in frame ", i.second,
                       ": the nearest unused written pose is off by ", err);
      used[best] = 1;
    }
  }
  return "";
}

std::string checkReport(const World &w, const std::vector<Obs> &obs, const Result &r, double tol,
                        double *mean) {
  auto of = objectOfBoard(r);
  std::map<std::pair<int, int>, cv::Vec3d> pts; // (board, corner)
  for (auto &o : r.objs)
    for (int i = 0; i < o.second.pts.cols; i++) {
      const cv::Mat &P = o.second.pts;
      pts[{(int)std::lround(P.at<float>(3, i)), (int)std::lround(P.at<float>(4, i))}] = {
          P.at<float>(0, i), P.at<float>(1, i), P.at<float>(2, i)};
    }
  // expected errors: camera, frame -> errors
  std::map<std::pair<int, int>, std::vector<double>> want;
  std::map<std::array<int, 3>, std::vector<const Obs *>> images; // camera, frame, object
  for (auto &o : obs) {
    if (!of.count(o.b))
      return vh::cat("board ", o.b, " belongs to no object");
    images[{o.c, o.f, of[o.b]}].push_back(&o);
  }
  double sum = 0;
  for (auto &im : images) {
    const CamOut &q = r.cams[im.first[0]];
    if (!q.present)
      return vh::cat("camera ", im.first[0], " not written");
    Cam cam = w.cams[im.first[0]];
    cam.fx = q.K.at<double>(0, 0), cam.fy = q.K.at<double>(1, 1);
    cam.u0 = q.K.at<double>(0, 2), cam.v0 = q.K.at<double>(1, 2);
    for (size_t i = 0; i < cam.d.size(); i++)
      cam.d[i] = q.D.at<double>((int)i);
    const Pose toCam = q.pose.inv();
    const cv::Mat &poses = r.objs.at(im.first[2]).poses;
    std::vector<double> best;
    double bestSum = 1e300;
    for (int j = 0; j < poses.cols; j++) {
      Pose p = toCam * poseColumn(poses, j);
      std::vector<double> e;
      double s = 0;
      for (auto *o : im.second)
        for (size_t i = 0; i < o->ids.size(); i++) {
          cv::Vec2d g = projectModel(cam, p(pts[{o->b, o->ids[i]}]));
          e.push_back(std::hypot(g[0] - o->px[i].x, g[1] - o->px[i].y));
          s += e.back();
        }
      if (s < bestSum)
        bestSum = s, best = e;
    }
    if (best.empty())
      return vh::cat("object ", im.first[2], " has no written pose");
    sum += bestSum / best.size();
    auto &v = want[{im.first[0], im.first[1]}];
    v.insert(v.end(), best.begin(), best.end());
  }
  if (mean)
    *mean = sum / images.size();
  // the report itself
  std::set<std::pair<int, int>> seen;
  std::set<int> gids;
  for (auto &c : r.cams)
    if (c.present)
      gids.insert(c.group);
  if (r.nbGroups != (int)r.groups.size() || r.groups.size() != gids.size())
    return vh::cat(r.nbGroups, " camera groups announced, ", r.groups.size(), " listed, ",
                   gids.size(), " in the camera file");
  for (auto &G : r.groups) {
    if (!gids.count(G.id))
      return vh::cat("unknown camera group ", G.id);
    std::vector<int> fl;
    for (auto &F : G.frames) {
      fl.push_back(F.frame);
      std::vector<int> cl;
      for (auto &k : F.cams) {
        std::string at = vh::cat("group ", G.id, " frame ", F.frame, " camera ", k.cam, ": ");
        cl.push_back(k.cam);
        if (k.cam < 0 || k.cam >= (int)r.cams.size() || r.cams[k.cam].group != G.id)
          return at + "camera of another group";
        if (!seen.insert({k.cam, F.frame}).second)
          return at + "reported twice";
        auto it = want.find({k.cam, F.frame});
        if (it == want.end())
          return at + "nothing was observed there";
        if (k.nb != (int)k.err.size() || k.nb != (int)it->second.size())
          return vh::cat(at, k.nb, " points and ", k.err.size(), " errors for ",
                         it->second.size(), " corners");
        std::vector<double> a(k.err.begin(), k.err.end()), b = it->second;
        std::sort(a.begin(), a.end());
        std::sort(b.begin(), b.end());
        for (size_t i = 0; i < a.size(); i++)
          if (!(std::abs(a[i] - b[i]) < tol + 1e-4 * b[i]))
            return vh::cat(at, "error ", a[i], " instead of ", b[i]);
      }
      std::vector<int> got = F.camList;
      std::sort(got.begin(), got.end());
      std::sort(cl.begin(), cl.end());
      if (got != cl)
        return vh::cat("group ", G.id, " frame ", F.frame, ": camera_list does not match");
    }
    std::vector<int> got = G.frameList;
    std::sort(got.begin(), got.end());
    std::sort(fl.begin(), fl.end());
    if (got != fl)
      return vh::cat("group ", G.id, ": frame_list does not match");
  }
  for (auto &x : want)
    if (!seen.count(x.first))
      return vh::cat("camera ", x.first.first, " frame ", x.first.second, " is not reported");
  return "";
}

std::string predict(const World &w, const std::vector<Obs> &obs, const Result &r,
                    std::vector<std::vector<cv::Vec2d>> &out) {
  auto of = objectOfBoard(r);
  std::map<std::pair<int, int>, cv::Vec3d> pts;
  for (auto &o : r.objs)
    for (int i = 0; i < o.second.pts.cols; i++) {
      const cv::Mat &P = o.second.pts;
      pts[{(int)std::lround(P.at<float>(3, i)), (int)std::lround(P.at<float>(4, i))}] = {
          P.at<float>(0, i), P.at<float>(1, i), P.at<float>(2, i)};
    }
  std::map<std::array<int, 3>, std::vector<size_t>> images; // camera, frame, object
  for (size_t k = 0; k < obs.size(); k++) {
    if (!of.count(obs[k].b))
      return vh::cat("board ", obs[k].b, " belongs to no object");
    images[{obs[k].c, obs[k].f, of[obs[k].b]}].push_back(k);
  }
  out.assign(obs.size(), {});
  for (auto &im : images) {
    const CamOut &q = r.cams[im.first[0]];
    if (!q.present)
      return vh::cat("camera ", im.first[0], " not written");
    Cam cam = w.cams[im.first[0]];
    cam.fx = q.K.at<double>(0, 0), cam.fy = q.K.at<double>(1, 1);
    cam.u0 = q.K.at<double>(0, 2), cam.v0 = q.K.at<double>(1, 2);
    for (size_t i = 0; i < cam.d.size(); i++)
      cam.d[i] = q.D.at<double>((int)i);
    const Pose toCam = q.pose.inv();
    const cv::Mat &poses = r.objs.at(im.first[2]).poses;
    double bestSum = 1e300;
    for (int j = 0; j < poses.cols; j++) {
      Pose p = toCam * poseColumn(poses, j);
      std::vector<std::vector<cv::Vec2d>> g;
      double s = 0;
      for (size_t k : im.second) {
        g.emplace_back();
        for (size_t i = 0; i < obs[k].ids.size(); i++) {
          g.back().push_back(projectModel(cam, p(pts[{obs[k].b, obs[k].ids[i]}])));
          s += std::hypot(g.back()[i][0] - obs[k].px[i].x, g.back()[i][1] - obs[k].px[i].y);
        }
      }
      if (s < bestSum) {
        bestSum = s;
        for (size_t n = 0; n < im.second.size(); n++)
          out[im.second[n]] = g[n];
      }
    }
    if (bestSum == 1e300)
      return vh::cat("object ", im.first[2], " has no written pose");
  }
  return "";
}
void disturb(std::vector<Obs> &obs, int pattern, double amplitude) {
  for (auto &o : obs)
    for (size_t i = 0; i < o.ids.size(); i++) {
      uint64_t h = vh::fnv(vh::cat(o.c, ",", o.f, ",", o.b, ",", o.ids[i], ",", pattern));
      h ^= h >> 29;
      o.px[i].x += (float)(amplitude * ((int)(h % 17) - 8) / 8.0);
      o.px[i].y += (float)(amplitude * ((int)(h / 17 % 17) - 8) / 8.0);
    }
}

void quiet() {
  if (vh::Run::instance())
    vh::Run::instance()->retries = 2;
  boost::log::core::get()->set_logging_enabled(false);
  cv::utils::logging::setLogLevel(cv::utils::logging::LOG_LEVEL_SILENT);
  cv::setNumThreads(1);
  if (!freopen("/dev/null", "w", stdout))
    abort();
}
std::string tempDir(const vh::Run &run) {
  fs::create_directories(run.scratch);
  return run.scratch;
}
void cleanDir(const std::string &d) { fs::remove_all(d); }
} // namespace world
