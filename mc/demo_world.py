"""Tiny synthetic multi-camera world for the demonstrations (stdlib only)."""
import math
import os
import re
import shutil
import subprocess
import tempfile

EXE = os.path.join(os.getcwd(), "_build/apps/calibrate/calibrate")


def mul(A, B):
    return [[sum(A[i][k] * B[k][j] for k in range(4)) for j in range(4)] for i in range(4)]


def inv(T):
    R = [[T[j][i] for j in range(3)] for i in range(3)]
    t = [-sum(R[i][k] * T[k][3] for k in range(3)) for i in range(3)]
    return [R[i] + [t[i]] for i in range(3)] + [[0, 0, 0, 1]]


def pose(rx, ry, rz, x, y, z):
    th = math.sqrt(rx * rx + ry * ry + rz * rz)
    if th < 1e-12:
        R = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
    else:
        k = (rx / th, ry / th, rz / th)
        K = [[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]]
        s, c = math.sin(th), 1 - math.cos(th)
        R = [[(i == j) + s * K[i][j] + c * sum(K[i][q] * K[q][j] for q in range(3))
              for j in range(3)] for i in range(3)]
    return [R[0] + [x], R[1] + [y], R[2] + [z], [0, 0, 0, 1]]


def apply(T, p):
    return [sum(T[i][k] * p[k] for k in range(3)) + T[i][3] for i in range(3)]


def diff(A, B):
    """largest difference between two 4x4 poses"""
    return max(abs(A[i][j] - B[i][j]) for i in range(3) for j in range(4))


CT = [(0.05, -0.08, 0.03, 0.02, -0.03, 0.05), (-0.06, 0.16, -0.09, -0.25, 0.06, 0.03),
      (0.14, -0.11, 0.12, 0.21, 0.10, -0.07), (-0.12, -0.15, 0.07, 0.12, -0.22, 0.10),
      (0.09, 0.10, -0.14, -0.14, 0.17, 0.11), (0.02, 0.18, 0.11, -0.3, -0.1, -0.04)]
ROLL = [0.3, 1.7, -2.4, 0.9, 2.8, -1.2]
BT = [(0.55, -0.45, 0.10, -0.35, -0.30, 0.10), (-0.50, 0.40, -0.30, 0.05, -0.25, 0.05),
      (0.45, 0.60, 0.50, -0.30, 0.05, -0.10), (-0.60, -0.35, 0.20, 0.07, 0.07, 0.00),
      (0.35, -0.65, -0.40, -0.15, -0.15, -0.2), (-0.40, 0.55, 0.70, -0.1, 0.1, 0.15)]
MT = [(0.0, 0.0, 0.0), (0.30, 0.0, 0.15), (-0.25, 0.2, -0.2), (0.1, -0.35, 0.3),
      (0.22, 0.28, -0.4), (-0.3, -0.2, 0.1), (0.05, 0.33, 0.5), (-0.15, 0.1, -0.6),
      (0.27, -0.17, 0.4), (-0.2, 0.31, 0.25), (0.33, 0.12, -0.1), (-0.08, -0.3, -0.45)]


class World:
    def __init__(self, ncam, nboard, nframe):
        self.T = [mul(pose(0, 0, ROLL[c % 6] + 0.21 * (c // 6), 0.02 * (c // 6), 0, 0),
                      pose(*CT[c % 6])) for c in range(ncam)]
        self.model = [0] * ncam
        self.f = [(700 + 13 * c, 690 + 17 * c, 640 + 5 * c, 480 - 4 * c) for c in range(ncam)]
        self.d = [[-0.06 + 0.01 * c, 0.02, 0.001, -0.0008, 0.004] for c in range(ncam)]
        self.size = [(1280 + 16 * c, 960 + 8 * c) for c in range(ncam)]
        self.B = [pose(*BT[b % 6]) for b in range(nboard)]
        self.nx = [5 + b % 2 for b in range(nboard)]
        self.ny = [4 + b % 3 // 2 for b in range(nboard)]
        self.sq = [0.13 + 0.01 * (b % 3) for b in range(nboard)]
        self.M = []
        for f in range(nframe):
            q, z = MT[f % 12], f // 12
            self.M.append(pose(q[0] + 0.04 * z, q[1] - 0.03 * z, q[2] + 0.05 * z,
                               0.06 * ((f * 3) % 5 - 2) + 0.01 * z,
                               0.05 * ((f * 2) % 5 - 2) - 0.01 * z,
                               1.15 + 0.07 * ((f * 5) % 4) + 0.02 * z))
        self.opt = dict(fix_intrinsic=1, he_approach=0, quaternion_averaging=1,
                        ransac_threshold=3, number_iterations=200)
        self.extra = ""

    def pts(self, b):
        n = self.nx[b] - 1
        return [((k % n) * self.sq[b], (k // n) * self.sq[b], 0.0)
                for k in range(n * (self.ny[b] - 1))]

    def project(self, c, p):
        x, y = p[0] / p[2], p[1] / p[2]
        fx, fy, u, v = self.f[c]
        d = self.d[c]
        if self.model[c] == 0:
            r2 = x * x + y * y
            k = 1 + d[0] * r2 + d[1] * r2 ** 2 + d[4] * r2 ** 3
            xd = x * k + 2 * d[2] * x * y + d[3] * (r2 + 2 * x * x)
            yd = y * k + d[2] * (r2 + 2 * y * y) + 2 * d[3] * x * y
        else:
            r = math.hypot(x, y)
            th = math.atan(r)
            td = th * (1 + d[0] * th ** 2 + d[1] * th ** 4 + d[2] * th ** 6 + d[3] * th ** 8)
            s = td / r if r > 1e-9 else 1.0
            xd, yd = x * s, y * s
        return (fx * xd + u, fy * yd + v)

    def see(self, c, f, b, ids=None):
        """one board view: (camera, frame, board, ids, pixels)"""
        P = mul(mul(self.T[c], self.M[f]), self.B[b])
        px = [self.project(c, apply(P, q)) for q in self.pts(b)]
        ids = list(range(len(px))) if ids is None else ids
        return [c, f, b, ids, [px[i] for i in ids]]

    def rel(self, ref, c):
        """pose of camera c in the frame of camera ref, as written to file"""
        return mul(self.T[ref], inv(self.T[c]))

    def run(self, obs, tmp=None):
        """runs the calibrate application; returns {file name: text}"""
        d = tempfile.mkdtemp()
        try:
            n = len(self.T)
            with open(d + "/kp.yml", "w") as o:
                o.write("%%YAML:1.0\n---\nnb_camera: %d\n" % n)
                for c in range(n):
                    v = [x for x in obs if x[0] == c]
                    o.write("camera_%d:\n" % c)
                    o.write("   img_width: %d\n   img_height: %d\n" % self.size[c])
                    o.write("   frame_idxs: %s\n" % [x[1] for x in v])
                    o.write("   frame_paths: [ %s ]\n" % ", ".join('"img%d"' % x[1] for x in v))
                    o.write("   board_idxs: %s\n" % [x[2] for x in v])
                    o.write("   pts_2d:\n" if v else "   pts_2d: []\n")
                    for x in v:
                        o.write("      - [ %s ]\n" % ", ".join(
                            "%.9g, %.9g" % (p[0], p[1]) for p in x[4]))
                    o.write("   charuco_idxs:\n" if v else "   charuco_idxs: []\n")
                    for x in v:
                        o.write("      - %s\n" % x[3])
            with open(d + "/cams.yml", "w") as o:
                o.write("%%YAML:1.0\n---\nnb_camera: %d\n" % n)
                for c in range(n):
                    fx, fy, u, v = self.f[c]
                    o.write("camera_%d:\n   camera_matrix: !!opencv-matrix\n      rows: 3\n"
                            "      cols: 3\n      dt: d\n      data: [ %.9g, 0., %.9g, 0., %.9g,"
                            " %.9g, 0., 0., 1. ]\n" % (c, fx, u, fy, v))
                    o.write("   distortion_vector: !!opencv-matrix\n      rows: 1\n"
                            "      cols: %d\n      dt: d\n      data: [ %s ]\n" % (
                                len(self.d[c]), ", ".join("%.9g" % q for q in self.d[c])))
            with open(d + "/config.yml", "w") as o:
                o.write("%YAML:1.0\n---\nnumber_x_square: 5\nnumber_y_square: 4\n"
                        "resolution_x: 500\nresolution_y: 500\nlength_square: 0.04\n"
                        "length_marker: 0.03\nboards_index: []\nsquare_size: 0.1\n")
                o.write("number_board: %d\nnumber_camera: %d\n" % (len(self.B), n))
                o.write("number_x_square_per_board: %s\n" % self.nx)
                o.write("number_y_square_per_board: %s\n" % self.ny)
                o.write("square_size_per_board: %s\n" % self.sq)
                o.write("distortion_model: 0\ndistortion_per_camera: %s\n" % self.model)
                o.write("refine_corner: 1\nmin_perc_pts: 0.5\nroot_path: \"%s/images\"\n"
                        "cam_prefix: \"Cam_\"\nsave_detection: 0\nsave_reprojection: 0\n"
                        "camera_params_file_name: \"\"\n" % d)
                o.write("cam_params_path: \"%s/cams.yml\"\nkeypoints_path: \"%s/kp.yml\"\n"
                        "save_path: \"%s/out\"\n" % (d, d, d))
                for k, v in self.opt.items():
                    o.write("%s: %s\n" % (k, v))
                o.write(self.extra)
            r = subprocess.run([EXE, d + "/config.yml"], stdout=subprocess.DEVNULL,
                               stderr=subprocess.DEVNULL, timeout=120)
            out = {"rc": r.returncode}
            if os.path.isdir(d + "/out"):
                for n in os.listdir(d + "/out"):
                    if os.path.isfile(d + "/out/" + n):
                        out[n] = open(d + "/out/" + n, errors="replace").read()
            return out
        finally:
            shutil.rmtree(d)


def num(s):
    return float(s.replace(".Nan", "nan").replace(".Inf", "inf"))


def mats(text, name):
    """all matrices called `name`, as (rows, cols, flat data)"""
    out = []
    for m in re.finditer(r"\b%s: !!opencv-matrix\s+rows: (\d+)\s+cols: (\d+)\s+dt: \S+\s+data: "
                         r"\[([^\]]*)\]" % name, text):
        out.append((int(m[1]), int(m[2]), [num(x) for x in m[3].replace("\n", " ").split(",")
                                           if x.strip()]))
    return out


def cameras(out, name="calibrated_cameras_data.yml"):
    """{camera: dict(group, pose, K, D)}"""
    res = {}
    t = out.get(name, "")
    for part in re.split(r"^camera_(?=\d+:)", t, flags=re.M)[1:]:
        c = int(part.split(":")[0])
        g = re.search(r"camera_group: (-?\d+)", part)
        P = mats(part, "camera_pose_matrix")[0][2]
        res[c] = dict(group=int(g[1]), pose=[P[0:4], P[4:8], P[8:12], P[12:16]],
                      K=mats(part, "camera_matrix")[0][2],
                      D=mats(part, "distortion_vector")[0][2])
    return res


def objects(out):
    """{object: list of (x, y, z, board, corner)}"""
    res = {}
    t = out.get("calibrated_objects_data.yml", "")
    for part in re.split(r"^object_(?=\d+:)", t, flags=re.M)[1:]:
        o = int(part.split(":")[0])
        r, c, v = mats(part, "points")[0]
        res[o] = [tuple(v[i * c + j] for i in range(r)) for j in range(c)]
    return res
