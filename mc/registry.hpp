// Reference check of the observation registries of a Calibration object.
#pragma once
#include "McCalib.hpp"
#include "vh.hpp"
#include <algorithm>

namespace registry {
struct Item {
  int c, f, b;
  std::vector<int> ids;
  std::vector<cv::Point2f> px;
  std::string path;
  bool operator<(const Item &o) const {
    return std::tie(c, f, b) < std::tie(o.c, o.f, o.b);
  }
};
inline std::string show(const Item &i) {
  return vh::cat("(camera ", i.c, ", frame ", i.f, ", board ", i.b, ")");
}
inline std::string key(const std::vector<Item> &v) {
  std::string s;
  for (auto &i : v)
    s += vh::cat(i.c, ".", i.f, ".", i.b, " ");
  return s;
}
template <class M> std::multiset<const void *> ptrs(const M &m) {
  std::multiset<const void *> s;
  for (auto &x : m)
    s.insert(x.second.lock().get());
  return s;
}
inline std::multiset<int> ms(const std::vector<int> &v) { return {v.begin(), v.end()}; }

// "" when every registry of `cal` describes exactly `want`
inline std::string verify(McCalib::Calibration &cal, std::vector<Item> want,
                          bool paths = true) {
  std::sort(want.begin(), want.end());
  std::map<std::array<int, 3>, const McCalib::BoardObs *> at;
  std::map<std::array<int, 3>, Item> exp;
  for (auto &w : want)
    exp[{w.c, w.f, w.b}] = w;
  if (cal.board_observations_.size() != want.size())
    return vh::cat(cal.board_observations_.size(), " board observations for ",
                   want.size(), " detections");
  for (auto &x : cal.board_observations_) {
    const McCalib::BoardObs *o = x.second.get();
    if (!o)
      return "null board observation";
    std::array<int, 3> k{o->camera_id_, o->frame_id_, o->board_id_};
    if (!exp.count(k))
      return vh::cat("unexpected observation camera ", k[0], " frame ", k[1],
                     " board ", k[2]);
    if (!at.insert({k, o}).second)
      return "duplicated observation " + show(exp[k]);
    const Item &w = exp[k];
    if (o->charuco_id_ != w.ids || o->pts_2d_.size() != w.px.size() ||
        !std::equal(w.px.begin(), w.px.end(), o->pts_2d_.begin()))
      return "points of observation " + show(w) + " changed";
    if (!o->valid_)
      return "observation " + show(w) + " flagged invalid";
    if (o->cam_.lock().get() != cal.cams_[w.c].get())
      return "observation " + show(w) + " linked to another camera";
    if (o->board_3d_.lock().get() != cal.boards_3d_[w.b].get())
      return "observation " + show(w) + " linked to another board";
  }
  auto sel = [&](int c, int f, int b) {
    std::multiset<const void *> s;
    for (auto &a : at)
      if ((c < 0 || a.first[0] == c) && (f < 0 || a.first[1] == f) &&
          (b < 0 || a.first[2] == b))
        s.insert(a.second);
    return s;
  };
  auto ids = [&](int c, int f, int b, int what) {
    std::multiset<int> s;
    for (auto &a : at)
      if ((c < 0 || a.first[0] == c) && (f < 0 || a.first[1] == f) &&
          (b < 0 || a.first[2] == b))
        s.insert(a.first[what]);
    return s;
  };
  auto uniq = [](std::multiset<int> m) { return std::set<int>(m.begin(), m.end()); };
  auto frames = [&](const auto &m, const std::set<int> &f, std::string who) {
    std::set<int> got;
    for (auto &x : m) {
      got.insert(x.first);
      if (x.second.lock().get() != cal.frames_[x.first].get())
        return who + " refers to a frame that is not registered";
    }
    return got == f ? std::string() : who + " has a wrong list of frames";
  };
  std::set<int> allF = uniq(ids(-1, -1, -1, 1)), gotF;
  for (auto &x : cal.frames_)
    gotF.insert(x.first);
  if (gotF != allF)
    return "wrong set of frames";
  for (auto &x : cal.cams_) {
    std::string who = vh::cat("camera ", x.first);
    if (ptrs(x.second->board_observations_) != sel(x.first, -1, -1))
      return who + " has wrong board observations";
    if (ms(x.second->vis_board_idx_) != ids(x.first, -1, -1, 2))
      return who + " has a wrong list of visible boards";
    auto e = frames(x.second->frames_, uniq(ids(x.first, -1, -1, 1)), who);
    if (!e.empty())
      return e;
  }
  for (auto &x : cal.boards_3d_) {
    std::string who = vh::cat("board ", x.first);
    if (ptrs(x.second->board_observations_) != sel(-1, -1, x.first))
      return who + " has wrong board observations";
    auto e = frames(x.second->frames_, uniq(ids(-1, -1, x.first, 1)), who);
    if (!e.empty())
      return e;
  }
  std::set<std::pair<int, int>> cf, gotCf;
  for (auto &a : at)
    cf.insert({a.first[0], a.first[1]});
  for (auto &x : cal.cams_obs_) {
    gotCf.insert(x.first);
    std::string who = vh::cat("image camera ", x.first.first, " frame ", x.first.second);
    if (!x.second)
      return who + " is null";
    if (x.second->cam_idx_ != x.first.first)
      return who + " belongs to another camera";
    if (ptrs(x.second->board_observations_) != sel(x.first.first, x.first.second, -1))
      return who + " has wrong board observations";
    if (ms(x.second->board_idx_) != ids(x.first.first, x.first.second, -1, 2))
      return who + " has a wrong list of boards";
  }
  if (cf != gotCf)
    return "wrong set of images";
  for (auto &x : cal.frames_) {
    const int f = x.first;
    std::string who = vh::cat("frame ", f);
    if (x.second->frame_idx_ != f)
      return who + " has a wrong index";
    if (ptrs(x.second->board_observations_) != sel(-1, f, -1))
      return who + " has wrong board observations";
    if (ms(x.second->boards_idx_) != ids(-1, f, -1, 2))
      return who + " has a wrong list of boards";
    std::set<int> cs = uniq(ids(-1, f, -1, 0));
    if (ms(x.second->cam_idx_) != std::multiset<int>(cs.begin(), cs.end()))
      return who + " has a wrong list of cameras";
    std::multiset<const void *> co;
    for (int c : cs)
      co.insert(cal.cams_obs_[{c, f}].get());
    if (ptrs(x.second->cam_obs_) != co)
      return who + " has wrong camera observations";
    if (paths) {
      std::set<int> pc;
      for (auto &p : x.second->frame_path_)
        pc.insert(p.first);
      if (pc != cs)
        return who + " has image paths for other cameras";
      for (auto &a : exp)
        if (a.first[1] == f &&
            x.second->frame_path_[a.first[0]].string() != a.second.path)
          return who + vh::cat(" has image path ",
                               x.second->frame_path_[a.first[0]].string(),
                               " for camera ", a.first[0]);
    }
  }
  return "";
}
} // namespace registry
