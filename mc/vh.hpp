// Harness support: exhaustive case enumeration, sharding, watchdog, reporting.
#pragma once
#include <array>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>
#include <vector>

namespace vh {

inline std::string jesc(const std::string &s) {
  std::string o;
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') {
      o += '\\';
      o += ch;
    } else if (ch == '\n') {
      o += "\\n";
    } else if (ch < 32 || ch > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", ch);
      o += b;
    } else
      o += ch;
  }
  return o;
}

inline uint64_t fnv(const std::string &s, uint64_t h = 1469598103934665603ull) {
  for (unsigned char ch : s) {
    h ^= ch;
    h *= 1099511628211ull;
  }
  return h;
}

// ---- deterministic std::random_device (see rng.cpp) ----
void seedRandomDevice(uint64_t seed);
uint64_t randomDeviceCalls();
// ---- contents of fresh heap memory (see heap.cpp; not in sanitizer builds) ----
void heapFill(int byte);
long heapBlocks(); // blocks and bytes handed out and not given back
long heapBytes();
void heapOrder(int mode); // where small blocks lie: 0 C library, 1 descending, 2 alternating

class Run;
class Case {
public:
  Case(Run &r, std::string id) : run(r), id(std::move(id)) {}
  void fail(const std::string &key, const std::string &msg);
  void state(const std::string &canonical); // a distinct model/implementation state
  void step(uint64_t n = 1);                 // explored transitions
  void trace(uint64_t n = 1);                // traces replayed on the implementation
  void sample(const std::string &s);
  Run &run;
  std::string id;
  int fails = 0;
};

class Run {
public:
  std::string tier = "quick", only, outPath, curPath, scratch = ".";
  int shard = 0, nshards = 1;
  std::string upto;
  std::set<std::string> skip;
  uint64_t counter = 0, executed = 0, transitions = 0, traces = 0;
  std::set<uint64_t> states;
  std::vector<std::string> samples;
  std::vector<std::array<std::string, 3>> violations, pending;
  int retries = 0, salt = 0;
  uint64_t unlucky = 0;
  double failing = 0; // CPU seconds spent on failing cases
  std::map<std::string, std::string> extra;
  std::map<std::string, int> perKey;
  int cpuLimit = 60, wallLimit = 400;
  char *cur = nullptr;
  bool thorough() const { return tier == "thorough"; }
  bool replaying() const { return !only.empty(); }

  Run(int argc, char **argv) {
    for (int i = 1; i < argc; i++) {
      std::string a = argv[i];
      auto val = [&]() -> std::string {
        if (i + 1 >= argc) {
          fprintf(stderr, "missing value for %s\n", a.c_str());
          _exit(64);
        }
        return argv[++i];
      };
      if (a == "--tier")
        tier = val();
      else if (a == "--shard") {
        if (sscanf(val().c_str(), "%d/%d", &shard, &nshards) != 2)
          _exit(64);
      } else if (a == "--case")
        only = val();
      else if (a == "--out")
        outPath = val();
      else if (a == "--cur")
        curPath = val();
      else if (a == "--scratch")
        scratch = val();
      else if (a == "--skip")
        skip.insert(val());
    }
    if (!curPath.empty()) {
      int fd = open(curPath.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
      if (fd >= 0 && ftruncate(fd, 8192) == 0) {
        cur = (char *)mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_SHARED,
                           fd, 0);
        if (cur == MAP_FAILED)
          cur = nullptr;
      }
    }
    instance() = this;
    signal(SIGPROF, onTimeout);
    signal(SIGALRM, onTimeout);
  }
  static Run *&instance() {
    static Run *r = nullptr;
    return r;
  }
  static void onTimeout(int) { _exit(97); }
  void arm() {
    struct itimerval t {};
    t.it_value.tv_sec = cpuLimit;
    setitimer(ITIMER_PROF, &t, nullptr);
    alarm(wallLimit);
  }
  void disarm() {
    struct itimerval t {};
    setitimer(ITIMER_PROF, &t, nullptr);
    alarm(0);
  }
  // true if this case belongs to this shard / replay
  bool mine(const std::string &id) {
    if (!only.empty())
      return id == only;
    return (int)(counter++ % nshards) == shard && !skip.count(id);
  }
  template <class F> void run(const std::string &id, F f) {
    if (!mine(id))
      return;
    if (cur) {
      strncpy(cur, id.c_str(), 8000);
      cur[8000] = 0;
    }
    // The code under test draws random samples. A case is judged on a fixed
    // stream; a failure is only kept if it persists for `retries` other
    // streams (an unlucky draw is not a violation).
    const clock_t t0 = clock();
    for (int attempt = 0;; attempt++) {
      pending.clear();
      Case c(*this, id);
      salt = attempt;
      seedRandomDevice(fnv(id) + 0x9E37 * attempt);
      arm();
      try {
        f(c);
      } catch (const std::exception &e) {
        c.fail("exception", std::string("uncaught exception: ") + e.what());
      }
      disarm();
      if (pending.empty()) {
        if (attempt)
          unlucky++;
        break;
      }
      if (attempt >= retries)
        break;
    }
    if (!pending.empty())
      failing += (double)(clock() - t0) / CLOCKS_PER_SEC;
    for (auto &v : pending)
      if (perKey[v[1]]++ < 25)
        violations.push_back(v);
    pending.clear();
    if (cur)
      cur[0] = 0;
    executed++;
    const bool last = !upto.empty() && id == upto;
    if (last || violations.size() > 300 || failing > 60) { // enough evidence
      if (!last)
        extra["stopped_early"] = "1";
      finish();
      fflush(nullptr);
      _exit(0);
    }
  }
  int finish() {
    if (unlucky)
      extra["unlucky_random_streams"] = std::to_string(unlucky);
    std::ofstream o(outPath.empty() ? "/dev/stdout" : outPath);
    o << "{\"executed\":" << executed << ",\"transitions\":" << transitions
      << ",\"traces\":" << traces << ",\"states\":[";
    bool first = true;
    for (auto s : states) {
      o << (first ? "" : ",") << s;
      first = false;
    }
    o << "],\"samples\":[";
    for (size_t i = 0; i < samples.size(); i++)
      o << (i ? "," : "") << "\"" << jesc(samples[i]) << "\"";
    o << "],\"extra\":{";
    first = true;
    for (auto &e : extra) {
      o << (first ? "" : ",") << "\"" << jesc(e.first) << "\":\""
        << jesc(e.second) << "\"";
      first = false;
    }
    o << "},\"violations\":[";
    for (size_t i = 0; i < violations.size(); i++)
      o << (i ? "," : "") << "[\"" << jesc(violations[i][0]) << "\",\""
        << jesc(violations[i][1]) << "\",\"" << jesc(violations[i][2])
        << "\"]";
    o << "]}\n";
    o.close();
    return 0;
  }
};

inline void Case::fail(const std::string &key, const std::string &msg) {
  if (fails++ > 4)
    return;
  run.pending.push_back({id, key, msg});
}
inline void Case::state(const std::string &s) { run.states.insert(fnv(s)); }
inline void Case::step(uint64_t n) { run.transitions += n; }
inline void Case::trace(uint64_t n) { run.traces += n; }
inline void Case::sample(const std::string &s) {
  if (run.samples.size() < 3)
    run.samples.push_back(id + ": " + s);
}

// mixed radix / subset helpers
inline bool nextDigits(std::vector<int> &d, const std::vector<int> &radix) {
  for (size_t i = 0; i < d.size(); i++) {
    if (++d[i] < radix[i])
      return true;
    d[i] = 0;
  }
  return false;
}
inline std::string digits(const std::vector<int> &d) {
  std::string s;
  for (int v : d)
    s += v < 10 ? char('0' + v) : char('a' + v - 10);
  return s;
}
template <class... A> std::string cat(A &&...a) {
  std::ostringstream o;
  o.precision(9);
  ((o << a), ...);
  return o.str();
}
} // namespace vh
