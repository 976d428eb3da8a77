#pragma once
// Core of the monitoring harness: seeded RNG, an independent model of timed
// automata / timed words on an integer tick grid, the pointwise oracle, the
// textual case format used by --replay, and the crash journal.
//
// Time grid: 1 time unit = 8 ticks.  Events lie on multiples of 4 ticks
// (half units).  Query points (t,t') lie on {4k,4k+1,4k+2}: with all guard
// constants integral, every pair (t,t') is region-equivalent to one of those.
#include <algorithm>
#include <array>
#include <cassert>
#include <climits>
#include <cmath>
#include <csetjmp>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <numeric>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

#include <fcntl.h>
#include <errno.h>
#include <signal.h>
#include <sys/mman.h>
#include <time.h>
#include <unistd.h>

namespace mon {

constexpr int UNIT = 8;      // ticks per time unit
constexpr int EV = 4;        // event grid, in ticks
inline double sec(long ticks) { return double(ticks) / UNIT; }

// ---------------------------------------------------------------- RNG
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ULL + 0x1234567ULL) {
    next();
    next();
  }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
  }
  int below(int n) { return n <= 0 ? 0 : int(next() % uint64_t(n)); }
  int range(int lo, int hi) { return lo + below(hi - lo + 1); }
  bool chance(int percent) { return below(100) < percent; }
  template <class T> void shuffle(std::vector<T> &v) {
    for (size_t i = v.size(); i > 1; i--)
      std::swap(v[i - 1], v[below(int(i))]);
  }
  template <class T> const T &pick(const std::vector<T> &v) {
    return v[below(int(v.size()))];
  }
};

inline uint64_t mix(uint64_t a, uint64_t b) {
  Rng r(a * 1000003ULL + b);
  return r.next();
}

// ---------------------------------------------------------------- model
enum Op { LT = 0, LE = 1, GE = 2, GT = 3 };
inline const char *opName(int o) {
  static const char *n[] = {"<", "<=", ">=", ">"};
  return n[o];
}
struct Guard {
  int x;
  int op;
  int c;
};
inline bool sat(long v /*ticks*/, const Guard &g) {
  const long c = long(g.c) * UNIT;
  switch (g.op) {
  case LT:
    return v < c;
  case LE:
    return v <= c;
  case GE:
    return v >= c;
  default:
    return v > c;
  }
}
struct Edge {
  int src;
  char label; // 0 = epsilon
  int dst;
  std::vector<Guard> guard;
  std::vector<int> resets;
};
struct MTA {
  int n = 0;
  int clocks = 0;
  std::vector<char> init, match;
  std::vector<Edge> edges;
  std::vector<int> perm; // allocation order of states (layout diversity)
  int maxConst() const {
    int m = 0;
    for (auto &e : edges)
      for (auto &g : e.guard)
        m = std::max(m, g.c);
    return m;
  }
  bool hasEps() const {
    for (auto &e : edges)
      if (e.label == 0)
        return true;
    return false;
  }
  std::string str() const {
    std::ostringstream o;
    o << "ta " << n << " " << clocks << "\n";
    o << "perm";
    for (int p : perm)
      o << " " << p;
    o << "\ninit";
    for (int i = 0; i < n; i++)
      if (init[i])
        o << " " << i;
    o << "\nmatch";
    for (int i = 0; i < n; i++)
      if (match[i])
        o << " " << i;
    o << "\n";
    for (auto &e : edges) {
      o << "edge " << e.src << " " << int(e.label) << " " << e.dst << " g";
      for (auto &g : e.guard)
        o << " " << g.x << " " << g.op << " " << g.c;
      o << " r";
      for (int r : e.resets)
        o << " " << r;
      o << "\n";
    }
    o << "endta\n";
    return o.str();
  }
};
inline bool parseMTA(std::istream &in, MTA &a) {
  std::string line;
  bool started = false;
  while (std::getline(in, line)) {
    std::istringstream s(line);
    std::string k;
    s >> k;
    if (k == "ta") {
      started = true;
      a = MTA();
      s >> a.n >> a.clocks;
      a.init.assign(a.n, 0);
      a.match.assign(a.n, 0);
    } else if (!started) {
      continue;
    } else if (k == "perm") {
      int v;
      while (s >> v)
        a.perm.push_back(v);
    } else if (k == "init" || k == "match") {
      int v;
      while (s >> v)
        (k == "init" ? a.init : a.match)[v] = 1;
    } else if (k == "edge") {
      Edge e;
      int lab;
      s >> e.src >> lab >> e.dst;
      e.label = char(lab);
      std::string t;
      s >> t; // g
      while (s >> t && t != "r") {
        Guard g;
        g.x = std::stoi(t);
        s >> g.op >> g.c;
        e.guard.push_back(g);
      }
      int r;
      while (s >> r)
        e.resets.push_back(r);
      a.edges.push_back(e);
    } else if (k == "endta") {
      return true;
    }
  }
  return false;
}

struct Ev {
  char c;
  long t; // ticks
};
using Word = std::vector<Ev>;
inline std::string wordStr(const Word &w) {
  std::ostringstream o;
  o << "word";
  for (auto &e : w)
    o << " " << int(e.c) << ":" << e.t;
  o << "\n";
  return o.str();
}
inline Word parseWord(const std::string &line) {
  Word w;
  std::istringstream s(line);
  std::string k;
  s >> k;
  while (s >> k) {
    Ev e;
    e.c = char(std::stoi(k));
    e.t = std::stol(k.substr(k.find(':') + 1));
    w.push_back(e);
  }
  return w;
}
inline std::string prettyWord(const Word &w) {
  std::ostringstream o;
  for (auto &e : w)
    o << e.c << "@" << sec(e.t) << " ";
  return o.str();
}

// ---------------------------------------------------------------- oracle
// Configurations of the model: location + absolute reset time of each clock.
struct Cfg {
  int s;
  std::vector<long> r;
  bool operator<(const Cfg &o) const {
    return s != o.s ? s < o.s : r < o.r;
  }
};
struct Index {
  const MTA &a;
  std::vector<std::vector<const Edge *>> out;
  explicit Index(const MTA &a) : a(a), out(a.n) {
    for (auto &e : a.edges)
      out[e.src].push_back(&e);
  }
  bool step(const Cfg &c, const Edge &e, long now, Cfg &res) const {
    for (auto &g : e.guard)
      if (!sat(now - c.r[g.x], g))
        return false;
    res = c;
    res.s = e.dst;
    for (int r : e.resets)
      res.r[r] = now;
    return true;
  }
  bool enabled(const Cfg &c, const Edge &e, long now) const {
    for (auto &g : e.guard)
      if (!sat(now - c.r[g.x], g))
        return false;
    return true;
  }
};

// All query ticks strictly below `hi` / up to and including `hi`.
inline std::vector<long> queryTicks(long lo, long hi) {
  std::vector<long> q;
  for (long b = lo; b <= hi; b += EV)
    for (long d = 0; d < 3; d++)
      if (b + d <= hi)
        q.push_back(b + d);
  return q;
}



// Every (t,t') of the grid that is a match of `a` in `w`.
//  Dollar: the trimmed word (events strictly inside (t,t'), shifted by -t)
//          followed by `$` at t'-t is accepted.
//  Plain:  the events strictly inside (t,t') followed by the next event,
//          consumed at t', are accepted.
//  Mixed:  Dollar, or t' is the time of an event and the events in (t,t'] are
//          accepted.
enum class Mode { Dollar, Plain, Mixed };
struct MatchSet {
  std::set<std::pair<long, long>> pts;   // matching (t,t')
  std::set<std::pair<long, long>> zeroEv; // those without an event inside
  size_t starts = 0, checked = 0, multi = 0, nonzero = 0;
};
inline bool acceptsBy(const Index &ix, const std::set<Cfg> &cur, char label, long at) {
  for (auto &c : cur)
    for (auto *e : ix.out[c.s])
      if (e->label == label && ix.a.match[e->dst] && ix.enabled(c, *e, at))
        return true;
  return false;
}
inline std::set<Cfg> stepAll(const Index &ix, const std::set<Cfg> &cur, char label, long at) {
  std::set<Cfg> nxt;
  Cfg r;
  for (auto &c : cur)
    for (auto *e : ix.out[c.s])
      if (e->label == label && label != 0 && ix.step(c, *e, at, r))
        nxt.insert(r);
  return nxt;
}
inline std::set<Cfg> initCfgs(const MTA &a, long t) {
  std::set<Cfg> cur;
  for (int s = 0; s < a.n; s++)
    if (a.init[s])
      cur.insert(Cfg{s, std::vector<long>(a.clocks, t)});
  return cur;
}
inline MatchSet oracle(const MTA &a, const Word &w, Mode mode, const std::vector<long> &qs) {
  MatchSet res;
  Index ix(a);
  for (long t : qs) {
    if (w.empty() || t >= w.back().t)
      break;
    res.starts++;
    size_t i = 0;
    while (w[i].t <= t)
      i++;
    // i = first event strictly after t
    std::set<Cfg> cur = initCfgs(a, t);
    for (size_t j = i; j <= w.size() && !cur.empty(); j++) {
      const long lo = j == i ? t : w[j - 1].t;                   // exclusive
      const long hi = j < w.size() ? w[j].t : qs.back();         // inclusive
      if (mode != Mode::Plain || j < w.size()) {
        const char want = mode == Mode::Plain ? w[j].c : '$';
        // an interval (t,t) is degenerate: it trims to the empty word
        for (auto it = j == i ? std::lower_bound(qs.begin(), qs.end(), lo)
                              : std::upper_bound(qs.begin(), qs.end(), lo);
             it != qs.end() && *it <= hi; ++it) {
          res.checked++;
          if (acceptsBy(ix, cur, want, *it)) {
            res.pts.insert({t, *it});
            if (mode == Mode::Dollar || mode == Mode::Mixed || *it == t) {
              if (j == i)
                res.zeroEv.insert({t, *it});
              else
                res.nonzero++;
            } else
              res.nonzero++;
            if (j - i >= 2)
              res.multi++;
          }
        }
      }
      if (j == w.size())
        break;
      if (mode == Mode::Mixed && w[j].c != '$' && acceptsBy(ix, cur, w[j].c, w[j].t)) {
        res.pts.insert({t, w[j].t});
        res.zeroEv.erase({t, w[j].t});
        res.nonzero++;
      }
      cur = stepAll(ix, cur, w[j].c, w[j].t);
    }
  }
  return res;
}

inline double now() {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

inline std::string jsonEsc(const std::string &s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += char(c);
    } else if (c == '\n') {
      o += "\\n";
    } else if (c < 0x20 || c >= 0x7f) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else
      o += char(c);
  }
  return o + "\"";
}

// Counters reported to the driver at the end of a shard.
struct Stats {
  std::map<std::string, long> n;
  std::set<uint64_t> distinct;
  std::vector<std::string> samples;
  long &operator[](const std::string &k) { return n[k]; }
  void sample(const std::string &s) {
    if (samples.size() < 3)
      samples.push_back(s);
  }
  std::string json() const {
    std::ostringstream o;
    o << "{\"n\":{";
    bool first = true;
    for (auto &kv : n) {
      o << (first ? "" : ",") << jsonEsc(kv.first) << ":" << kv.second;
      first = false;
    }
    o << "},\"samples\":[";
    for (size_t i = 0; i < samples.size(); i++)
      o << (i ? "," : "") << jsonEsc(samples[i]);
    o << "]}";
    return o.str();
  }
};
inline uint64_t hashStr(const std::string &s) {
  uint64_t h = 1469598103934665603ULL;
  for (unsigned char c : s)
    h = (h ^ c) * 1099511628211ULL;
  return h;
}

} // namespace mon
