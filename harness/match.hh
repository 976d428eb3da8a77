#pragma once
// Cases, generators and judges shared by the monitors of the matching functions.
#include "gen.hh"
#include "real.hh"
#include "runner.hh"
namespace mon {

struct Case {
  Algo algo = Algo::Dollar;
  long scale = 1; // time unit multiplier applied to constants and times
  long off = 0;   // ticks added to every event
  MTA a;
  Word w; // without off / scale
};
inline bool heavy(const MTA &a);
inline const char *algoName(Algo a) {
  return a == Algo::Dollar ? "dollar" : a == Algo::Plain ? "plain" : "nn";
}
inline std::string caseStr(const Case &c) {
  std::ostringstream o;
  if (heavy(c.a))
    o << "heavy\n";
  o << "algo " << algoName(c.algo) << "\nscale " << c.scale << "\noff " << c.off << "\n"
    << c.a.str() << wordStr(c.w);
  return o.str();
}
inline bool parseCase(const std::string &text, Case &c) {
  std::istringstream in(text);
  std::string line;
  std::string ta;
  bool inTa = false;
  while (std::getline(in, line)) {
    std::istringstream s(line);
    std::string k;
    s >> k;
    if (k == "algo") {
      std::string v;
      s >> v;
      c.algo = v == "dollar" ? Algo::Dollar : v == "plain" ? Algo::Plain : Algo::NotNecessary;
    } else if (k == "scale")
      s >> c.scale;
    else if (k == "off")
      s >> c.off;
    else if (k == "word")
      c.w = parseWord(line);
    else if (k == "ta")
      inTa = true;
    if (inTa)
      ta += line + "\n";
    if (k == "endta")
      inTa = false;
  }
  std::istringstream t(ta);
  return parseMTA(t, c.a);
}

// letters a,b,c,d -> arbitrary labels
inline void relabel(Rng &r, MTA &a, Word &w) {
  if (!r.chance(35))
    return;
  std::vector<int> pool;
  for (int c = 33; c < 127; c++)
    if (c != '$')
      pool.push_back(c);
  if (r.chance(20))
    for (int c = 1; c < 33; c++)
      pool.push_back(c);
  r.shuffle(pool);
  std::map<char, char> m;
  size_t k = 0;
  for (char c = 'a'; c <= 'f'; c++)
    m[c] = char(pool[k++]);
  m['z'] = r.chance(50) ? char(pool[k++]) : char(r.range(128, 255));
  for (auto &e : a.edges)
    if (e.label && e.label != '$')
      e.label = m.at(e.label);
  for (auto &e : w)
    e.c = m.at(e.c);
}
enum Kind { KDollar, KPlain, KNN, KMixed };
// The zone graphs behind the skip tables explode for cyclic patterns with
// several clocks; a CPU timeout says nothing there.
inline bool heavy(const MTA &a) {
  if (a.clocks < 2)
    return false;
  std::vector<std::vector<char>> reach(a.n, std::vector<char>(a.n, 0));
  for (auto &e : a.edges)
    reach[e.src][e.dst] = 1;
  for (int k = 0; k < a.n; k++)
    for (int i = 0; i < a.n; i++)
      for (int j = 0; j < a.n; j++)
        if (reach[i][k] && reach[k][j])
          reach[i][j] = 1;
  for (int i = 0; i < a.n; i++)
    if (reach[i][i])
      return true;
  return false;
}
inline std::string genCase(Rng &r, Kind kind, bool simul) {
  Case c;
  c.algo = kind == KDollar ? Algo::Dollar : kind == KPlain ? Algo::Plain : Algo::NotNecessary;
  GenOpt o;
  o.dollar = kind != KPlain;
  o.maxStates = r.range(3, 6);
  o.maxClocks = r.chance(60) ? 1 : 2;
  o.alphabet = r.range(1, 3);
  o.maxConst = r.range(1, 3);
  o.guardPercent = r.range(20, 80);
  int maxLen = 16;
  switch (r.below(10)) {
  case 0:
  case 1:
  case 2:
  case 3:
    c.a = genTA(r, o);
    break;
  case 4:
  case 5:
  case 6:
    c.a = genKmpTA(r, o);
    break;
  case 7:
  case 8:
    c.a = genChainTA(r, o);
    maxLen = 26;
    break;
  default:
    c.a = genManyClocksTA(r, o);
    break;
  }
  if (kind == KMixed) {
    // some accepting edges labelled with a letter
    for (auto &e : c.a.edges)
      if (e.label == '$' && r.chance(50))
        e.label = char('a' + r.below(o.alphabet));
    // matches may continue through accepting states
    const int fin = c.a.n - 1;
    if (r.chance(45))
      for (int k = r.range(1, 2); k > 0; k--)
        c.a.edges.push_back({fin, r.chance(15) ? '$' : char('a' + r.below(o.alphabet)), r.below(c.a.n), genGuard(r, o, c.a.clocks),
                             genResets(r, o, c.a.clocks)});
    if (r.chance(25))
      c.a.match[r.below(c.a.n)] = 1;
  }
  c.w = genWord(r, c.a, o, maxLen);
  if (simul && r.chance(12)) // simultaneous events
    for (size_t i = 1; i < c.w.size(); i++)
      if (r.chance(15)) {
        long d = c.w[i].t - c.w[i - 1].t;
        for (size_t j = i; j < c.w.size(); j++)
          c.w[j].t -= d;
      }
  if (r.chance(15))
    c.off = EV * (r.chance(50) ? r.range(1, 6) : r.range(50, 100000));
  if (r.chance(15)) {
    static const long sc[] = {2, 3, 10, 43, 64, 100, 128, 1000, 11000, 100000};
    c.scale = sc[r.below(10)];
  }
  relabel(r, c.a, c.w);
  return caseStr(c);
}

inline std::vector<long> queries(const Case &c) {
  const int mc = c.a.maxConst();
  const long last = c.w.empty() ? 0 : c.w.back().t;
  std::vector<long> q;
  const long lo = std::max<long>(0, c.off - (mc + 2) * UNIT);
  const long hi = ((c.off + last) / EV) * EV + (mc + 2) * UNIT;
  if (lo > 2 * UNIT)
    q = {0, 1, 4, UNIT + 1};
  for (long x : queryTicks((lo / EV) * EV, hi))
    q.push_back(x);
  return q;
}
struct Ran {
  Case c;
  MTA scaled;
  Word w; // with offset
  std::vector<long> qs;
  RunResult res;
  double f(long ticks) const { return sec(ticks * c.scale); }
};
inline std::vector<std::pair<Alphabet, double>> dataOf(const Ran &R) {
  std::vector<std::pair<Alphabet, double>> d;
  for (auto &e : R.w)
    d.emplace_back(e.c, R.f(e.t));
  return d;
}
inline bool prepare(const std::string &text, Ran &R) {
  if (!parseCase(text, R.c))
    return false;
  R.scaled = R.c.a;
  for (auto &e : R.scaled.edges)
    for (auto &g : e.guard)
      g.c = int(g.c * R.c.scale);
  R.w = R.c.w;
  for (auto &e : R.w)
    e.t += R.c.off;
  R.qs = queries(R.c);
  return true;
}
inline Mode modeOf(Algo a) {
  return a == Algo::Dollar ? Mode::Dollar : a == Algo::Plain ? Mode::Plain : Mode::Mixed;
}
inline std::vector<RepZone> uniq(std::vector<RepZone> z) {
  std::sort(z.begin(), z.end());
  z.erase(std::unique(z.begin(), z.end(), [](auto &x, auto &y) { return x.key() == y.key(); }),
          z.end());
  return z;
}
inline bool simultaneous(const Word &w) {
  for (size_t i = 1; i < w.size(); i++)
    if (w[i].t == w[i - 1].t)
      return true;
  return false;
}
inline std::string pt(const Ran &R, long t, long tp) {
  std::ostringstream o;
  o << "(t,t')=(" << R.f(t) << "," << R.f(tp) << ")";
  return o.str();
}
enum What { Sound = 1, Complete = 2 };
inline void judge(const Ran &R, Ctx &cx, int what) {
  Stats &st = cx.st;
  const RunResult &res = R.res;
  auto ms = oracle(R.c.a, R.w, modeOf(R.c.algo), R.qs);
  st["events"] += long(R.w.size());
  st["points_decided"] += long(ms.checked);
  st["matching_points"] += long(ms.pts.size());
  st["matching_points_multi_event"] += long(ms.multi);
  st["zones_reported"] += long(res.zones.size());
  if (!res.exception.empty()) {
    cx.violate("matching threw " + res.exception + " " + res.in->protocolError);
    return;
  }
  if (res.exited) {
    st["exit_empty_pattern"]++;
    if (res.exitCode != 10)
      cx.violate("exit(" + std::to_string(res.exitCode) + ") during matching");
    if ((what & Complete) && ms.nonzero)
      cx.violate("the pattern was declared empty (exit) but it matches");
    return;
  }
  auto zs = uniq(res.zones);
  cx.nontrivial = ms.nonzero > 0 || !zs.empty();
  if (!zs.empty())
    st["cases_with_zones"]++;
  if (R.c.scale > 1)
    st["cases_scaled"]++;
  if (R.c.off)
    st["cases_offset"]++;
  long unsound = 0, missed = 0;
  std::string u, m;
  std::vector<double> fq;
  for (long q : R.qs)
    fq.push_back(R.f(q));
  for (size_t i = 0; i < R.qs.size(); i++) {
    std::vector<const RepZone *> mine;
    for (auto &z : zs)
      if (RepZone::le(-fq[i], z.lt) && RepZone::le(fq[i], z.ut))
        mine.push_back(&z);
    for (size_t j = 0; j < R.qs.size(); j++) {
      const long t = R.qs[i], tp = R.qs[j];
      bool in = false;
      const RepZone *by = nullptr;
      for (auto *z : mine)
        if (z->contains(fq[i], fq[j])) {
          in = true;
          by = z;
          break;
        }
      const bool mm = tp >= t && ms.pts.count({t, tp});
      if (in)
        st["points_covered"]++;
      if (in && !mm) {
        unsound++;
        if (u.empty())
          u = pt(R, t, tp) + " in zone {" + by->str() + "} is not a match";
      }
      if (mm && !in && !ms.zeroEv.count({t, tp})) {
        missed++;
        if (m.empty())
          m = "match " + pt(R, t, tp) + " is in no reported zone";
      }
    }
  }
  if ((what & Sound)) {
    // beyond the grid: before time 0 and after the last event
    for (auto &z : zs)
      for (double t : {-0.125 * double(R.c.scale), -double(R.c.scale), -1000.0 * R.c.scale, R.f(R.w.back().t), R.f(R.w.back().t) + 0.125})
        for (double d : {0.125 * double(R.c.scale), 1.0 * R.c.scale, 2.5 * R.c.scale, 1e7})
          if (z.contains(t, t + d) && !unsound) {
            unsound++;
            std::ostringstream o;
            o << "(t,t')=(" << t << "," << t + d << ") outside the word is in zone {" << z.str() << "}";
            u = o.str();
          }
    if (unsound)
      cx.violate("unsound: " + u + " (" + std::to_string(unsound) + " points)");
  }
  if ((what & Complete) && missed) {
    cx.violate(std::string(simultaneous(R.w) ? "SIMUL " : "") + "missed: " + m + " (" + std::to_string(missed) + " points)");
  }
}
inline void checkMatch(const std::string &text, Ctx &cx, int what) {
  Ran R;
  if (!prepare(text, R)) {
    cx.skip = "unparsable";
    return;
  }
  auto ta = toReal(R.scaled);
  R.res = runReal(R.c.algo, ta, dataOf(R));
  judge(R, cx, what);
}

// Every reported zone contains a point, with 0 <= t <= t', t before the last
// event; repeated runs report the same sequence of zones.
inline void checkZones(const std::string &text, Ctx &cx) {
  Ran R;
  if (!prepare(text, R)) {
    cx.skip = "unparsable";
    return;
  }
  auto ta = toReal(R.scaled);
  R.res = runReal(R.c.algo, ta, dataOf(R));
  if (!R.res.exception.empty())
    cx.violate("matching threw " + R.res.exception + " " + R.res.in->protocolError);
  const double last = R.w.empty() ? 0 : R.f(R.w.back().t);
  for (auto &z : R.res.zones) {
    Bounds m[3][3];
    cx.st["zones_checked"]++;
    cx.nontrivial = true;
    if (!z.close(m)) {
      cx.violate("the reported zone {" + z.str() + "} is empty");
      return;
    }
    for (auto b : {z.lt, z.ut, z.ltp, z.utp, z.ld, z.ud})
      if (std::isnan(b.first)) {
        cx.violate("NaN in zone {" + z.str() + "}");
        return;
      }
    if (m[0][1].first > 0)
      cx.violate("zone {" + z.str() + "} contains a t before time 0");
    else if (m[1][2].first > 0)
      cx.violate("zone {" + z.str() + "} contains t' < t");
    else if (m[1][0].first > last)
      cx.violate("zone {" + z.str() + "} contains a t after the last event");
    bool tight = true;
    const Bounds v[6] = {z.lt, z.ut, z.ltp, z.utp, z.ld, z.ud};
    const Bounds c[6] = {m[0][1], m[1][0], m[0][2], m[2][0], m[1][2], m[2][1]};
    for (int i = 0; i < 6; i++)
      tight = tight && v[i] == c[i];
    if (!tight)
      cx.st["zones_not_tight"]++;
  }
}
} // namespace mon
