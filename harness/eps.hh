#pragma once
// Symbolic oracle for patterns with silent transitions (matching without a
// terminator): every run of the pattern over the word is a system of difference
// constraints over the start t, the times of the silent transitions and the end
// t'; its projection to (t,t') is a zone.  Independent of the library: integer
// bounds in ticks, closure by Floyd-Warshall from scratch at every step.
#include "match.hh"
namespace mon {
struct Diff { // constraints x_i - x_j <= d[i][j] (2*c for <=, 2*c-1 for <)
  static constexpr long INF = LONG_MAX / 4;
  std::vector<std::vector<long>> d;
  Diff() : d(1, std::vector<long>(1, 0)) {}
  int add() {
    for (auto &r : d)
      r.push_back(INF);
    d.push_back(std::vector<long>(d.size() + 1, INF));
    d.back().back() = 0;
    return int(d.size()) - 1;
  }
  void le(int i, int j, long c, bool strict) { d[i][j] = std::min(d[i][j], 2 * c - (strict ? 1 : 0)); }
  static long plus(long a, long b) {
    if (a >= INF || b >= INF)
      return INF;
    // 2a-1 + 2b-1 is strict: 2(a+b)-1
    return a + b + ((a & 1) && (b & 1) ? 1 : 0);
  }
  bool close() {
    const size_t n = d.size();
    for (size_t k = 0; k < n; k++)
      for (size_t i = 0; i < n; i++)
        for (size_t j = 0; j < n; j++)
          d[i][j] = std::min(d[i][j], plus(d[i][k], d[k][j]));
    for (size_t i = 0; i < n; i++)
      if (d[i][i] < 0)
        return false;
    return true;
  }
  bool has(int i, int j, long v) const { return d[i][j] >= INF || 2 * v <= d[i][j]; }
};
struct EpsZone {
  long a[6]; // t-0, 0-t, t'-0, 0-t', t'-t, t-t'
  bool contains(long t, long tp) const {
    const long v[6] = {t, -t, tp, -tp, tp - t, t - tp};
    for (int k = 0; k < 6; k++)
      if (a[k] < Diff::INF && 2 * v[k] > a[k])
        return false;
    return true;
  }
  bool operator<(const EpsZone &o) const { return std::lexicographical_compare(a, a + 6, o.a, o.a + 6); }
};
struct EpsOracle {
  const MTA &a;
  const Word &w;
  const bool strict;
  Index ix;
  std::set<EpsZone> zones;
  long runs = 0, silent = 0, cap;
  bool overflow = false;
  struct Conf {
    int s;
    std::vector<std::pair<bool, long>> r; // (constant?, tick or variable)
    Diff d;
    int newest; // the last variable that is not followed by an event, or 0
  };
  std::set<std::vector<long>> seen; // configurations of the current start
  // forget the variables that no longer matter (the matrix is closed): the
  // configurations of a start are finitely many, also with silent cycles
  bool fresh(Conf &c, size_t j) {
    std::vector<int> keep = {0, 1};
    auto at = [&](int v) {
      auto it = std::find(keep.begin(), keep.end(), v);
      if (it == keep.end())
        it = keep.insert(keep.end(), v);
      return int(it - keep.begin());
    };
    std::vector<long> key = {long(j), c.s};
    for (auto &r : c.r) {
      if (!r.first)
        r.second = at(int(r.second));
      key.push_back(r.first);
      key.push_back(r.second);
    }
    if (c.newest)
      c.newest = at(c.newest);
    key.push_back(c.newest);
    Diff d;
    d.d.assign(keep.size(), std::vector<long>(keep.size()));
    for (size_t p = 0; p < keep.size(); p++)
      for (size_t q = 0; q < keep.size(); q++)
        key.push_back(d.d[p][q] = c.d.d[keep[p]][keep[q]]);
    c.d = std::move(d);
    return seen.insert(std::move(key)).second;
  }
  EpsOracle(const MTA &a, const Word &w, bool strict, long cap = 60000) : a(a), w(w), strict(strict), ix(a), cap(cap) {
    for (size_t i = 0; i < w.size() && !overflow; i++) {
      Conf c;
      const int t = c.d.add();
      c.d.le(0, t, i ? -w[i - 1].t : 0, false);
      c.d.le(t, 0, w[i].t, true);
      c.newest = t;
      c.r.assign(a.clocks, {false, t});
      if (!c.d.close())
        continue;
      seen.clear();
      for (int s = 0; s < a.n; s++)
        if (a.init[s]) {
          c.s = s;
          go(c, i, i);
        }
    }
  }
  // a step at the variable v
  bool guardVar(Conf &c, const Edge &e, int v) {
    for (auto &g : e.guard) {
      auto &r = c.r[g.x];
      const long k = long(g.c) * UNIT;
      const int base = r.first ? 0 : int(r.second);
      const long off = r.first ? r.second : 0;
      if (g.op == LT || g.op == LE)
        c.d.le(v, base, k + off, g.op == LT);
      else
        c.d.le(base, v, -k - off, g.op == GT);
    }
    return c.d.close();
  }
  bool guardConst(Conf &c, const Edge &e, long now) {
    for (auto &g : e.guard) {
      auto &r = c.r[g.x];
      const long k = long(g.c) * UNIT;
      if (r.first) {
        if (!sat(now - r.second, g))
          return false;
      } else if (g.op == LT || g.op == LE) // now - x <= k
        c.d.le(0, int(r.second), k - now, g.op == LT);
      else
        c.d.le(int(r.second), 0, now - k, g.op == GT);
    }
    return c.d.close();
  }
  int moment(Conf &c, size_t i, size_t j, bool end) {
    const int v = c.d.add();
    c.d.le(v, 0, w[j].t, strict && !end);
    if (j > 0)
      c.d.le(0, v, -w[j - 1].t, true);
    else
      c.d.le(0, v, 0, false);
    c.d.le(1, v, 0, strict);
    if (c.newest)
      c.d.le(c.newest, v, 0, strict);
    return v;
  }
  void go(Conf c, size_t i, size_t j) {
    if (overflow || !fresh(c, j))
      return;
    if (++runs > cap) {
      overflow = true;
      return;
    }
    if (j >= w.size() || overflow)
      return;
    for (auto *e : ix.out[c.s]) {
      if (e->label == 0) {
        Conf n = c;
        const int v = moment(n, i, j, false);
        if (!guardVar(n, *e, v))
          continue;
        silent++;
        n.newest = v;
        n.s = e->dst;
        for (int x : e->resets)
          n.r[x] = {false, v};
        go(n, i, j);
      } else if (e->label == w[j].c) {
        if (a.match[e->dst]) {
          Conf n = c;
          const int v = moment(n, i, j, true);
          if (guardVar(n, *e, v)) {
            auto &d = n.d.d;
            zones.insert(EpsZone{{d[1][0], d[0][1], d[v][0], d[0][v], d[v][1], d[1][v]}});
          }
        }
        Conf n = c;
        if (strict && n.newest > 1)
          n.d.le(n.newest, 0, w[j].t, true);
        if (!guardConst(n, *e, w[j].t))
          continue;
        n.newest = 0;
        n.s = e->dst;
        for (int x : e->resets)
          n.r[x] = {true, w[j].t};
        go(n, i, j + 1);
      }
    }
  }
};
inline void addEps(Rng &r, const GenOpt &o, MTA &a, int percent) {
  // silent transitions that respect an order of the states: no silent cycle,
  // and none that accepts by itself
  std::vector<int> ord(a.n);
  std::iota(ord.begin(), ord.end(), 0);
  if (r.chance(25))
    r.shuffle(ord);
  for (int i = 0; i < a.n; i++)
    for (int k = 0; k < 2; k++)
      if (r.chance(percent) && i + 1 < a.n) {
        const int j = r.chance(70) ? i + 1 : r.range(i + 1, a.n - 1);
        if (!a.match[ord[j]])
          a.edges.push_back({ord[i], 0, ord[j], genGuard(r, o, a.clocks), genResets(r, o, a.clocks)});
      }
  // turn some letters into silence
  for (auto &e : a.edges)
    if (e.label && !a.match[e.dst] && e.src < e.dst && r.chance(percent / 2)) {
      bool ordered = true;
      for (auto &f : a.edges)
        ordered = ordered && (f.label || f.src < f.dst);
      if (ordered)
        e.label = 0;
    }
}
// silent cycles: back edges and self loops, not into accepting states
inline void addEpsCycle(Rng &r, const GenOpt &o, MTA &a) {
  for (int k = r.range(1, 3); k > 0; k--) {
    const int s = r.below(a.n);
    const int d = r.chance(40) ? s : r.below(a.n);
    if (!a.match[d])
      a.edges.push_back({s, 0, d, genGuard(r, o, a.clocks), genResets(r, o, a.clocks)});
  }
}
inline std::string genEpsCase(Rng &r) {
  Case c;
  c.algo = Algo::Plain;
  GenOpt o;
  o.dollar = false;
  o.maxStates = r.range(3, 5);
  o.maxClocks = r.chance(75) ? 1 : 2;
  o.alphabet = r.range(1, 3);
  o.maxConst = r.range(1, 3);
  o.guardPercent = r.range(20, 80);
  switch (r.below(6)) {
  case 0:
  case 1:
  case 2:
    c.a = genTA(r, o);
    break;
  case 3:
  case 4:
    c.a = genKmpTA(r, o);
    break;
  default:
    c.a = genManyClocksTA(r, o);
    break;
  }
  const bool cyc = r.chance(30);
  addEps(r, o, c.a, cyc ? r.range(0, 30) : r.range(15, 45));
  if (cyc)
    addEpsCycle(r, o, c.a);
  if (!c.a.hasEps() || (c.a.clocks > 1 && r.chance(cyc || heavy(c.a) || c.a.clocks > 2 ? 92 : 50)))
    return "";
  c.w = genWord(r, c.a, o, 9);
  if (r.chance(15))
    c.off = EV * r.range(1, 6);
  if (r.chance(12)) {
    static const long sc[] = {2, 3, 10, 64, 1000};
    c.scale = sc[r.below(5)];
  }
  relabel(r, c.a, c.w);
  // the zone graphs of the products are large: a timeout says nothing
  bool cyclic = c.a.clocks > 1;
  for (auto &e : c.a.edges)
    cyclic = cyclic || (e.src >= e.dst && (e.label || c.a.edges.size() > 6));
  const std::string s = caseStr(c);
  return cyclic && s.compare(0, 5, "heavy") ? "heavy\n" + s : s;
}
inline void checkEps(const std::string &text, Ctx &cx) {
  Ran R;
  if (!prepare(text, R) || simultaneous(R.w)) {
    cx.skip = "unparsable";
    return;
  }
  Stats &st = cx.st;
  EpsOracle may(R.c.a, R.w, false), must(R.c.a, R.w, true);
  if (may.overflow || must.overflow) {
    cx.skip = "too many runs";
    return;
  }
  auto ta = toReal(R.scaled);
  R.res = runReal(Algo::Plain, ta, dataOf(R));
  if (!R.res.exception.empty()) {
    cx.violate("matching threw " + R.res.exception + " " + R.res.in->protocolError);
    return;
  }
  st["runs"] += may.runs;
  st["silent_steps"] += may.silent;
  if (R.res.exited) {
    st["exit_empty_pattern"]++;
    if (R.res.exitCode != 10)
      cx.violate("exit(" + std::to_string(R.res.exitCode) + ") during matching");
    if (!must.zones.empty())
      cx.violate("the pattern was declared empty (exit) but it matches");
    return;
  }
  auto zs = uniq(R.res.zones);
  st["zones_reported"] += long(R.res.zones.size());
  st["expected_zones"] += long(may.zones.size());
  cx.nontrivial = !must.zones.empty() && may.silent > 0;
  long unsound = 0, missed = 0;
  std::string u, m;
  for (long t : R.qs)
    for (long tp : R.qs) {
      bool in = false, all = false, some = false;
      for (auto &z : zs)
        if (z.contains(R.f(t), R.f(tp))) {
          in = true;
          if (u.empty())
            u = "zone {" + z.str() + "}";
          break;
        }
      for (auto &z : may.zones)
        if ((some = z.contains(t, tp)))
          break;
      if (some)
        for (auto &z : must.zones)
          if ((all = z.contains(t, tp)))
            break;
      st["points_decided"]++;
      if (all)
        st["matching_points"]++;
      if (in && !some && !unsound++)
        m = pt(R, t, tp) + " is reported but is not a match";
      if (all && !in && !missed++ && m.empty())
        m = "match " + pt(R, t, tp) + " is in no reported zone";
    }
  if (unsound || missed)
    cx.violate((unsound ? "unsound: " : "missed: ") + m + " (" + std::to_string(unsound + missed) + " points)");
}
} // namespace mon
