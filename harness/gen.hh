#pragma once
#include "core.hh"
namespace mon {

struct GenOpt {
  bool dollar = true;      // accept through `$` edges into accepting states
  int maxStates = 5;
  int maxClocks = 2;
  int alphabet = 2;        // letters a, b, ...
  int maxConst = 3;
  int guardPercent = 45;
  int resetPercent = 35;
  int epsPercent = 0;
};

inline std::vector<Guard> genGuard(Rng &r, const GenOpt &o, int clocks) {
  std::vector<Guard> g;
  if (clocks == 0 || !r.chance(o.guardPercent))
    return g;
  int k = r.chance(25) ? 2 : 1;
  for (int i = 0; i < k; i++)
    g.push_back({r.below(clocks), r.below(4), r.range(0, o.maxConst)});
  return g;
}
inline std::vector<int> genResets(Rng &r, const GenOpt &o, int clocks) {
  std::vector<int> v;
  for (int i = 0; i < clocks; i++)
    if (r.chance(o.resetPercent))
      v.push_back(i);
  return v;
}

// Random pattern automaton.  Shapes: 0 = arbitrary graph, 1 = chain with a few
// extra edges (long deterministic-looking patterns, where skipping matters),
// 2 = chain with periodic labels (borders of the pattern overlap), 3 = layered
// nondeterminism with several initial states.
inline MTA genTA(Rng &r, const GenOpt &o) {
  MTA a;
  const int shape = r.below(4);
  a.clocks = r.range(0, o.maxClocks);
  if (a.clocks == 0 && r.chance(70))
    a.clocks = 1;
  auto letter = [&] { return char('a' + r.below(o.alphabet)); };
  auto addEdge = [&](int s, char l, int d) {
    // the algorithms keep duplicate configurations: bound the nondeterminism
    int same = 0, dup = 0;
    for (auto &e : a.edges)
      if (e.src == s && e.label == l) {
        same++;
        dup += e.dst == d;
      }
    if (same >= 2 || dup >= 1)
      return;
    a.edges.push_back({s, l, d, genGuard(r, o, a.clocks), genResets(r, o, a.clocks)});
  };
  int core; // number of non-final states
  if (shape == 0) {
    core = r.range(1, o.maxStates - 1);
    a.n = core + 1;
    int m = r.range(core, core * 3);
    for (int i = 0; i < m; i++)
      addEdge(r.below(core), letter(), r.below(core));
    addEdge(0, letter(), r.below(core));
  } else if (shape == 3) {
    core = r.range(2, o.maxStates - 1);
    a.n = core + 1;
    for (int i = 0; i + 1 < core; i++)
      for (int k = r.range(1, 2); k > 0; k--)
        addEdge(i, letter(), std::min(core - 1, i + r.range(1, 2)));
    if (r.chance(60))
      addEdge(r.below(core), letter(), r.below(core));
  } else {
    core = r.range(2, o.maxStates - 1);
    a.n = core + 1;
    int period = r.range(1, 2);
    std::vector<char> base;
    for (int i = 0; i < period; i++)
      base.push_back(letter());
    for (int i = 0; i + 1 < core; i++)
      addEdge(i, shape == 2 && !r.chance(15) ? base[i % period] : letter(), i + 1);
    for (int k = r.below(3); k > 0; k--)
      addEdge(r.below(core), letter(), r.below(core));
  }
  a.init.assign(a.n, 0);
  a.match.assign(a.n, 0);
  a.init[0] = 1;
  if (shape == 3 || r.chance(20))
    a.init[r.below(core)] = 1;
  const int fin = a.n - 1;
  a.match[fin] = 1;
  // accepting edges
  const char acc = o.dollar ? '$' : 0;
  int nacc = r.range(1, 2);
  addEdge(core - 1, acc ? acc : letter(), fin);
  for (int i = 1; i < nacc; i++)
    addEdge(r.below(core), acc ? acc : letter(), fin);
  if (!o.dollar) {
    // accepting states may have outgoing edges; inner states may accept
    if (r.chance(20))
      addEdge(fin, letter(), r.below(a.n));
    if (r.chance(20))
      a.match[r.below(core)] = 1;
  }
  if (o.epsPercent)
    for (int i = 0; i < core; i++)
      if (r.chance(o.epsPercent) && i + 1 < core)
        addEdge(i, 0, r.range(i + 1, core - 1)); // acyclic epsilon graph
  // shuffle state names / allocation order
  a.perm.resize(a.n);
  std::iota(a.perm.begin(), a.perm.end(), 0);
  r.shuffle(a.perm);
  if (r.chance(50))
    r.shuffle(a.edges);
  return a;
}

// A random run of the model, appended to `w` (times strictly increasing on the
// event grid).  Delays are drawn so that guards tend to be satisfied.
inline void appendRun(Rng &r, const MTA &a, Word &w, int maxLen, bool includeAcc) {
  std::vector<int> inits;
  for (int i = 0; i < a.n; i++)
    if (a.init[i])
      inits.push_back(i);
  if (inits.empty())
    return;
  Index ix(a);
  long last = w.empty() ? 0 : w.back().t;
  Cfg c{r.pick(inits), std::vector<long>(a.clocks, last + (r.chance(50) ? 0 : r.below(EV)))};
  for (int k = 0; k < maxLen; k++) {
    std::vector<const Edge *> cand;
    for (auto *e : ix.out[c.s])
      if (e->label != 0 && e->label != '$')
        cand.push_back(e);
    if (cand.empty())
      return;
    bool moved = false;
    for (int tries = 0; tries < 8 && !moved; tries++) {
      const Edge *e = r.pick(cand);
      long d = EV * (r.chance(70) ? r.range(1, 4) : r.range(1, 9));
      Cfg n;
      if (ix.step(c, *e, last + d, n)) {
        last += d;
        w.push_back({e->label, last});
        c = n;
        moved = true;
        if (a.match[c.s] && includeAcc && r.chance(60))
          return;
      }
    }
    if (!moved)
      return;
  }
}
// Pattern shaped so that the KMP-type skip decides something: a chain over one
// or two letters, tight constraints on the first events and loose or opposite
// ones afterwards, so that a failed/finished attempt says something about the
// next starting positions.
inline MTA genKmpTA(Rng &r, const GenOpt &o) {
  MTA a;
  const int m = r.range(2, 5);
  a.clocks = r.range(1, 2);
  a.n = m + (o.dollar ? 2 : 1);
  a.init.assign(a.n, 0);
  a.match.assign(a.n, 0);
  a.init[0] = 1;
  a.match[a.n - 1] = 1;
  const char base = 'a';
  for (int i = 0; i < m; i++) {
    Edge e{i, r.chance(80) ? base : char('b'), i + 1, {}, {}};
    if (r.chance(60))
      e.guard.push_back({r.below(a.clocks), r.below(4), r.range(i == 0 ? 1 : 0, o.maxConst)});
    for (int x = 0; x < a.clocks; x++)
      if (r.chance(40))
        e.resets.push_back(x);
    a.edges.push_back(e);
  }
  if (o.dollar)
    a.edges.push_back({m, '$', m + 1, genGuard(r, o, a.clocks), {}});
  if (r.chance(25))
    a.edges.push_back({r.below(m), r.chance(50) ? 'a' : 'b', r.below(m), genGuard(r, o, a.clocks), genResets(r, o, a.clocks)});
  a.perm.resize(a.n);
  std::iota(a.perm.begin(), a.perm.end(), 0);
  r.shuffle(a.perm);
  return a;
}
// Long chains over few letters: the Sunday and KMP-type skips jump far.
inline MTA genChainTA(Rng &r, const GenOpt &o) {
  MTA a;
  const int m = r.range(4, 8);
  a.clocks = 1;
  a.n = m + (o.dollar ? 2 : 1);
  a.init.assign(a.n, 0);
  a.match.assign(a.n, 0);
  a.init[0] = 1;
  a.match[a.n - 1] = 1;
  const int alpha = r.range(2, 4), period = r.range(1, 4);
  std::vector<char> base;
  for (int i = 0; i < period; i++)
    base.push_back(char('a' + r.below(alpha)));
  for (int i = 0; i < m; i++) {
    Edge e{i, r.chance(85) ? base[i % period] : char('a' + r.below(alpha)), i + 1, {}, {}};
    if (r.chance(25))
      e.guard.push_back({0, r.below(4), r.range(0, o.maxConst)});
    if (r.chance(25))
      e.resets.push_back(0);
    a.edges.push_back(e);
  }
  if (r.chance(30)) {
    int s = r.below(m);
    a.edges.push_back({s, char('a' + r.below(alpha)), s, {}, {}});
  }
  if (o.dollar)
    a.edges.push_back({m, '$', m + 1, genGuard(r, o, a.clocks), {}});
  a.perm.resize(a.n);
  std::iota(a.perm.begin(), a.perm.end(), 0);
  r.shuffle(a.perm);
  return a;
}
// Short patterns with many clocks that are reset together or one by one.
inline MTA genManyClocksTA(Rng &r, const GenOpt &o) {
  MTA a;
  const int m = r.range(1, 3);
  a.clocks = r.range(2, 4);
  a.n = m + (o.dollar ? 2 : 1);
  a.init.assign(a.n, 0);
  a.match.assign(a.n, 0);
  a.init[0] = 1;
  a.match[a.n - 1] = 1;
  for (int i = 0; i < m; i++) {
    Edge e{i, char('a' + r.below(o.alphabet)), i + 1, {}, {}};
    for (int k = r.below(3); k > 0; k--)
      e.guard.push_back({r.below(a.clocks), r.below(4), r.range(0, o.maxConst)});
    for (int x = 0; x < a.clocks; x++)
      if (r.chance(40))
        e.resets.push_back(x);
    if (r.chance(30))
      r.shuffle(e.resets);
    a.edges.push_back(e);
  }
  if (o.dollar) {
    Edge e{m, '$', m + 1, {}, {}};
    for (int k = r.below(4); k > 0; k--)
      e.guard.push_back({r.below(a.clocks), r.below(4), r.range(0, o.maxConst)});
    a.edges.push_back(e);
  }
  a.perm.resize(a.n);
  std::iota(a.perm.begin(), a.perm.end(), 0);
  r.shuffle(a.perm);
  return a;
}
inline Word genWord(Rng &r, const MTA &a, const GenOpt &o, int maxLen, char noise = 'z') {
  Word w;
  const int target = r.range(1, maxLen);
  const int style = r.below(3);
  while (int(w.size()) < target) {
    if (style == 0 || r.chance(25)) {
      long last = w.empty() ? 0 : w.back().t;
      char c = r.chance(8) ? noise : char('a' + r.below(o.alphabet));
      w.push_back({c, last + EV * r.range(1, r.chance(15) ? 9 : 4)});
    } else {
      appendRun(r, a, w, target - int(w.size()), !o.dollar);
    }
  }
  return w;
}
} // namespace mon
