#pragma once
// Reading real automata back into the model, comparing and spelling them.
#include "real.hh"
namespace mon {
// ------------------------------------------------------------ real -> model
inline MTA fromReal(const TimedAutomaton &ta, std::string &err) {
  MTA a;
  a.n = int(ta.states.size());
  a.clocks = int(ta.clockSize());
  a.init.assign(a.n, 0);
  a.match.assign(a.n, 0);
  std::map<const TAState *, int> id;
  for (int i = 0; i < a.n; i++) {
    if (!ta.states[i]) {
      err = "null state";
      continue;
    }
    id[ta.states[i].get()] = i;
    a.match[i] = ta.states[i]->isMatch;
  }
  for (auto &s : ta.initialStates) {
    if (!id.count(s.get())) {
      err = "an initial state is not a state of the automaton";
      continue;
    }
    a.init[id[s.get()]] = 1;
  }
  for (int i = 0; i < a.n; i++)
    for (auto &p : ta.states[i]->next)
      for (auto &t : p.second) {
        if (!t.target || !id.count(t.target)) {
          err = t.target ? "a transition targets a state outside the automaton" : "null target";
          continue;
        }
        Edge e;
        e.src = i;
        e.label = p.first;
        e.dst = id[t.target];
        for (auto &g : t.guard) {
          int o = g.odr == Constraint::Order::lt   ? LT
                  : g.odr == Constraint::Order::le ? LE
                  : g.odr == Constraint::Order::ge ? GE
                                                   : GT;
          e.guard.push_back({g.x, o, g.c});
          if (g.x >= a.clocks)
            err = "a guard uses a clock out of range";
          else if (ta.maxConstraints[g.x] < g.c)
            err = "maxConstraints is smaller than a constant of a guard";
        }
        for (auto x : t.resetVars) {
          if (x >= a.clocks)
            err = "a reset uses a clock out of range";
          e.resets.push_back(x);
        }
        a.edges.push_back(e);
      }
  return a;
}
inline bool accepts(const MTA &a, const Word &w) {
  Index ix(a);
  std::set<Cfg> cur = initCfgs(a, 0);
  for (auto &e : w)
    cur = stepAll(ix, cur, e.c, e.t);
  for (auto &c : cur)
    if (a.match[c.s])
      return true;
  return false;
}

// acceptance with silent transitions taken at any tick of the event grid, any
// number of them at one instant (the product must agree exactly)
inline int acceptsEps(const MTA &a, const Word &w, long step = 2, size_t cap = 4000) { // -1: too many configurations
  Index ix(a);
  long far = UNIT;
  for (auto &e : a.edges)
    for (auto &g : e.guard)
      far = std::max(far, long(g.c + 1) * UNIT);
  std::set<Cfg> cur = initCfgs(a, 0);
  long now = 0;
  auto close = [&](long at) {
    std::vector<Cfg> st(cur.begin(), cur.end());
    while (!st.empty()) {
      Cfg c = st.back();
      st.pop_back();
      Cfg r;
      for (auto *e : ix.out[c.s])
        if (e->label == 0 && ix.step(c, *e, at, r) && cur.insert(r).second)
          st.push_back(r);
    }
  };
  auto saturate = [&](long at) { // a clock beyond all constants stays beyond them
    std::set<Cfg> n;
    for (Cfg c : cur) {
      for (auto &x : c.r)
        x = std::max(x, at - far);
      n.insert(std::move(c));
    }
    cur.swap(n);
  };
  close(0);
  for (auto &e : w) {
    while (now < e.t) {
      now = std::min(now + step, e.t);
      saturate(now);
      close(now);
      if (cur.size() > cap)
        return -1;
    }
    cur = stepAll(ix, cur, e.c, e.t);
    close(e.t);
  }
  for (auto &c : cur)
    if (a.match[c.s])
      return true;
  return false;
}
// Equality up to the names of the states (n <= 7), the order of edges, guards
// and resets.
inline std::string edgeKey(const Edge &e, const std::vector<int> &p) {
  std::vector<std::array<int, 3>> g;
  for (auto &x : e.guard)
    g.push_back({x.x, x.op, x.c});
  std::sort(g.begin(), g.end());
  auto r = e.resets;
  std::sort(r.begin(), r.end());
  r.erase(std::unique(r.begin(), r.end()), r.end());
  std::ostringstream o;
  o << p[e.src] << "-" << int(e.label) << "-" << p[e.dst];
  for (auto &x : g)
    o << " g" << x[0] << opName(x[1]) << x[2];
  for (int x : r)
    o << " r" << x;
  return o.str();
}
inline bool isomorphic(const MTA &a, const MTA &b) {
  if (a.n != b.n || a.edges.size() != b.edges.size())
    return false;
  std::vector<int> p(a.n), id(a.n);
  std::iota(p.begin(), p.end(), 0);
  std::iota(id.begin(), id.end(), 0);
  std::multiset<std::string> B;
  for (auto &e : b.edges)
    B.insert(edgeKey(e, id));
  do {
    bool ok = true;
    for (int i = 0; i < a.n && ok; i++)
      ok = a.init[i] == b.init[p[i]] && a.match[i] == b.match[p[i]];
    if (!ok)
      continue;
    std::multiset<std::string> A;
    for (auto &e : a.edges)
      A.insert(edgeKey(e, p));
    if (A == B)
      return true;
  } while (std::next_permutation(p.begin(), p.end()));
  return false;
}
} // namespace mon
