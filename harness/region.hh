#pragma once
// Region graph of a model automaton, by default with strictly positive delays before
// every transition (events and the start of a trimmed word are never simultaneous).
#include "core.hh"
namespace mon {
struct RegionGraph {
  struct Node {
    int s;
    std::vector<unsigned char> ip, rk; // integer part (M+1: beyond M), rank of the fraction
    bool operator<(const Node &o) const {
      return s != o.s ? s < o.s : ip != o.ip ? ip < o.ip : rk < o.rk;
    }
  };
  struct Arc {
    char label;
    int to;
  };
  const MTA &a;
  int M;
  std::map<Node, int> id;
  std::vector<Node> node;
  std::vector<std::vector<Arc>> out;
  std::set<int> initial;
  std::vector<char> co; // can reach an accepting location
  bool overflow = false;

  // weak: transitions may follow each other without delay
  explicit RegionGraph(const MTA &a, size_t cap = 200000, bool weak = false) : a(a), M(a.maxConst()) {
    Index ix(a);
    for (int s = 0; s < a.n; s++)
      if (a.init[s])
        initial.insert(get(Node{s, std::vector<unsigned char>(a.clocks, 0), std::vector<unsigned char>(a.clocks, 0)}));
    for (size_t i = 0; i < node.size(); i++) {
      if (node.size() > cap) {
        overflow = true;
        break;
      }
      Node cur = node[i];
      std::set<std::pair<char, int>> arcs;
      // regions at a strictly positive delay
      bool closed = false;
      for (auto r : cur.rk)
        closed = closed || r == 0;
      closed = closed && anyBounded(cur);
      bool first = true;
      for (;;) {
        Node at = cur;
        if (weak || !(first && !open(cur))) {
          for (auto *e : ix.out[cur.s])
            if (holds(at, e->guard)) {
              Node nx = at;
              nx.s = e->dst;
              for (int x : e->resets) {
                nx.ip[x] = 0;
                nx.rk[x] = 0;
              }
              norm(nx);
              arcs.insert({e->label, get(nx)});
            }
        }
        first = false;
        Node nxt = succ(cur);
        if (!(nxt < cur) && !(cur < nxt))
          break;
        cur = nxt;
      }
      out.resize(node.size());
      for (auto &p : arcs)
        out[i].push_back({p.first, p.second});
    }
    out.resize(node.size());
    // co-reachability
    co.assign(node.size(), 0);
    std::vector<std::vector<int>> pred(node.size());
    for (size_t i = 0; i < node.size(); i++)
      for (auto &x : out[i])
        pred[x.to].push_back(int(i));
    std::vector<int> st;
    for (size_t i = 0; i < node.size(); i++)
      if (a.match[node[i].s]) {
        co[i] = 1;
        st.push_back(int(i));
      }
    while (!st.empty()) {
      int x = st.back();
      st.pop_back();
      for (int p : pred[x])
        if (!co[p]) {
          co[p] = 1;
          st.push_back(p);
        }
    }
  }
  int get(const Node &n) {
    auto it = id.find(n);
    if (it != id.end())
      return it->second;
    int k = int(node.size());
    id[n] = k;
    node.push_back(n);
    return k;
  }
  bool beyond(const Node &n, int x) const { return n.ip[x] > M; }
  bool anyBounded(const Node &n) const {
    for (int x = 0; x < a.clocks; x++)
      if (!beyond(n, x))
        return true;
    return false;
  }
  // every delay small enough stays in the region
  bool open(const Node &n) const {
    for (int x = 0; x < a.clocks; x++)
      if (!beyond(n, x) && n.rk[x] == 0)
        return false;
    return true;
  }
  void norm(Node &n) const {
    std::set<unsigned char> r;
    for (int x = 0; x < a.clocks; x++) {
      if (beyond(n, x))
        n.rk[x] = 255;
      else if (n.rk[x])
        r.insert(n.rk[x]);
    }
    std::map<unsigned char, unsigned char> m;
    unsigned char k = 1;
    for (auto v : r)
      m[v] = k++;
    for (int x = 0; x < a.clocks; x++)
      if (!beyond(n, x) && n.rk[x])
        n.rk[x] = m[n.rk[x]];
  }
  Node succ(const Node &n) const {
    Node r = n;
    if (!open(n)) {
      for (int x = 0; x < a.clocks; x++) {
        if (beyond(n, x))
          continue;
        if (n.rk[x] == 0) {
          if (n.ip[x] == M) {
            r.ip[x] = static_cast<unsigned char>(M + 1);
          } else
            r.rk[x] = 1;
        } else
          r.rk[x] = static_cast<unsigned char>(n.rk[x] + 1);
      }
    } else {
      unsigned char top = 0;
      for (int x = 0; x < a.clocks; x++)
        if (!beyond(n, x))
          top = std::max(top, n.rk[x]);
      if (!top)
        return r; // all clocks are beyond
      for (int x = 0; x < a.clocks; x++)
        if (!beyond(n, x) && n.rk[x] == top) {
          r.ip[x]++;
          r.rk[x] = 0;
        }
    }
    norm(r);
    return r;
  }
  bool holds(const Node &n, const std::vector<Guard> &gs) const {
    for (auto &g : gs) {
      const int x = g.x;
      // 2*v + (fraction > 0)
      const int v = beyond(n, x) ? INT_MAX : 2 * n.ip[x] + (n.rk[x] ? 1 : 0);
      const int c = 2 * g.c;
      const bool ok = g.op == LT ? v < c : g.op == LE ? v <= c : g.op == GE ? v >= c : v > c;
      if (!ok)
        return false;
    }
    return true;
  }
  bool empty() const {
    for (int i : initial)
      if (co[i])
        return false;
    return true;
  }
  std::set<int> locations() const {
    std::set<int> r;
    for (auto &n : node)
      r.insert(n.s);
    return r;
  }
  void closure(std::set<int> &s) const {
    std::vector<int> st(s.begin(), s.end());
    while (!st.empty()) {
      int x = st.back();
      st.pop_back();
      for (auto &e : out[x])
        if (e.label == 0 && s.insert(e.to).second)
          st.push_back(e.to);
    }
  }
  // Least number (>= 1) of events on an accepting run; -1 when there is none.
  // chars[i]: the i-th events of the accepting runs (not only the shortest).
  int minLength(std::vector<std::set<char>> &chars) const {
    std::set<int> cur;
    for (int i : initial)
      if (co[i])
        cur.insert(i);
    chars.clear();
    for (int m = 1; m <= int(node.size()) + 1; m++) {
      closure(cur);
      std::set<int> nxt;
      std::set<char> cs;
      for (int x : cur)
        for (auto &e : out[x])
          if (e.label != 0 && co[e.to]) {
            nxt.insert(e.to);
            cs.insert(e.label);
          }
      chars.push_back(cs);
      if (nxt.empty())
        return -1;
      auto cl = nxt;
      closure(cl);
      for (int x : cl)
        if (a.match[node[x].s])
          return m;
      cur = nxt;
    }
    return -1;
  }
};
} // namespace mon
