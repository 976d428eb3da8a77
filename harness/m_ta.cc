// Monitors of the automaton operations behind the skip tables: products, zone
// automata, Sunday-type and KMP-type skip values.
#include "match.hh"
#include "region.hh"
#include "ta_model.hh"
using namespace mon;

// ------------------------------------------------------------- two-automata cases
static std::string twoStr(const MTA &a, const MTA &b, const std::vector<Word> &ws, const std::string &extra) {
  std::string s = extra + a.str() + b.str();
  for (auto &w : ws)
    s += wordStr(w);
  return s;
}
struct Two {
  MTA a, b;
  std::vector<Word> ws;
  std::vector<std::string> extra;
};
static bool parseTwo(const std::string &text, Two &t) {
  std::istringstream in(text);
  if (!parseMTA(in, t.a) || !parseMTA(in, t.b))
    return false;
  std::string line;
  while (std::getline(in, line))
    if (line.compare(0, 4, "word") == 0)
      t.ws.push_back(parseWord(line));
  std::istringstream in2(text);
  while (std::getline(in2, line))
    if (line.compare(0, 2, "x ") == 0)
      t.extra.push_back(line.substr(2));
  return true;
}
static int acc(const MTA &a, const Word &w, bool eps) { return eps ? acceptsEps(a, w) : accepts(a, w); }

static std::string genProduct(Rng &r, uint64_t) {
  GenOpt o;
  o.dollar = false;
  o.maxStates = r.range(2, 4);
  o.maxClocks = 2;
  o.alphabet = r.range(1, 2);
  o.maxConst = r.range(1, 3);
  o.guardPercent = r.range(20, 70);
  const bool eps = r.chance(35);
  o.epsPercent = eps ? 50 : 0;
  Two t;
  t.a = genTA(r, o);
  if (r.chance(20)) {
    t.b = t.a;
  } else
    t.b = genTA(r, o);
  for (auto *m : {&t.a, &t.b})
    for (int i = 0; i < m->n; i++)
      if (r.chance(15))
        m->match[i] = 1;
  if (eps)
    for (auto *m : {&t.a, &t.b}) // silent cycles, acceptance by a silent transition
      for (int k = r.chance(40) ? r.range(1, 2) : 0; k > 0; k--) {
        const int s = r.below(m->n);
        m->edges.push_back({s, 0, r.chance(40) ? s : r.below(m->n), genGuard(r, o, m->clocks), genResets(r, o, m->clocks)});
      }
  for (int k = eps ? 12 : 24; k > 0; k--) {
    Word w;
    const MTA &g = r.chance(50) ? t.a : t.b;
    if (r.chance(75))
      appendRun(r, g, w, r.range(1, eps ? 3 : 6), true);
    else
      for (int n = r.range(0, eps ? 3 : 6); n > 0; n--)
        w.push_back({char('a' + r.below(o.alphabet)), (w.empty() ? 0 : w.back().t) + EV * r.range(0, 4)});
    t.ws.push_back(w);
  }
  std::string extra;
  if (r.chance(15))
    extra += "x self\n";
  // later values of the initial and accepting states
  for (int k = 0; k < 2; k++) {
    extra += "x upd";
    for (auto *m : {&t.a, &t.b}) {
      for (int i = 0; i < m->n; i++)
        extra += " " + std::to_string(r.below(4)); // bit 0 initial, bit 1 accepting
    }
    extra += "\n";
  }
  return twoStr(t.a, t.b, t.ws, extra);
}
static void checkProduct(const std::string &text, Ctx &cx) {
  Two t;
  if (!parseTwo(text, t)) {
    cx.skip = "unparsable";
    return;
  }
  bool self = false;
  std::vector<std::vector<int>> upd;
  for (auto &x : t.extra) {
    std::istringstream s(x);
    std::string k;
    s >> k;
    if (k == "self")
      self = true;
    else if (k == "upd") {
      upd.emplace_back();
      int v;
      while (s >> v)
        upd.back().push_back(v);
    }
  }
  if (self)
    t.b = t.a;
  const bool eps = t.a.hasEps() || t.b.hasEps();
  TimedAutomaton A = toReal(t.a), B = self ? TimedAutomaton() : toReal(t.b), C;
  TimedAutomaton &Bref = self ? A : B;
  boost::unordered_map<std::pair<TAState *, TAState *>, std::shared_ptr<TAState>> toI;
  intersectionTA(A, Bref, C, toI);
  auto compare = [&](const char *when) {
    std::string err;
    MTA c = fromReal(C, err);
    if (!err.empty()) {
      cx.violate(std::string(when) + ": " + err);
      return;
    }
    if (c.clocks != t.a.clocks + t.b.clocks)
      cx.violate("the product has " + std::to_string(c.clocks) + " clocks");
    for (auto &w : t.ws) {
      const int x = acc(t.a, w, eps), y = acc(t.b, w, eps), z = x < 0 || y < 0 ? -1 : acc(c, w, eps);
      if (z < 0) {
        cx.st["words_with_too_many_configurations"]++;
        continue;
      }
      cx.st["words"]++;
      if (x && y) {
        cx.st["words_in_both"]++;
        if (w.size() > 1)
          cx.nontrivial = true;
      } else if (x || y)
        cx.st["words_in_one"]++;
      if (z != (x && y)) {
        cx.violate(std::string(when) + ": word " + prettyWord(w) + (z ? "accepted" : "rejected") +
                   " by the product, but the operands say " + (x ? "1" : "0") + (y ? "1" : "0"));
        return;
      }
    }
  };
  compare("product");
  std::string err;
  if (edgeKey(Edge{}, {0}) == "" || !isomorphic(fromReal(A, err), t.a) || !isomorphic(fromReal(Bref, err), t.b))
    cx.violate("an operand was modified");
  for (auto &u : upd) {
    auto set = [&](TimedAutomaton &X, MTA &m, size_t base) {
      X.initialStates.clear();
      for (int i = 0; i < m.n; i++) {
        const int v = base + i < u.size() ? u[base + i] : 0;
        m.init[i] = v & 1;
        m.match[i] = v >> 1 & 1;
        X.states[i]->isMatch = m.match[i];
        if (m.init[i])
          X.initialStates.push_back(X.states[i]);
      }
    };
    set(A, t.a, 0);
    if (self)
      t.b = t.a;
    else
      set(B, t.b, t.a.n);
    updateInitAccepting(A, Bref, C, toI);
    cx.st["updates"]++;
    compare("after updateInitAccepting");
  }
}

// ------------------------------------------------------------------ zone automata
static std::string genZa(Rng &r, uint64_t) {
  GenOpt o;
  o.dollar = r.chance(30);
  o.maxStates = r.range(2, 8);
  o.maxClocks = r.chance(60) ? 2 : 3;
  o.alphabet = r.range(1, 3);
  o.maxConst = r.range(1, r.chance(80) ? 3 : 6);
  o.guardPercent = r.range(30, 95);
  o.resetPercent = r.range(20, 60);
  o.epsPercent = r.chance(35) ? 60 : 0;
  MTA a;
  switch (r.below(6)) {
  case 0:
    a = genChainTA(r, o);
    break;
  case 1:
    a = genManyClocksTA(r, o);
    break;
  case 2:
    a = genKmpTA(r, o);
    break;
  default:
    a = genTA(r, o);
  }
  if (o.epsPercent && r.chance(40)) // silent cycles, acceptance by a silent transition
    for (int k = r.range(1, 2); k > 0; k--)
      a.edges.push_back({r.below(a.n), 0, r.below(a.n), genGuard(r, o, a.clocks), genResets(r, o, a.clocks)});
  if (r.chance(15))
    for (int i = 0; i < a.n; i++)
      if (r.chance(20))
        a.match[i] = 1;
  if (r.chance(10))
    for (auto &m : a.match)
      m = 0;
  // more guards on the way to acceptance: emptiness should be a close call
  for (auto &e : a.edges)
    if (a.clocks && r.chance(25))
      e.guard.push_back({r.below(a.clocks), r.below(4), r.range(0, o.maxConst)});
  if (r.chance(10)) // parallel edges
    for (int k = int(a.edges.size()) - 1; k >= 0; k--)
      if (a.edges[k].label)
        a.edges.push_back(a.edges[k]);
  return a.str();
}
// the successors of a zone state, whatever the containers are
inline const ZAState *deref(const std::weak_ptr<ZAState> &p) { return p.lock().get(); }
inline const ZAState *deref(const std::shared_ptr<ZAState> &p) { return p.get(); }
inline const ZAState *deref(const ZAState *p) { return p; }
template <class V> const V &edgesOf(const V &v) { return v; }
template <class K, class V> const V &edgesOf(const std::pair<K, V> &v) { return v.second; }
static int taIndex(const TimedAutomaton &ta, const TAState *s) {
  for (size_t i = 0; i < ta.states.size(); i++)
    if (ta.states[i].get() == s)
      return int(i);
  return -1;
}
static void checkZA(const MTA &a, Ctx &cx, bool weak);
static void checkZa(const std::string &text, Ctx &cx) {
  std::istringstream in(text);
  MTA a;
  if (!parseMTA(in, a)) {
    cx.skip = "unparsable";
    return;
  }
  for (bool weak : {false, true}) {
    checkZA(a, cx, weak);
    if (!cx.violations.empty() || !cx.skip.empty())
      return;
  }
}
static void checkZA(const MTA &a, Ctx &cx, bool weak) {
  RegionGraph g(a, 200000, weak);
  if (g.overflow) {
    cx.skip = "region graph too large";
    return;
  }
  auto ta = toReal(a);
  ZoneAutomaton za;
  if (weak)
    ta2za(ta, za, Zone::zero(0), true);
  else
    ta2za(ta, za);
  cx.st["zone_states"] += long(za.states.size());
  cx.st["regions"] += long(g.node.size());
  std::set<int> locs;
  for (auto &s : za.states) {
    const int i = taIndex(ta, s->taState);
    if (i < 0) {
      cx.violate("a zone state belongs to no location");
      return;
    }
    locs.insert(i);
    if (s->isMatch != bool(a.match[i]))
      cx.violate("a zone state does not carry the acceptance of its location");
  }
  if (locs != g.locations())
    cx.violate("reachable locations: zone automaton " + std::to_string(locs.size()) + ", regions " +
               std::to_string(g.locations().size()));
  const bool e = g.empty();
  cx.st[e ? "empty_languages" : "nonempty_languages"]++;
  cx.nontrivial = !e && a.clocks > 0;
  if (za.empty() != e)
    cx.violate(std::string("the zone automaton is ") + (e ? "not " : "") + "empty, the language is" + (e ? "" : " not"));
  // removal of dead states: exactly the states on the way to acceptance stay
  std::map<const ZAState *, int> id;
  for (size_t i = 0; i < za.states.size(); i++)
    id[za.states[i].get()] = int(i);
  std::vector<std::vector<int>> pred(za.states.size());
  std::vector<char> alive(za.states.size(), 0);
  std::vector<int> st;
  for (size_t i = 0; i < za.states.size(); i++) {
    for (auto &v : za.states[i]->next)
      for (auto &w : edgesOf(v))
        if (auto p = deref(w))
          pred[id[p]].push_back(int(i));
    if (za.states[i]->isMatch) {
      alive[i] = 1;
      st.push_back(int(i));
    }
  }
  while (!st.empty()) {
    int x = st.back();
    st.pop_back();
    for (int p : pred[x])
      if (!alive[p]) {
        alive[p] = 1;
        st.push_back(p);
      }
  }
  std::set<const ZAState *> want, wantInit, got, gotInit;
  for (size_t i = 0; i < za.states.size(); i++)
    if (alive[i])
      want.insert(za.states[i].get());
  for (auto &s : za.initialStates)
    if (alive[id[s.get()]])
      wantInit.insert(s.get());
  auto keep = za.states;
  za.removeDeadStates();
  for (auto &s : za.states)
    got.insert(s.get());
  for (auto &s : za.initialStates)
    gotInit.insert(s.get());
  cx.st["dead_states"] += long(keep.size() - want.size());
  if (got != want)
    cx.violate("removeDeadStates kept " + std::to_string(got.size()) + " states instead of " + std::to_string(want.size()));
  if (gotInit != wantInit)
    cx.violate("removeDeadStates kept the wrong initial states");
  keep.clear();
  if (za.empty() != e)
    cx.violate("removing dead states changed the emptiness of the language");
}

// -------------------------------------------------------------- Sunday-type table
static bool sunday(const TimedAutomaton &ta, std::unique_ptr<SundaySkipValue> &out, int &code) {
  static std::unique_ptr<SundaySkipValue> *volatile p;
  static int *volatile pc;
  p = &out;
  pc = &code;
  if (setjmp(ExitTrap::buf()) == 0) {
    ExitTrap::armed() = true;
    out.reset(new SundaySkipValue(ta));
    ExitTrap::armed() = false;
    return true;
  }
  ExitTrap::armed() = false;
  *pc = ExitTrap::code();
  return false;
}
static void checkSunday(const std::string &text, Ctx &cx) {
  std::istringstream in(text);
  MTA a;
  if (!parseMTA(in, a)) {
    cx.skip = "unparsable";
    return;
  }
  // silent transitions may happen together with an event
  RegionGraph g(a, 200000, a.hasEps());
  if (g.overflow) {
    cx.skip = "region graph too large";
    return;
  }
  std::vector<std::set<char>> chars;
  const int m = g.minLength(chars);
  auto ta = toReal(a);
  std::unique_ptr<SundaySkipValue> sv;
  int code = 0;
  if (!sunday(ta, sv, code)) {
    cx.st["empty_patterns"]++;
    if (code != 10)
      cx.violate("exit(" + std::to_string(code) + ") for an empty pattern");
    if (m != -1)
      cx.violate("declared empty, but there is an accepted word of length " + std::to_string(m));
    return;
  }
  if (m == -1) {
    cx.violate("a pattern without accepted words is not declared empty");
    return;
  }
  cx.nontrivial = true;
  cx.st["patterns"]++;
  cx.st["length_sum"] += m;
  cx.st["max:length"] = std::max(cx.st["max:length"], long(m));
  if (sv->getM() != m) {
    cx.violate("minimal length " + std::to_string(sv->getM()) + " instead of " + std::to_string(m));
    return;
  }
  std::unordered_set<char> ends;
  sv->getEndChars(ends);
  for (char c : chars[m - 1])
    if (!ends.count(c))
      cx.violate("event '" + std::string(1, c) + "' is not among the " + std::to_string(m) + "-th events");
  for (int c = 1; c < 256; c++) {
    const long d = sv->at(static_cast<unsigned char>(c));
    long bound = m + 1;
    for (int i = 0; i < m; i++)
      if (chars[i].count(char(c)))
        bound = m - i;
    cx.st["skip_values"]++;
    if (d != long((*sv)[static_cast<unsigned char>(c)]))
      cx.violate("at() and [] differ");
    if (d < 1 || d > bound) {
      cx.violate("skip value " + std::to_string(d) + " for event " + std::to_string(c) + ", but at most " +
                 std::to_string(bound) + " is safe");
      return;
    }
  }
}

// ------------------------------------------ skip values against concrete matches
static std::string genSkip(Rng &r, uint64_t) { return genCase(r, KPlain, false); }
static void checkSkip(const std::string &text, Ctx &cx) {
  Ran R;
  if (!prepare(text, R)) {
    cx.skip = "unparsable";
    return;
  }
  R.scaled = R.c.a; // tables do not depend on the word: use the unscaled pattern
  for (auto &e : R.w)
    e.t -= R.c.off;
  R.c.off = 0;
  R.c.scale = 1;
  R.qs = queries(R.c);
  const MTA &a = R.c.a;
  const Word &w = R.w;
  auto ta = toReal(a);
  std::unique_ptr<SundaySkipValue> sv;
  int code = 0;
  auto ms = oracle(a, w, Mode::Plain, R.qs);
  if (!sunday(ta, sv, code)) {
    if (ms.nonzero)
      cx.violate("the pattern was declared empty but it matches");
    return;
  }
  const int m = sv->getM();
  KMPSkipValue kv(ta, m);
  const int n = int(w.size());
  // starts[k]: some match begins in [t(k-1), t(k))
  std::vector<char> starts(n + 1, 0);
  std::vector<std::pair<long, long>> wit(n + 1);
  for (auto &p : ms.pts) {
    if (ms.zeroEv.count(p))
      continue; // degenerate: no time passes, no event is read
    int k = 0;
    while (k < n && w[k].t <= p.first)
      k++;
    if (!starts[k]) {
      starts[k] = 1;
      wit[k] = p;
    }
  }
  std::unordered_set<char> ends;
  sv->getEndChars(ends);
  for (int i = 0; i < n; i++) {
    if (starts[i]) {
      cx.st["matching_starts"]++;
      if (i + m > n)
        cx.violate("a match shorter than the minimal length");
      else if (!ends.count(w[i + m - 1].c))
        cx.violate("a match whose " + std::to_string(m) + "-th event is not an end event");
    }
    if (i + m < n) {
      const int d = int((*sv)[static_cast<unsigned char>(w[i + m].c)]);
      cx.st["sunday_jumps"]++;
      for (int s = 1; s < d && i + s <= n; s++)
        if (starts[i + s]) {
          cx.violate("Sunday-type skip by " + std::to_string(d) + " from event " + std::to_string(i) +
                     " jumps over the match " + pt(R, wit[i + s].first, wit[i + s].second));
          return;
        }
    }
  }
  // KMP-type: from every state that a run can be in
  std::vector<int> kmp(a.n);
  for (int s = 0; s < a.n; s++) {
    kmp[s] = kv.at(ta.states[s]);
    if (kmp[s] != kv[ta.states[s].get()] || kmp[s] != kv[ta.states[s]] || kmp[s] != kv.at(ta.states[s].get()))
      cx.violate("the accessors of the skip table differ");
    if (kmp[s] < 1 || kmp[s] > std::max(1, m))
      cx.violate("KMP-type skip value " + std::to_string(kmp[s]) + " outside 1.." + std::to_string(m));
  }
  Index ix(a);
  for (long t : R.qs) {
    if (w.empty() || t >= w.back().t)
      break;
    int i = 0;
    while (w[i].t <= t)
      i++;
    std::set<Cfg> cur = initCfgs(a, t);
    for (int j = i; j <= n && !cur.empty(); j++) {
      for (auto &c : cur)
        if (kmp[c.s] > 1) {
          cx.st["kmp_jumps"]++;
          if (j > i)
            cx.nontrivial = true;
          for (int s = 1; s < kmp[c.s] && i + s <= n; s++)
            if (starts[i + s]) {
              cx.violate("KMP-type skip by " + std::to_string(kmp[c.s]) + " (state " + std::to_string(c.s) + " after " +
                         std::to_string(j - i) + " events) from event " + std::to_string(i) + " jumps over the match " +
                         pt(R, wit[i + s].first, wit[i + s].second));
              return;
            }
        }
      if (j < n)
        cur = stepAll(ix, cur, w[j].c, w[j].t);
    }
  }
}

int main(int argc, char **argv) {
  installExitTrap();
  std::vector<Monitor> ms;
  ms.push_back({"product", genProduct, checkProduct, 60});
  ms.push_back({"zone-automaton", genZa, checkZa});
  ms.push_back({"sunday", genZa, checkSunday});
  ms.push_back({"skip", genSkip, checkSkip, 20, 2});
  return runnerMain(argc, argv, ms);
}
