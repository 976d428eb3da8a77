// Metamorphic monitors: what a run reports depends on the pattern and the log
// alone, not on earlier runs, representation, containers or names.
#include "eps.hh"
#include "ta_model.hh"
using namespace mon;

namespace {
// The zones of a run as sets of points: canonical, without repetition.
using Canon = std::set<std::array<std::pair<double, bool>, 6>>;
Canon canon(const std::vector<RepZone> &zs, double factor = 1) {
  Canon c;
  for (auto &z : zs) {
    Bounds m[3][3];
    if (!z.close(m))
      continue;
    std::array<std::pair<double, bool>, 6> k;
    const Bounds b[6] = {m[0][1], m[1][0], m[0][2], m[2][0], m[1][2], m[2][1]};
    for (int i = 0; i < 6; i++)
      k[i] = {b[i].first / factor + 0.0, b[i].second};
    c.insert(k);
  }
  return c;
}
std::string outcome(const RunResult &r) {
  return r.exited ? "exit " + std::to_string(r.exitCode) : !r.exception.empty() ? r.exception : "";
}
std::string diff(const Canon &a, const Canon &b) {
  std::ostringstream o;
  o << a.size() << " and " << b.size() << " zones";
  for (auto &k : a)
    if (!b.count(k)) {
      o << "; only in the first: " << -k[0].first << (k[0].second ? "<=" : "<") << "t" << (k[1].second ? "<=" : "<") << k[1].first << " "
        << -k[2].first << (k[2].second ? "<=" : "<") << "t'" << (k[3].second ? "<=" : "<") << k[3].first;
      break;
    }
  for (auto &k : b)
    if (!a.count(k)) {
      o << "; only in the second: " << -k[0].first << (k[0].second ? "<=" : "<") << "t" << (k[1].second ? "<=" : "<") << k[1].first << " "
        << -k[2].first << (k[2].second ? "<=" : "<") << "t'" << (k[3].second ? "<=" : "<") << k[3].first;
      break;
    }
  return o.str();
}
std::string genAny(Rng &r) {
  switch (r.below(8)) {
  case 0:
  case 1:
  case 2:
    return genCase(r, KDollar, false);
  case 3:
  case 4:
    return genCase(r, KPlain, false);
  case 5:
    return genEpsCase(r);
  default:
    return genCase(r, KMixed, false);
  }
}
std::vector<std::string> parts(const std::string &text) {
  std::vector<std::string> p(1);
  std::istringstream in(text);
  std::string l;
  while (std::getline(in, l))
    if (l == "====")
      p.emplace_back();
    else if (l.compare(0, 1, "#"))
      p.back() += l + "\n";
  return p;
}
// ------------------------------------------------------------------ repeat
std::string genRepeat(Rng &r, uint64_t) {
  std::string all;
  const int k = r.range(2, 3);
  bool hv = false;
  for (int i = 0; i < k; i++) {
    std::string s = genAny(r);
    if (s.empty())
      return "";
    if (!s.compare(0, 5, "heavy")) {
      hv = true;
      if (r.chance(70))
        return "";
    }
    all += (i ? "====\n" : "") + s;
  }
  return (hv ? "heavy\n" : "") + all;
}
std::string sameMTA(const MTA &a, const MTA &b) {
  if (a.n != b.n || a.clocks != b.clocks)
    return "number of states or clocks";
  if (a.init != b.init)
    return "initial states";
  if (a.match != b.match)
    return "accepting states";
  std::vector<int> id(a.n);
  std::iota(id.begin(), id.end(), 0);
  std::multiset<std::string> x, y;
  for (auto &e : a.edges)
    x.insert(edgeKey(e, id));
  for (auto &e : b.edges)
    y.insert(edgeKey(e, id));
  return x == y ? "" : "transitions";
}
void checkRepeat(const std::string &text, Ctx &cx) {
  std::vector<Ran> rs;
  for (auto &p : parts(text)) {
    rs.emplace_back();
    if (!prepare(p, rs.back())) {
      cx.skip = "unparsable";
      return;
    }
  }
  std::vector<TimedAutomaton> tas;
  std::vector<MTA> before;
  std::vector<Canon> first(rs.size());
  std::vector<std::string> end(rs.size());
  std::string err;
  for (auto &R : rs) {
    tas.push_back(toReal(R.scaled));
    before.push_back(fromReal(tas.back(), err));
  }
  const size_t order[] = {0, 1, 0, 2, 1, 0, 2};
  std::set<size_t> seen;
  for (size_t i : order) {
    if (i >= rs.size())
      continue;
    // the same automaton object, or a new one with the same content
    const bool fresh = seen.count(i) && (i + seen.size()) % 2;
    TimedAutomaton f;
    if (fresh)
      f = toReal(rs[i].scaled);
    auto res = runReal(rs[i].c.algo, fresh ? f : tas[i], dataOf(rs[i]));
    const Canon c = canon(res.zones);
    cx.st["runs"]++;
    cx.st["zones"] += long(res.zones.size());
    if (!seen.count(i)) {
      seen.insert(i);
      first[i] = c;
      end[i] = outcome(res);
    } else {
      cx.st["repetitions"]++;
      if (end[i] != outcome(res))
        cx.violate("run " + std::to_string(i) + " ended with `" + end[i] + "` and then with `" + outcome(res) + "`");
      else if (c != first[i])
        cx.violate("case " + std::to_string(i) + " run again: " + diff(first[i], c));
      if (!c.empty())
        cx.nontrivial = true;
    }
    MTA after = fromReal(tas[i], err);
    const std::string d = err.empty() ? sameMTA(before[i], after) : err;
    if (!d.empty())
      cx.violate("matching modified the pattern of the caller: " + d);
    if (!cx.violations.empty())
      return;
  }
}
// ------------------------------------------------------------------ rename
// The transformations are drawn from the number in the `twist` line.
std::string genTwist(Rng &r, uint64_t) {
  std::string s = genAny(r);
  if (s.empty())
    return "";
  const bool hv = !s.compare(0, 5, "heavy");
  if (hv && r.chance(60))
    return "";
  return (hv ? "heavy\n" : "") + ("twist " + std::to_string(r.below(1000000)) + "\n") + s;
}
void checkTwist(const std::string &text, Ctx &cx) {
  Ran R;
  if (!prepare(text, R)) {
    cx.skip = "unparsable";
    return;
  }
  long tw = 0;
  {
    auto p = text.find("twist ");
    if (p != std::string::npos)
      tw = atol(text.c_str() + p + 6);
  }
  auto ta = toReal(R.scaled);
  auto base = runReal(R.c.algo, ta, dataOf(R));
  const Canon c0 = canon(base.zones);
  if (!c0.empty())
    cx.nontrivial = true;
  Rng r(tw + 17);
  for (int k = 0; k < 4; k++) {
    MTA b = R.scaled;
    auto data = dataOf(R);
    double factor = 1;
    std::string what;
    if (r.chance(50)) { // names of the states
      what += " states";
      std::vector<int> p(b.n);
      std::iota(p.begin(), p.end(), 0);
      r.shuffle(p);
      MTA q = b;
      for (int i = 0; i < b.n; i++) {
        q.init[p[i]] = b.init[i];
        q.match[p[i]] = b.match[i];
      }
      for (auto &e : q.edges) {
        e.src = p[e.src];
        e.dst = p[e.dst];
      }
      r.shuffle(q.perm);
      b = q;
    }
    if (r.chance(50)) {
      what += " transitions";
      r.shuffle(b.edges);
      for (auto &e : b.edges) {
        r.shuffle(e.guard);
        r.shuffle(e.resets);
      }
    }
    if (b.clocks > 1 && r.chance(60)) {
      what += " clocks";
      std::vector<int> p(b.clocks);
      std::iota(p.begin(), p.end(), 0);
      r.shuffle(p);
      for (auto &e : b.edges) {
        for (auto &g : e.guard)
          g.x = p[g.x];
        for (auto &x : e.resets)
          x = p[x];
      }
    }
    if (r.chance(50)) {
      what += " letters";
      std::vector<int> pool;
      for (int c = 1; c < 127; c++)
        if (c != '$')
          pool.push_back(c);
      r.shuffle(pool);
      std::map<char, char> m;
      size_t q = 0;
      m[0] = 0;
      m['$'] = '$';
      for (auto &e : b.edges)
        if (!m.count(e.label))
          m[e.label] = char(pool[q++]);
      for (auto &e : b.edges)
        e.label = m[e.label];
      for (auto &d : data) {
        if (!m.count(d.first))
          m[d.first] = r.chance(50) ? char(pool[q++]) : char(r.range(128, 255));
        // letters that are not in the pattern may share a name, or be bytes
        // beyond the labels a pattern can have
        d.first = m[d.first];
      }
    }
    if (r.chance(40)) {
      static const double f[] = {2, 4, 16, 1024};
      const int i = r.below(4);
      if (long(b.maxConst()) * long(f[i]) < 1000000000L) {
        factor = f[i];
        what += " unit";
        for (auto &e : b.edges)
          for (auto &g : e.guard)
            g.c = int(g.c * f[i]);
        for (auto &d : data)
          d.second *= f[i];
      }
    }
    if (r.chance(30) && !b.edges.empty()) {
      what += " repetition";
      for (int q = r.range(1, 2); q > 0; q--) {
        auto &e = b.edges[r.below(int(b.edges.size()))];
        if (e.label && !e.guard.empty())
          e.guard.push_back(e.guard[r.below(int(e.guard.size()))]);
        if (!e.resets.empty())
          e.resets.push_back(e.resets[0]);
      }
    }
    auto tb = toReal(b);
    auto res = runReal(R.c.algo, tb, data);
    const Canon c1 = canon(res.zones, factor);
    cx.st["variants"]++;
    if (outcome(base) != outcome(res))
      cx.violate("after changing" + what + ": `" + outcome(base) + "` became `" + outcome(res) + "`");
    else if (c0 != c1)
      cx.violate("after changing" + what + ": " + diff(c0, c1));
    if (!cx.violations.empty())
      return;
  }
}
// -------------------------------------------------------------- containers
void checkContainers(const std::string &text, Ctx &cx) {
  Ran R;
  if (!prepare(text, R)) {
    cx.skip = "unparsable";
    return;
  }
  auto data = dataOf(R);
  for (auto &d : data)
    if (isspace(static_cast<unsigned char>(d.first)) || (d.first >= 9 && d.first <= 13)) {
      cx.skip = "a letter is white space";
      return;
    }
  auto ta = toReal(R.scaled);
  auto base = runReal(R.c.algo, ta, data);
  if (base.exited || !base.exception.empty())
    return;
  auto run = [&](auto &w, auto &ans) {
    switch (R.c.algo) {
    case Algo::Dollar:
      monaaDollar(w, ta, ans);
      break;
    case Algo::NotNecessary:
      monaaNotNecessaryDollar(w, ta, ans);
      break;
    case Algo::Plain:
      monaa(w, ta, ans);
      break;
    }
  };
  const Canon c0 = canon(base.zones);
  if (!c0.empty())
    cx.nontrivial = true;
  for (int k = 0; k < 4; k++) {
    const bool binary = k & 1, vec = k & 2;
    FILE *f = tmpfile();
    if (!f) {
      cx.skip = "no scratch file";
      return;
    }
    for (auto &d : data)
      if (binary) {
        fwrite(&d.first, 1, 1, f);
        fwrite(&d.second, sizeof(double), 1, f);
      } else
        fprintf(f, "%c %.17g\n", d.first, d.second);
    rewind(f);
    std::vector<RepZone> zs;
    AnsVec<Zone> ans;
    AnsNum<Zone> num;
    const std::string name = std::string(vec ? "WordVector" : "WordLazyDeque") + (binary ? " (binary)" : " (text)");
    try {
      if (vec) {
        WordVector<std::pair<Alphabet, double>> w(f, binary);
        run(w, ans);
        run(w, num);
      } else {
        WordLazyDeque w(f, binary);
        run(w, ans);
        rewind(f);
        WordLazyDeque w2(f, binary);
        run(w2, num);
      }
    } catch (const std::exception &e) {
      cx.violate(name + ": exception " + e.what());
    }
    fclose(f);
    for (auto &z : ans)
      zs.push_back(toRep(z));
    cx.st["runs"] += 2;
    cx.st["zones"] += long(zs.size());
    if (!cx.violations.empty())
      return;
    if (zs.size() != ans.size())
      cx.violate("AnsVec counts " + std::to_string(ans.size()) + " of " + std::to_string(zs.size()) + " zones");
    const Canon c1 = canon(zs);
    if (c0 != c1)
      cx.violate(name + ": " + diff(c0, c1));
    if (num.size() != ans.size())
      cx.violate(name + ": AnsNum counts " + std::to_string(num.size()) + " zones, AnsVec " + std::to_string(ans.size()));
    ans.clear();
    num.clear();
    if (ans.size() || num.size())
      cx.violate("clear() keeps zones");
  }
}
// -------------------------------------------------------------- automaton
std::string genAut(Rng &r, uint64_t) {
  GenOpt o;
  o.dollar = r.chance(30);
  o.maxStates = r.range(2, 6);
  o.maxClocks = r.range(0, 3);
  o.alphabet = r.range(1, 3);
  o.maxConst = r.range(0, 4);
  o.guardPercent = r.range(20, 80);
  MTA a = r.chance(70) ? genTA(r, o) : genManyClocksTA(r, o);
  if (r.chance(30))
    a.match[r.below(a.n)] = 1;
  std::string s = a.str();
  for (int k = 0; k < 12; k++) {
    Word w = genWord(r, a, o, r.range(1, 8));
    if (r.chance(25)) // simultaneous events, times off the grid
      for (auto &e : w)
        e.t = (e.t / EV) * EV / r.range(1, 2);
    std::sort(w.begin(), w.end(), [](auto &x, auto &y) { return x.t < y.t; });
    if (o.dollar && r.chance(60))
      w.push_back({'$', w.back().t + r.below(3 * UNIT)});
    s += wordStr(w);
  }
  return s + "word\n";
}
void checkAut(const std::string &text, Ctx &cx) {
  std::istringstream in(text);
  MTA a;
  if (!parseMTA(in, a)) {
    cx.skip = "unparsable";
    return;
  }
  std::string line, err;
  std::vector<Word> ws;
  while (std::getline(in, line))
    if (!line.compare(0, 4, "word"))
      ws.push_back(parseWord(line));
  std::vector<bool> memb;
  auto members = [&](const TimedAutomaton &t) {
    std::vector<bool> v;
    for (auto &w : ws)
      v.push_back(t.isMember(toData(w)));
    return v;
  };
  TimedAutomaton copy, copy2;
  std::unordered_map<TAState *, std::shared_ptr<TAState>> map;
  {
    TimedAutomaton ta = toReal(a);
    for (auto &w : ws) {
      const bool x = ta.isMember(toData(w)), y = accepts(a, w);
      cx.st["words"]++;
      cx.st["accepted"] += y;
      if (y && !w.empty())
        cx.nontrivial = true;
      if (x != y)
        cx.violate("isMember says " + std::to_string(x) + " for " + prettyWord(w));
      memb.push_back(y);
    }
    ta.deepCopy(copy, map);
    std::string d = sameMTA(a, fromReal(copy, err));
    if (err.empty() && !d.empty())
      err = d;
    if (!err.empty())
      cx.violate("deepCopy: " + err);
    if (copy.maxConstraints != ta.maxConstraints)
      cx.violate("deepCopy: maxConstraints");
    for (size_t i = 0; i < ta.states.size(); i++) {
      if (map.count(ta.states[i].get()) == 0 || map[ta.states[i].get()] != copy.states[i])
        cx.violate("deepCopy: wrong mapping of states");
      if (ta.states[i] == copy.states[i])
        cx.violate("deepCopy: a state is shared");
      copy.states[i]->zeroDuration == ta.states[i]->zeroDuration ? void() : cx.violate("deepCopy: zeroDuration");
    }
    // changing the original leaves the copy alone
    std::unordered_map<TAState *, std::shared_ptr<TAState>> map2;
    copy.deepCopy(copy2, map2);
    for (auto &s : ta.states) {
      s->isMatch = !s->isMatch;
      for (auto &n : s->next)
        n.second.clear();
      s->next.clear();
    }
    ta.initialStates.clear();
    ta.maxConstraints.assign(ta.maxConstraints.size(), 0);
  }
  // the original is gone
  if (members(copy) != memb || members(copy2) != memb)
    cx.violate("deepCopy: the copy depends on the original");
  std::string d = sameMTA(a, fromReal(copy2, err));
  if (!d.empty() || !err.empty())
    cx.violate("deepCopy of a copy: " + d + err);
}
} // namespace

int main(int argc, char **argv) {
  installExitTrap();
  std::vector<Monitor> ms;
  ms.push_back({"repeat", genRepeat, checkRepeat, 40, 3});
  ms.push_back({"twist", genTwist, checkTwist, 40, 3});
  ms.push_back({"containers", [](Rng &r, uint64_t) { return genAny(r); }, checkContainers, 40, 3});
  ms.push_back({"automaton", genAut, checkAut});
  return runnerMain(argc, argv, ms);
}
