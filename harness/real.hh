#pragma once
// Bridges between the model (core.hh) and the real code under test.
#include "core.hh"

#include "monaa.hh"

extern "C" {
extern jmp_buf *mon_exit_buf;
extern bool *mon_exit_armed;
extern int *mon_exit_code;
}

namespace mon {

// exit() inside the code under test (e.g. "monaa: empty pattern") is turned
// into a return to the harness through the linker's --wrap=exit.
struct ExitTrap {
  static jmp_buf &buf() {
    static jmp_buf b;
    return b;
  }
  static bool &armed() {
    static bool a = false;
    return a;
  }
  static int &code() {
    static int c = 0;
    return c;
  }
};

inline void installExitTrap() {
  mon_exit_buf = &ExitTrap::buf();
  mon_exit_armed = &ExitTrap::armed();
  mon_exit_code = &ExitTrap::code();
}

inline TimedAutomaton toReal(const MTA &a, Rng *edgeOrder = nullptr) {
  TimedAutomaton ta;
  std::vector<std::shared_ptr<TAState>> st(a.n);
  // allocation order decides pointer order
  std::vector<int> order = a.perm;
  if (int(order.size()) != a.n) {
    order.resize(a.n);
    std::iota(order.begin(), order.end(), 0);
  }
  for (int i : order)
    st[i] = std::make_shared<TAState>(bool(a.match[i]));
  for (int i = 0; i < a.n; i++) {
    ta.states.push_back(st[i]);
  }
  for (int i : order)
    if (a.init[i])
      ta.initialStates.push_back(st[i]);
  ta.maxConstraints.assign(a.clocks, 0);
  for (auto &e : a.edges) {
    TATransition tr;
    tr.target = st[e.dst].get();
    for (int r : e.resets)
      tr.resetVars.push_back(ClockVariables(r));
    for (auto &g : e.guard) {
      static const Constraint::Order o[] = {
          Constraint::Order::lt, Constraint::Order::le, Constraint::Order::ge,
          Constraint::Order::gt};
      tr.guard.push_back(Constraint{ClockVariables(g.x), o[g.op], g.c});
      ta.maxConstraints[g.x] = std::max(ta.maxConstraints[g.x], g.c);
    }
    st[e.src]->next[e.label].push_back(tr);
  }
  return ta;
}

// Input container that records how the algorithm uses the stream.
struct InSpec {
  std::vector<std::pair<Alphabet, double>> data;
  // observations
  std::size_t front = 0, fetched = 0, maxWindow = 0, accesses = 0, fetches = 0;
  std::string protocolError;
  std::vector<std::string> *trace = nullptr;
};
struct VecIn {
  using value_type = std::pair<Alphabet, double>;
  static std::shared_ptr<InSpec> &next() {
    static std::shared_ptr<InSpec> p;
    return p;
  }
  std::shared_ptr<InSpec> sp;
  VecIn(FILE *, bool) : sp(next()) {}
  value_type operator[](std::size_t n) {
    sp->accesses++;
    if (n < sp->front || n >= sp->fetched || n >= sp->data.size()) {
      if (sp->protocolError.empty())
        sp->protocolError = "read of position " + std::to_string(n) +
                            " outside the fetched window [" +
                            std::to_string(sp->front) + "," +
                            std::to_string(sp->fetched) + ")";
      throw std::out_of_range("VecIn");
    }
    return sp->data[n];
  }
  value_type at(std::size_t n) { return (*this)[n]; }
  std::size_t size() const { return std::numeric_limits<std::size_t>::max(); }
  void setFront(std::size_t n) {
    if (n < sp->front) {
      if (sp->protocolError.empty())
        sp->protocolError = "setFront moved backwards from " +
                            std::to_string(sp->front) + " to " +
                            std::to_string(n);
      throw std::out_of_range("VecIn");
    }
    sp->front = n;
    sp->fetched = std::max(sp->fetched, std::min(n, sp->data.size()));
  }
  bool fetch(std::size_t n) {
    sp->fetches++;
    if (n < sp->front)
      return false;
    if (n >= sp->data.size()) {
      sp->fetched = sp->data.size() + 1; // end of stream observed
      return false;
    }
    sp->fetched = std::max(sp->fetched, n + 1);
    sp->maxWindow = std::max(sp->maxWindow, sp->fetched - sp->front);
    return true;
  }
};
struct RepZone {
  Bounds lt, ut, ltp, utp, ld, ud; // lower/upper of t, t', t'-t
  std::size_t atFetched = 0;       // events read when the zone was reported
  std::size_t atFront = 0;
  bool operator<(const RepZone &o) const {
    return key() < o.key();
  }
  std::array<Bounds, 6> key() const { return {lt, ut, ltp, utp, ld, ud}; }
  static bool le(double v, const Bounds &b) {
    return b.second ? v <= b.first : v < b.first;
  }
  bool contains(double t, double tp) const {
    return le(-t, lt) && le(t, ut) && le(-tp, ltp) && le(tp, utp) &&
           le(t - tp, ld) && le(tp - t, ud);
  }
  std::string str() const {
    std::ostringstream o;
    o << -lt.first << (lt.second ? "<=" : "<") << "t" << (ut.second ? "<=" : "<")
      << ut.first << "; " << -ltp.first << (ltp.second ? "<=" : "<") << "t'"
      << (utp.second ? "<=" : "<") << utp.first << "; " << -ld.first
      << (ld.second ? "<=" : "<") << "t'-t" << (ud.second ? "<=" : "<")
      << ud.first;
    return o.str();
  }
  // closure over {0,t,t'}; returns false when the zone is empty
  bool close(Bounds (&m)[3][3]) const {
    const Bounds z(0, true);
    m[0][0] = m[1][1] = m[2][2] = z;
    m[0][1] = lt;
    m[1][0] = ut;
    m[0][2] = ltp;
    m[2][0] = utp;
    m[1][2] = ld;
    m[2][1] = ud;
    for (int k = 0; k < 3; k++)
      for (int i = 0; i < 3; i++)
        for (int j = 0; j < 3; j++) {
          Bounds s(m[i][k].first + m[k][j].first,
                   m[i][k].second && m[k][j].second);
          if (s < m[i][j])
            m[i][j] = s;
        }
    for (int i = 0; i < 3; i++)
      if (m[i][i] < z)
        return false;
    return true;
  }
};
inline RepZone toRep(const Zone &z) {
  RepZone r;
  r.lt = z.value(0, 1);
  r.ut = z.value(1, 0);
  r.ltp = z.value(0, 2);
  r.utp = z.value(2, 0);
  r.ld = z.value(1, 2);
  r.ud = z.value(2, 1);
  return r;
}
struct RecOut {
  using value_type = Zone;
  std::shared_ptr<std::vector<RepZone>> out;
  std::shared_ptr<InSpec> in;
  void push_back(const Zone &z) {
    RepZone r = toRep(z);
    if (in) {
      r.atFetched = in->fetched;
      r.atFront = in->front;
    }
    out->push_back(r);
  }
  std::size_t size() const { return out->size(); }
  void clear() { out->clear(); }
  void reserve(std::size_t) {}
};

enum class Algo { Dollar, NotNecessary, Plain };
struct RunResult {
  bool exited = false;
  int exitCode = 0;
  std::string exception;
  std::vector<RepZone> zones;
  std::shared_ptr<InSpec> in;
};
inline std::vector<std::pair<Alphabet, double>> toData(const Word &w) {
  std::vector<std::pair<Alphabet, double>> d;
  for (auto &e : w)
    d.emplace_back(e.c, sec(e.t));
  return d;
}
inline RunResult runReal(Algo algo, const TimedAutomaton &ta,
                         std::vector<std::pair<Alphabet, double>> data) {
  RunResult res;
  auto spec = std::make_shared<InSpec>();
  spec->data = std::move(data);
  VecIn::next() = spec;
  res.in = spec;
  auto zones = std::make_shared<std::vector<RepZone>>();
  static RunResult *volatile pres; // survives longjmp
  pres = &res;
  if (setjmp(ExitTrap::buf()) == 0) {
    ExitTrap::armed() = true;
    try {
      WordContainer<VecIn> w(nullptr);
      AnsContainer<RecOut> ans(RecOut{zones, spec});
      switch (algo) {
      case Algo::Dollar:
        monaaDollar(w, ta, ans);
        break;
      case Algo::NotNecessary:
        monaaNotNecessaryDollar(w, ta, ans);
        break;
      case Algo::Plain:
        monaa(w, ta, ans);
        break;
      }
    } catch (const std::exception &e) {
      res.exception = std::string("exception: ") + e.what();
    }
  } else {
    pres->exited = true;
    pres->exitCode = ExitTrap::code();
  }
  ExitTrap::armed() = false;
  pres->zones = *zones;
  return res;
}

} // namespace mon
