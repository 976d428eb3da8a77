// Monitors of the two constraint data types: zones (DBMs) and intervals.
#include "real.hh"
#include "runner.hh"
#include "interval.hh"
using namespace mon;

// ------------------------------------------------------------- reference zones
// Difference bounds as integers: x - y < c is 2c, x - y <= c is 2c+1.
struct RefZone {
  static constexpr long INF = LONG_MAX / 4;
  int n; // clocks
  std::vector<std::vector<long>> d;
  explicit RefZone(int n) : n(n), d(n + 1, std::vector<long>(n + 1, 1)) {}
  static long add(long a, long b) {
    if (a >= INF || b >= INF)
      return INF;
    return 2 * ((a >> 1) + (b >> 1)) + ((a & 1) & (b & 1));
  }
  bool close() {
    for (int k = 0; k <= n; k++)
      for (int i = 0; i <= n; i++)
        for (int j = 0; j <= n; j++)
          d[i][j] = std::min(d[i][j], add(d[i][k], d[k][j]));
    for (int i = 0; i <= n; i++)
      if (d[i][i] < 1)
        return false;
    return true;
  }
  void tighten(int x, int y, long b) { d[x][y] = std::min(d[x][y], b); }
  void reset(int x) {
    for (int j = 0; j <= n; j++)
      if (j != x) {
        d[x][j] = d[0][j];
        d[j][x] = d[j][0];
      }
    d[x][0] = d[0][x] = 1;
    d[x][x] = 1;
  }
  // strictly positive delay
  void elapse() {
    for (int i = 1; i <= n; i++) {
      d[i][0] = INF;
      d[0][i] = (d[0][i] & 1) ? d[0][i] - 1 : d[0][i];
    }
  }
  bool includes(const RefZone &o) const { // both closed, satisfiable
    for (int i = 0; i <= n; i++)
      for (int j = 0; j <= n; j++)
        if (i != j && o.d[i][j] > d[i][j])
          return false;
    return true;
  }
};
static long code(const Bounds &b) {
  if (std::isinf(b.first))
    return b.first > 0 ? RefZone::INF : -RefZone::INF;
  return 2 * long(std::floor(b.first)) + (b.second ? 1 : 0);
}
static Bounds boundOf(long c) { return Bounds(double(c >> 1), c & 1); }
static RefZone read(const Zone &z) {
  RefZone r(int(z.value.cols()) - 1);
  for (int i = 0; i <= r.n; i++)
    for (int j = 0; j <= r.n; j++)
      r.d[i][j] = i == j ? 1 : code(z.value(i, j));
  return r;
}
static std::string show(const RefZone &z) {
  std::ostringstream o;
  for (int i = 0; i <= z.n; i++)
    for (int j = 0; j <= z.n; j++)
      if (i != j && z.d[i][j] < RefZone::INF)
        o << "x" << i << "-x" << j << ((z.d[i][j] & 1) ? "<=" : "<") << (z.d[i][j] >> 1) << " ";
  return o.str();
}
// ops: e | r x | t x y code | c | a M | g
static std::string genZone(Rng &r, uint64_t) {
  const int n = r.range(1, r.chance(80) ? 3 : 6);
  std::ostringstream o;
  o << "zone " << n << "\n";
  const int mc = r.range(1, 6);
  for (int k = r.range(2, 14); k > 0; k--)
    switch (r.below(9)) {
    case 0:
    case 1:
    case 2:
      o << "e\n";
      break;
    case 3:
    case 4:
      o << "r " << r.below(n) << "\n";
      break;
    case 8:
      if (r.chance(40))
        o << "a " << r.range(r.chance(15) ? 0 : 1, mc) << "\n";
      else
        o << "c\n";
      break;
    default: {
      int x = r.range(-1, n - 1), y = r.range(-1, n - 1);
      if (x == y)
        y = x == -1 ? 0 : -1;
      if (r.chance(75)) { // a guard
        if (r.chance(50)) {
          x = r.below(n);
          y = -1;
        } else {
          y = r.below(n);
          x = -1;
        }
      }
      long c = x == -1 ? -r.range(0, mc) : r.range(y == -1 ? 0 : -mc, mc);
      o << "t " << x << " " << y << " " << 2 * c + r.below(2) << "\n";
    }
    }
  return o.str();
}
static void checkZone(const std::string &text, Ctx &cx) {
  std::istringstream in(text);
  std::string line;
  int n = 0;
  std::unique_ptr<RefZone> ref;
  Zone z;
  long ops = 0;
  bool elapsed = false;
  while (std::getline(in, line)) {
    std::istringstream s(line);
    std::string k;
    s >> k;
    if (k == "zone") {
      s >> n;
      ref.reset(new RefZone(n));
      z = Zone::zero(n + 1);
      if (z.getNumOfVar() != size_t(n))
        cx.violate("Zone::zero has the wrong size");
      continue;
    }
    if (!ref)
      continue;
    if (k == "e") {
      ref->elapse();
      z.elapse();
      elapsed = true;
    } else if (k == "r") {
      int x;
      s >> x;
      ref->reset(x + 1);
      z.canonize();
      z.reset(ClockVariables(x));
    } else if (k == "t") {
      int x, y;
      long b;
      s >> x >> y >> b;
      ref->tighten(x + 1, y + 1, b);
      z.tighten(ClockVariables(x), ClockVariables(y), boundOf(b));
    } else if (k == "c") {
      z.canonize();
    } else if (k == "a") {
      int M;
      s >> M;
      // the abstraction only adds valuations, none that the constants up to M
      // can tell apart from the original ones
      Zone w = z;
      w.M = Bounds{double(M), true};
      w.abstractize();
      w.canonize();
      Zone w2 = w;
      RefZone big = read(w);
      if (!w2.isSatisfiable() || !big.close())
        cx.violate("abstractize made the zone empty");
      else {
        if (!big.includes(*ref))
          cx.violate("abstractize lost valuations: " + show(*ref) + " became " + show(big));
        for (int x = 1; x <= n; x++) {
          // upper and lower bounds up to M survive
          if (ref->d[x][0] < 2 * long(M) && big.d[x][0] != ref->d[x][0])
            cx.violate("abstractize changed an upper bound below M");
          if (big.d[0][x] > 1)
            cx.violate("abstractize allows negative clocks");
          if (ref->d[0][x] > -2 * long(M) && big.d[0][x] != ref->d[0][x])
            cx.violate("abstractize changed a lower bound below M");
          if (ref->d[0][x] <= -2 * long(M) && big.d[0][x] > -2 * long(M))
            cx.violate("abstractize dropped the information that a clock exceeds M");
        }
        for (int i = 0; i <= n; i++)
          for (int j = 0; j <= n; j++)
            if (i != j && big.d[i][j] < RefZone::INF && std::labs(big.d[i][j] >> 1) > long(n + 1) * (M + 1))
              cx.violate("abstractize keeps constants far beyond M (infinitely many abstractions): " + show(big));
        cx.st["abstractions"]++;
      }
      if (!cx.violations.empty())
        return;
      continue;
    } else
      continue;
    ops++;
    const bool sat = ref->close();
    Zone c = z;
    const bool rsat = c.isSatisfiable();
    if (rsat != sat) {
      cx.violate("after `" + line + "`: isSatisfiable() is " + (rsat ? "true" : "false") + " for " + show(*ref));
      return;
    }
    if (!sat) {
      cx.st["unsatisfiable"]++;
      return;
    }
    RefZone got = read(c);
    if (got.d != ref->d) {
      cx.violate("after `" + line + "`: canonical form " + show(got) + " instead of " + show(*ref));
      return;
    }
    if (!(c == c))
      cx.violate("a zone differs from itself");
    Zone u = c;
    u.makeUnsat();
    if (u.isSatisfiable())
      cx.violate("makeUnsat left a satisfiable zone");
  }
  cx.st["operations"] += ops;
  cx.nontrivial = elapsed && ops > 2;
}

// ------------------------------------------------------------------- intervals
struct RI {
  double lo, hi;
  bool lc, hc;
  bool has(double v) const { return (lc ? lo <= v : lo < v) && (hc ? v <= hi : v < hi); }
  bool empty() const { return lo > hi || (lo == hi && !(lc && hc)); }
  Interval real() const { return Interval(Bounds{lo, lc}, Bounds{hi, hc}); }
  std::string str() const {
    std::ostringstream o;
    o << (lc ? "[" : "(") << lo << "," << hi << (hc ? "]" : ")");
    return o.str();
  }
};
static RI genRI(Rng &r) {
  RI x;
  x.lo = r.range(0, 5);
  x.lc = r.chance(50);
  if (r.chance(20)) {
    x.hi = std::numeric_limits<double>::infinity();
    x.hc = false;
  } else {
    x.hi = x.lo + r.range(0, 4);
    x.hc = r.chance(50);
    if (x.hi == x.lo)
      x.lc = x.hc = true;
  }
  return x;
}
static std::string genIv(Rng &r, uint64_t) {
  std::ostringstream o;
  for (int side = 0; side < 2; side++) {
    o << "set";
    for (int k = r.range(1, 4); k > 0; k--) {
      RI x = genRI(r);
      o << " " << x.lo << " " << (std::isinf(x.hi) ? -1 : x.hi) << " " << x.lc << " " << x.hc;
    }
    o << "\n";
  }
  return o.str();
}
using IvSet = std::vector<std::shared_ptr<Interval>>;
static IvSet realSet(const std::vector<RI> &v) {
  IvSet s;
  for (auto &x : v)
    s.push_back(std::make_shared<Interval>(x.real()));
  return s;
}
static bool in(const IvSet &s, double v) {
  for (auto &p : s)
    if (p->contain(v))
      return true;
  return false;
}
static void checkIv(const std::string &text, Ctx &cx) {
  std::istringstream is(text);
  std::string line;
  std::vector<std::vector<RI>> sets;
  while (std::getline(is, line)) {
    std::istringstream s(line);
    std::string k;
    s >> k;
    if (k != "set")
      continue;
    sets.emplace_back();
    RI x;
    double hi;
    while (s >> x.lo >> hi >> x.lc >> x.hc) {
      x.hi = hi < 0 ? std::numeric_limits<double>::infinity() : hi;
      sets.back().push_back(x);
    }
  }
  if (sets.size() != 2 || sets[0].empty() || sets[1].empty()) {
    cx.skip = "unparsable";
    return;
  }
  auto &A = sets[0], &B = sets[1];
  std::vector<double> grid;
  for (int k = 0; k <= 120; k++)
    grid.push_back(k * 0.25);
  auto any = [](const std::vector<RI> &v, double p) {
    for (auto &x : v)
      if (x.has(p))
        return true;
    return false;
  };
  const Interval a = A[0].real(), b = B[0].real();
  const Interval both = a && b, sum = a + b;
  RI s{A[0].lo + B[0].lo, A[0].hi + B[0].hi, A[0].lc && B[0].lc, A[0].hc && B[0].hc};
  IvSet l1 = realSet(A), l2 = realSet(A), add = realSet(A), right = realSet(B);
  land(l1, b);
  land(l2, right);
  add += right;
  std::vector<RI> sums;
  for (auto &x : A)
    for (auto &y : B)
      sums.push_back({x.lo + y.lo, x.hi + y.hi, x.lc && y.lc, x.hc && y.hc});
  // Kleene plus: bounded intervals with a point in the open interior
  std::vector<IvSet> plusOf;
  for (auto &x : A) {
    plusOf.emplace_back();
    if (x.hi > x.lo) {
      Interval i = x.real();
      i.plus(plusOf.back());
    }
  }
  auto bad = [&](const std::string &what, double p, bool got) {
    std::ostringstream o;
    o << what << ": " << p << (got ? " is" : " is not") << " in the result; operands";
    for (auto &x : A)
      o << " " << x.str();
    o << " |";
    for (auto &x : B)
      o << " " << x.str();
    cx.violate(o.str());
  };
  for (double p : grid) {
    cx.st["points"]++;
    if (a.contain(p) != A[0].has(p))
      bad("contain", p, a.contain(p));
    if (both.contain(p) != (A[0].has(p) && B[0].has(p)))
      bad("&&", p, both.contain(p));
    if (sum.contain(p) != s.has(p))
      bad("+", p, sum.contain(p));
    if (in(l1, p) != (any(A, p) && B[0].has(p)))
      bad("land(set, interval)", p, in(l1, p));
    if (in(l2, p) != (any(A, p) && any(B, p)))
      bad("land(set, set)", p, in(l2, p));
    if (in(add, p) != any(sums, p))
      bad("+=", p, in(add, p));
    for (size_t i = 0; i < A.size(); i++) {
      if (A[i].hi <= A[i].lo)
        continue;
      // the sums i*I; the library closes gaps of single points between two
      // touching open intervals, which are not judged
      bool mem = false, touch = false;
      for (int k = 1; k <= 200; k++) {
        RI m{A[i].lo * k, A[i].hi * k, A[i].lc, A[i].hc};
        mem = mem || m.has(p);
        touch = touch || p == m.lo || p == m.hi;
      }
      const bool g = in(plusOf[i], p);
      if (mem && !g)
        bad("plus of " + A[i].str(), p, g);
      if (!mem && g && !touch)
        bad("plus of " + A[i].str(), p, g);
    }
    if (!cx.violations.empty())
      return;
  }
  for (auto &p : right)
    cx.st["intervals"] += p ? 1 : 0;
  for (size_t i = 0; i < B.size(); i++)
    if (right[i]->lowerBound != Bounds{B[i].lo, B[i].lc} || right[i]->upperBound != Bounds{B[i].hi, B[i].hc})
      cx.violate("the right operand was modified");
  cx.nontrivial = A.size() + B.size() > 2;
}

int main(int argc, char **argv) {
  installExitTrap();
  std::vector<Monitor> ms;
  ms.push_back({"zone-ops", genZone, checkZone});
  ms.push_back({"intervals", genIv, checkIv});
  return runnerMain(argc, argv, ms);
}
