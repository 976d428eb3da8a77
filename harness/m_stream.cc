// Monitors of the input stream containers and of the online behaviour of the
// matching functions.
#include "match.hh"
#include <iomanip>
using namespace mon;

// ------------------------------------------------------------ containers
// A case is a script over a stream that is written piecewise into a pipe (or a
// file): `put` makes events available, the other operations are the interface
// of the container.  A fetch of an event that has been written completely must
// not wait for anything else: a watchdog turns a blocked read into a violation.
struct SCase {
  bool binary = false, file = false, vec = false;
  std::vector<std::pair<int, double>> ev;
  std::vector<std::string> txt; // textual form of each event
  std::string tail;             // malformed rest
  std::vector<std::string> ops;
};
static std::string esc(const std::string &s) {
  std::ostringstream o;
  for (unsigned char c : s)
    o << std::hex << std::setw(2) << std::setfill('0') << int(c);
  return o.str();
}
static std::string unesc(const std::string &s) {
  std::string o;
  for (size_t i = 0; i + 1 < s.size(); i += 2)
    o += char(std::stoi(s.substr(i, 2), nullptr, 16));
  return o;
}
static std::string num(Rng &r, double v) {
  char b[64];
  switch (r.below(5)) {
  case 0:
    snprintf(b, sizeof b, "%.17g", v);
    break;
  case 1:
    snprintf(b, sizeof b, "%.17e", v);
    break;
  case 2:
    snprintf(b, sizeof b, "+%.17g", v);
    break;
  case 3:
    snprintf(b, sizeof b, "%a", v);
    break;
  default:
    snprintf(b, sizeof b, "%.20f", v);
    if (strtod(b, nullptr) != v)
      snprintf(b, sizeof b, "%.17g", v);
  }
  return b;
}
static std::string genStream(Rng &r, uint64_t) {
  std::ostringstream o;
  const bool bin = r.chance(35), file = r.chance(25), vec = r.chance(20);
  o << "mode " << bin << " " << file << " " << vec << "\n";
  const int n = r.chance(10) ? r.range(40, 400) : r.range(0, 14);
  double t = 0;
  for (int i = 0; i < n; i++) {
    t += r.chance(50) ? r.range(1, 8) / 8.0 : r.range(1, 1000000) / 1e4;
    if (r.chance(3))
      t *= 1000;
    int c = r.chance(80) ? 'a' + r.below(26) : r.range(33, 255);
    if (bin && r.chance(20))
      c = r.range(0, 255);
    std::string s;
    if (bin) {
      s = std::string(1, char(c));
      s.append(reinterpret_cast<const char *>(&t), 8);
    } else {
      static const std::vector<std::string> sep = {" ", "\t", "  ", " \t "};
      static const std::vector<std::string> end = {"\n", "\n", "\n", "\r\n", " \n", "\n\n"};
      if (r.chance(10))
        s += r.chance(50) ? " " : "\n";
      s += char(c);
      s += r.pick(sep) + num(r, t) + r.pick(end);
    }
    char b[40];
    snprintf(b, sizeof b, "%.17g", t);
    o << "ev " << c << " " << b << " " << esc(s) << "\n";
  }
  if (r.chance(25)) { // malformed or truncated end
    std::string s;
    if (bin) {
      s = std::string(size_t(r.range(1, 8)), char(r.range(1, 255)));
    } else {
      static const std::vector<std::string> bad = {"x", "y \n", "z abc\n", "a b 3\n", "q", "# comment 1\n", "  \n", "a -\n", "a .\n"};
      s = r.pick(bad);
    }
    o << "tail " << esc(s) << "\n";
  }
  // script
  int avail = 0, front = 0, asked = 0;
  const int nops = r.range(4, 30);
  bool closed = file || vec;
  if (closed)
    avail = n;
  for (int k = 0; k < nops; k++) {
    switch (r.below(7)) {
    case 0:
      if (!closed && avail < n) {
        avail += r.range(1, std::min(3, n - avail));
        o << "op put " << avail << "\n";
      }
      break;
    case 1:
    case 2: {
      int q = closed ? r.range(std::max(0, front - 2), n + 3) : (avail ? r.below(avail) : -1);
      if (q < 0)
        break;
      if (!closed && r.chance(40)) // the newest event: nothing follows it yet
        q = avail - 1;
      o << "op fetch " << q << "\n";
      if (q >= front)
        asked = std::max(asked, std::min(q + 1, n));
      break;
    }
    case 3:
    case 4:
      o << (r.chance(50) ? "op get " : "op at ") << r.range(std::max(0, front - 2), std::min(n + 2, asked + 2)) << "\n";
      break;
    case 5: {
      // up to what is available (a jump over unread events reads them)
      int q = r.chance(85) ? r.range(front, std::min(asked, closed ? n : avail)) : r.range(0, closed ? n : avail);
      if (q > asked && vec)
        break;
      o << "op front " << q << "\n";
      if (q > front)
        front = q;
      asked = std::max(asked, front);
      break;
    }
    default:
      o << "op size\n";
    }
    if (!closed && avail == n && r.chance(30)) {
      o << "op close\n";
      closed = true;
    }
  }
  if (!closed)
    o << "op put " << n << "\nop close\n";
  o << "op all\n";
  return o.str();
}
static bool parseStream(const std::string &text, SCase &c) {
  std::istringstream in(text);
  std::string line;
  bool ok = false;
  while (std::getline(in, line)) {
    std::istringstream s(line);
    std::string k;
    s >> k;
    if (k == "mode") {
      s >> c.binary >> c.file >> c.vec;
      ok = true;
    } else if (k == "ev") {
      int ch;
      std::string t, x;
      s >> ch >> t >> x;
      c.ev.push_back({ch, strtod(t.c_str(), nullptr)});
      c.txt.push_back(unesc(x));
    } else if (k == "tail") {
      std::string x;
      s >> x;
      c.tail = unesc(x);
    } else if (k == "op")
      c.ops.push_back(line.substr(3));
  }
  return ok;
}
static volatile sig_atomic_t *blockedAt;
static void onAlarm(int) {
  const char m[] = "Assertion: a read waited although the event was available\n";
  ssize_t w = write(2, m, sizeof m - 1);
  (void)w;
  _exit(95);
}
template <class W> static void drive(const SCase &c, W &w, int wfd, Ctx &cx, bool isVec) {
  const int n = int(c.ev.size());
  int avail = wfd < 0 ? n : 0;
  int front = 0, fetched = wfd < 0 && isVec ? n : 0; // events handed over so far
  bool closed = wfd < 0, eof = false;
  long delivered = 0;
  auto put = [&](int k) {
    for (; avail < k; avail++)
      if (write(wfd, c.txt[avail].data(), c.txt[avail].size()) != ssize_t(c.txt[avail].size()))
        _exit(3);
  };
  auto bad = [&](const std::string &op, const std::string &m) { cx.violate(op + ": " + m); };
  auto sameEv = [&](const std::pair<Alphabet, double> &p, int q) {
    return p.first == char(c.ev[q].first) && p.second == c.ev[q].second;
  };
  auto access = [&](const std::string &op, int q, bool viaAt) {
    const bool legal = q >= (isVec ? 0 : front) && q < fetched && q < n;
    try {
      auto p = viaAt ? w.at(q) : w[q];
      if (!legal)
        bad(op, "an event outside the window was handed out");
      else if (!sameEv(p, q))
        bad(op, "wrong event: " + std::to_string(int(p.first)) + "@" + std::to_string(p.second));
      else
        delivered++;
    } catch (const std::out_of_range &) {
      if (legal)
        bad(op, "out_of_range for an event inside the window");
    }
  };
  auto fetch = [&](const std::string &op, int q) {
    alarm(30);
    const bool got = w.fetch(q);
    alarm(0);
    cx.st["fetches"]++;
    const bool want = q >= (isVec ? 0 : front) && q < n;
    if (got != want) {
      bad(op, std::string("fetch returned ") + (got ? "true" : "false"));
      return;
    }
    if (want)
      fetched = std::max(fetched, q + 1);
    else if (q >= front && !isVec) {
      eof = true;
      fetched = std::max(fetched, n);
    }
  };
  for (auto &op : c.ops) {
    std::istringstream s(op);
    std::string k;
    int q = 0;
    s >> k >> q;
    if (k == "put") {
      if (wfd >= 0)
        put(q);
    } else if (k == "close") {
      if (wfd >= 0) {
        put(n);
        if (!c.tail.empty() && write(wfd, c.tail.data(), c.tail.size()) < 0)
          _exit(3);
        ::close(wfd);
        wfd = -1;
        closed = true;
      }
    } else if (k == "fetch") {
      if (!closed && q >= avail)
        continue;
      fetch(op, q);
    } else if (k == "get" || k == "at") {
      if (isVec && k == "get" && q >= n)
        continue; // operator[] of the vector is unchecked
      access(op, q, k == "at");
    } else if (k == "front") {
      if (isVec)
        continue;
      try {
        alarm(30);
        w.setFront(q);
        alarm(0);
        if (q < front)
          bad(op, "setFront moved backwards without an error");
        front = std::max(front, q);
        fetched = std::max(fetched, front);
      } catch (const std::out_of_range &) {
        alarm(0);
        if (q >= front)
          bad(op, "out_of_range for a legal setFront");
      }
    } else if (k == "size") {
      if (!isVec && !eof && w.size() != std::numeric_limits<std::size_t>::max())
        bad(op, "the length is reported before the end was seen");
      if (eof && front <= n && w.size() != std::size_t(n))
        bad(op, "length " + std::to_string(w.size()) + " after the end of " + std::to_string(n) + " events");
    } else if (k == "all") {
      for (int q2 = front; q2 < n && cx.violations.empty(); q2++) {
        fetch("final fetch " + std::to_string(q2), q2);
        access("final at " + std::to_string(q2), q2, true);
      }
      fetch("final fetch past the end", n);
      fetch("final fetch past the end", n + 1);
      for (int q2 = front; q2 < n && cx.violations.empty(); q2++)
        access("after the end " + std::to_string(q2), q2, true);
    }
    if (!cx.violations.empty())
      break;
  }
  if (wfd >= 0)
    ::close(wfd);
  cx.st["events_delivered"] += delivered;
  cx.nontrivial = delivered > 0;
}
static void checkStream(const std::string &text, Ctx &cx) {
  SCase c;
  if (!parseStream(text, c)) {
    cx.skip = "unparsable";
    return;
  }
  signal(SIGALRM, onAlarm);
  signal(SIGPIPE, SIG_IGN);
  (void)blockedAt;
  FILE *f;
  int wfd = -1;
  if (c.file || c.vec) {
    f = tmpfile();
    for (auto &s : c.txt)
      fwrite(s.data(), 1, s.size(), f);
    fwrite(c.tail.data(), 1, c.tail.size(), f);
    rewind(f);
  } else {
    int p[2];
    if (pipe(p))
      _exit(3);
    fcntl(p[1], F_SETPIPE_SZ, 1 << 18);
    f = fdopen(p[0], "r");
    wfd = p[1];
  }
  if (!f)
    _exit(3);
  cx.st[c.binary ? "binary_streams" : "ascii_streams"]++;
  if (c.vec) {
    WordVector<std::pair<Alphabet, double>> w(f, c.binary);
    drive(c, w, -1, cx, true);
  } else {
    WordLazyDeque w(f, c.binary);
    drive(c, w, wfd, cx, false);
  }
  fclose(f);
}

// ------------------------------------------------------------ online matching
// D[i]: number of events that must be read to decide all matches that start in
// window i ([w[i-1],w[i]) ): up to the event at which the last run dies.
static std::vector<int> decidedAt(const MTA &a, const Word &w, const std::vector<long> &qs, Algo algo) {
  std::vector<int> D(w.size(), 0);
  Index ix(a);
  for (long t : qs) {
    size_t i = 0;
    while (i < w.size() && w[i].t <= t)
      i++;
    if (i >= w.size())
      break;
    auto cur = initCfgs(a, t);
    size_t j = i;
    while (j < w.size() && !cur.empty()) {
      cur = stepAll(ix, cur, w[j].c, w[j].t);
      j++;
    }
    // the end of the stream is observed by asking for one event more
    D[i] = std::max<int>(D[i], int(cur.empty() ? j : w.size() + 1));
  }
  (void)algo;
  return D;
}
// Number of events of the shortest accepted run that has an event (timing
// respected, delays on the tick grid): the window that may be inspected before
// a start position is tried.  0: not found.
static int shortest(const MTA &a, Algo algo) {
  Index ix(a);
  const long cap = long(a.maxConst() + 1) * UNIT + 1;
  std::vector<char> fin(a.n, 0);
  for (int s = 0; s < a.n; s++)
    fin[s] = a.match[s];
  if (algo != Algo::Plain)
    for (auto &e : a.edges)
      if (e.label == '$')
        fin[e.src] = 1;
  // clock values instead of reset times: value = -r at time 0
  std::set<Cfg> seen;
  std::vector<Cfg> cur;
  for (int s = 0; s < a.n; s++)
    if (a.init[s])
      cur.push_back(Cfg{s, std::vector<long>(a.clocks, 0)});
  const long step = a.clocks > 2 ? 4 : a.clocks == 2 ? 2 : 4;
  for (int len = 1; len <= 40 && !cur.empty(); len++) {
    std::vector<Cfg> nxt;
    for (auto &c : cur)
      for (auto *e : ix.out[c.s]) {
        if (e->label == '$' || e->label == 0)
          continue;
        for (long d = step; d <= cap + step; d += step) {
          Cfg n = c;
          bool ok = true;
          for (auto &v : n.r)
            v = std::min(v + d, cap);
          for (auto &g : e->guard)
            ok = ok && sat(n.r[g.x], g);
          if (!ok)
            continue;
          n.s = e->dst;
          for (int x : e->resets)
            n.r[x] = 0;
          if (fin[n.s])
            return len;
          if (seen.insert(n).second)
            nxt.push_back(n);
          if (seen.size() > 20000)
            return 0;
        }
      }
    cur = nxt;
  }
  return 0;
}
static void checkOnline(const std::string &text, Ctx &cx) {
  Ran R;
  if (!prepare(text, R) || R.w.empty()) {
    cx.skip = "unparsable";
    return;
  }
  auto ta = toReal(R.scaled);
  R.res = runReal(R.c.algo, ta, dataOf(R));
  if (!R.res.exception.empty()) {
    cx.violate("matching threw " + R.res.exception + " " + R.res.in->protocolError);
    return;
  }
  if (R.res.exited) {
    cx.skip = "empty_pattern";
    return;
  }
  const int n = int(R.w.size());
  auto D = decidedAt(R.c.a, R.w, R.qs, R.c.algo);
  const int m = shortest(R.c.a, R.c.algo);
  if (m == 0) {
    cx.skip = "no_accepting_run";
    return;
  }
  // need[i]: the furthest the stream may have been read when a match that
  // starts in window <= i is reported
  std::vector<int> need(n);
  for (int i = 0; i < n; i++)
    need[i] = std::max({i ? need[i - 1] : 0, D[i], i + 1});
  for (auto &z : R.res.zones) {
    double lo = -z.lt.first;
    int i = 0;
    while (i < n && R.f(R.w[i].t) <= lo)
      i++;
    if (i >= n)
      continue;
    cx.nontrivial = true;
    // one event of look-ahead, or the length of the shortest match
    const int bound = std::max(need[i] + 1, i + m);
    const int got = int(z.atFetched);
    cx.st["reports_timed"]++;
    cx.st["max:read_ahead"] = std::max<long>(cx.st["max:read_ahead"], got - need[i]);
    if (got > bound) {
      cx.violate("the zone {" + z.str() + "} was reported after " + std::to_string(got) +
                 " events were read; all matches that start up to window " + std::to_string(i) +
                 " are decided by " + std::to_string(need[i]));
      break;
    }
  }
  // memory: the window kept in the container
  int maxKeep = 0;
  for (int i = 0; i < n; i++)
    maxKeep = std::max(maxKeep, D[i] - i);
  const int keepBound = std::max(maxKeep, m) + 2;
  cx.st["max:window"] = std::max<long>(cx.st["max:window"], long(R.res.in->maxWindow));
  if (int(R.res.in->maxWindow) > keepBound)
    cx.violate("the container held " + std::to_string(R.res.in->maxWindow) +
               " events; the longest run spans " + std::to_string(maxKeep));
}
// The reports made before an event is read do not depend on it or on later
// events; and they are reported no later for one continuation than another.
static void checkCausal(const std::string &text, Ctx &cx) {
  Ran R;
  if (!prepare(text, R) || R.w.size() < 2) {
    cx.skip = "unparsable";
    return;
  }
  auto ta = toReal(R.scaled);
  auto base = dataOf(R);
  R.res = runReal(R.c.algo, ta, base);
  if (!R.res.exception.empty()) {
    cx.violate("matching threw " + R.res.exception + " " + R.res.in->protocolError);
    return;
  }
  if (R.res.exited) {
    cx.skip = "empty_pattern";
    return;
  }
  Rng r(hashStr(text));
  for (int rep = 0; rep < 4; rep++) {
    const size_t k = size_t(r.range(1, int(base.size())));
    auto alt = std::vector<std::pair<Alphabet, double>>(base.begin(), base.begin() + k);
    if (rep) {
      double t = alt.back().second;
      for (int e = r.below(6); e > 0; e--) {
        t += R.f(EV * r.range(1, 6));
        alt.push_back({base[size_t(r.below(int(base.size())))].first, t});
      }
    }
    auto o = runReal(R.c.algo, ta, alt);
    cx.st["continuations"]++;
    std::vector<std::array<Bounds, 6>> x, y;
    for (auto &z : R.res.zones)
      if (z.atFetched <= k)
        x.push_back(z.key());
    for (auto &z : o.zones)
      if (z.atFetched <= k)
        y.push_back(z.key());
    if (!x.empty())
      cx.nontrivial = true;
    cx.st["reports_compared"] += long(x.size());
    if (x != y) {
      cx.violate("the reports made while only the first " + std::to_string(k) +
                 " events were known depend on what follows (" + std::to_string(x.size()) + " / " +
                 std::to_string(y.size()) + " zones)");
      return;
    }
  }
}

int main(int argc, char **argv) {
  installExitTrap();
  std::vector<Monitor> ms;
  ms.push_back({"stream", genStream, checkStream});
  auto onl = [&](std::string nme, std::function<void(const std::string &, Ctx &)> f) {
    ms.push_back({nme, [](Rng &r, uint64_t) {
                    static const Kind ks[] = {KDollar, KDollar, KPlain, KMixed};
                    return genCase(r, ks[r.below(4)], false);
                  }, f});
  };
  onl("online", checkOnline);
  onl("causal", checkCausal);
  return runnerMain(argc, argv, ms);
}
