// Monitors of automata in DOT and of the command-line tool fed with them.
#include "cli.hh"
#include "dotgen.hh"
#include "match.hh"
#include "ta_model.hh"
#include <iomanip>
#include <termios.h>
using namespace mon;
bool monParseDot(const std::string &text, TimedAutomaton &ta, std::string &err);

static std::string field(const std::string &text, const std::string &key) {
  std::istringstream in(text);
  std::string line;
  while (std::getline(in, line))
    if (line.compare(0, key.size() + 1, key + " ") == 0)
      return line.substr(key.size() + 1);
  return "";
}
static std::string scratchFile(const std::string &content, const char *tag) {
  const char *d = getenv("MON_SCRATCH");
  std::string p = std::string(d ? d : "/tmp") + "/mon-" + tag + "-" + std::to_string(getpid());
  spit(p, content);
  return p;
}
// labels that are legal in a DOT string and in a log
static void relabelDot(Rng &r, MTA &a, Word &w, bool digits) {
  if (!r.chance(50))
    return;
  std::vector<int> pool;
  for (int c = 33; c < 127; c++)
    if (c != '$' && c != '"' && c != '\\' && c != '<' && c != '>' && (digits || isalpha(c)))
      pool.push_back(c);
  r.shuffle(pool);
  std::map<char, char> m;
  size_t k = 0;
  for (char c : std::string("abcdefz"))
    m[c] = char(pool[k++]);
  for (auto &e : a.edges)
    if (e.label && e.label != '$')
      e.label = m.at(e.label);
  for (auto &e : w)
    if (m.count(e.c))
      e.c = m.at(e.c);
}
static MTA parseReal(const std::string &dot, TimedAutomaton &ta, std::string &err) {
  if (!monParseDot(dot, ta, err)) {
    err = "rejected: " + err;
    return MTA();
  }
  return fromReal(ta, err);
}
static MTA genAnyTA(Rng &r) {
  GenOpt o;
  o.dollar = r.chance(60);
  o.maxStates = r.range(2, 6);
  o.maxClocks = r.range(0, 4);
  o.alphabet = r.range(1, 3);
  o.maxConst = r.chance(70) ? r.range(1, 12) : 100000;
  o.guardPercent = r.range(0, 90);
  o.resetPercent = r.range(0, 70);
  MTA a;
  switch (r.below(4)) {
  case 0:
    a = genManyClocksTA(r, o);
    break;
  case 1:
    a = genKmpTA(r, o);
    break;
  default:
    a = genTA(r, o);
  }
  // clocks with larger names
  if (a.clocks && r.chance(25)) {
    int base = r.range(1, 60);
    for (auto &e : a.edges) {
      for (auto &g : e.guard)
        g.x += base;
      for (auto &x : e.resets)
        x += base;
    }
    a.clocks += base;
  }
  if (r.chance(15))
    for (auto &e : a.edges)
      if (r.chance(20) && !e.guard.empty())
        e.guard.push_back(e.guard[0]);
  return a;
}
static std::string genRead(Rng &r, uint64_t) {
  MTA a = genAnyTA(r);
  Word w;
  relabelDot(r, a, w, true);
  return a.str() + "dot " + hexOf(dotText(r, a)) + "\n";
}
static void checkRead(const std::string &text, Ctx &cx, bool write) {
  std::istringstream in(text);
  MTA a;
  if (!parseMTA(in, a)) {
    cx.skip = "unparsable";
    return;
  }
  std::string dot;
  if (write) {
    auto ta = toReal(a);
    std::ostringstream o;
    o << ta;
    dot = o.str();
  } else
    dot = unhex(field(text, "dot"));
  std::string err;
  TimedAutomaton ta;
  MTA b = parseReal(dot, ta, err);
  if (!err.empty()) {
    cx.violate(err + ": " + dot);
    return;
  }
  cx.nontrivial = a.edges.size() > 1;
  cx.st["automata"]++;
  cx.st["edges"] += long(a.edges.size());
  for (auto &e : a.edges) {
    cx.st["guards"] += long(e.guard.size());
    cx.st["resets"] += long(e.resets.size());
  }
  if (!isomorphic(a, b))
    cx.violate("the automaton read differs from the one written: " + b.str() + " for " + dot);
  // every clock in use is declared, and its maximal constant is maximal
  std::vector<int> want;
  for (auto &e : a.edges) {
    for (auto &g : e.guard) {
      want.resize(std::max<size_t>(want.size(), g.x + 1));
      want[g.x] = std::max(want[g.x], g.c);
    }
    for (int x : e.resets)
      want.resize(std::max<size_t>(want.size(), x + 1));
  }
  for (size_t x = 0; x < want.size(); x++)
    if (x >= ta.maxConstraints.size() || ta.maxConstraints[x] < want[x]) {
      cx.violate("clock " + std::to_string(x) + " is not declared or its maximal constant is too small");
      break;
    }
}

// ------------------------------------------------------------ monaa -f
static std::string genCli(Rng &r, uint64_t) {
  Case c;
  std::string t;
  do {
    t = genCase(r, KDollar, false);
    parseCase(t, c);
  } while (heavy(c.a));
  // undo the relabelling of genCase for labels DOT or the log cannot carry
  std::map<char, char> m;
  char nxt = 'A';
  auto ok = [](char x) { return x > 32 && x < 127 && x != '"' && x != '\\' && x != '<' && x != '>'; };
  auto map = [&](char x) {
    if (x == '$' || x == 0 || ok(x))
      return x;
    if (!m.count(x))
      m[x] = nxt++;
    return m[x];
  };
  std::set<char> used;
  for (auto &e : c.a.edges)
    used.insert(e.label);
  for (auto &e : c.w)
    used.insert(e.c);
  while (used.count(nxt))
    nxt++;
  for (auto &e : c.a.edges) {
    e.label = map(e.label);
    while (used.count(nxt))
      nxt++;
  }
  for (auto &e : c.w) {
    e.c = map(e.c);
    while (used.count(nxt))
      nxt++;
  }
  MTA scaled = c.a;
  for (auto &e : scaled.edges)
    for (auto &g : e.guard)
      g.c = int(g.c * c.scale);
  std::ostringstream o;
  o << caseStr(c) << "jitter " << (r.chance(35) ? r.range(1, 1000000) : 0) << "\nstyle " << r.below(4) << " "
    << r.below(3) << "\ndot " << hexOf(dotText(r, scaled)) << "\n";
  return o.str();
}
// The zones printed by `monaa -f` are the matches (judge), and they are the
// zones the library reports, in its order and with all bounds to six decimals.
static bool sameText(const RepZone &printed, const RepZone &lib) {
  auto p = printed.key(), l = lib.key();
  for (int i = 0; i < 6; i++) {
    if (p[i].second != l[i].second)
      return false;
    if (std::isinf(p[i].first) || std::isinf(l[i].first)) {
      if (p[i].first != l[i].first)
        return false;
    } else if (std::fabs(p[i].first - l[i].first) > 0.51e-6 + 1e-12 * std::fabs(l[i].first))
      return false;
  }
  return true;
}
static void checkCli(const std::string &text, Ctx &cx) {
  static const std::string bin = binFromEnv("MON_BIN_MONAA");
  Ran R;
  if (!prepare(text, R)) {
    cx.skip = "unparsable";
    return;
  }
  const long jit = atol(field(text, "jitter").c_str());
  int style = 0, numStyle = 0;
  std::istringstream(field(text, "style")) >> style >> numStyle;
  const std::string dot = unhex(field(text, "dot"));
  auto data = dataOf(R);
  if (jit) {
    Rng r(jit);
    for (auto &d : data)
      d.second += r.range(0, 200000) * 1e-6 * double(R.c.scale) / 3.0;
  }
  std::string log;
  for (auto &d : data) {
    char b[80];
    snprintf(b, sizeof b, numStyle == 0 ? "%c %.17g\n" : numStyle == 1 ? "%c\t%.17e\n" : "%c  %.17g \n", d.first, d.second);
    log += b;
  }
  std::string f = scratchFile(dot, "dot"), l = scratchFile(log, "log");
  std::vector<std::string> args;
  std::string input;
  switch (style) {
  case 0:
    args = {"-f", f};
    input = log;
    break;
  case 1:
    args = {"-f", f, "-i", l};
    break;
  case 2:
    args = {"--automaton=" + f, l};
    break;
  default:
    args = {"-E", "-a", "--input", l, "--automaton", f};
  }
  auto r = runCli(bin, args, input, 60);
  unlink(f.c_str());
  unlink(l.c_str());
  if (r.timeout || r.truncated) {
    cx.skip = "slow";
    return;
  }
  // the library on the same text
  TimedAutomaton ta;
  std::string err;
  if (!monParseDot(dot, ta, err)) {
    cx.violate("a legal automaton was rejected: " + err);
    return;
  }
  auto lib = runReal(Algo::Dollar, ta, data);
  const int want = lib.exited ? lib.exitCode : 0;
  if (r.exit != want) {
    cx.violate("exit status " + std::to_string(r.exit) + ", expected " + std::to_string(want) + " " + r.err);
    return;
  }
  std::vector<RepZone> zs;
  std::string why;
  if (!parseZones(r.out, zs, why)) {
    cx.violate("output: " + why);
    return;
  }
  cx.st["runs"]++;
  cx.st["zones_printed"] += long(zs.size());
  cx.nontrivial = !zs.empty();
  if (zs.size() != lib.zones.size()) {
    cx.violate(std::to_string(zs.size()) + " zones printed, " + std::to_string(lib.zones.size()) +
               " reported by the library");
    return;
  }
  for (size_t i = 0; i < zs.size(); i++)
    if (!sameText(zs[i], lib.zones[i])) {
      cx.violate("zone " + std::to_string(i) + " printed as {" + zs[i].str() + "}, reported as {" +
                 lib.zones[i].str() + "}");
      return;
    }
  if (!jit) {
    R.res = lib;
    R.res.zones = zs;
    judge(R, cx, Sound | Complete);
  }
}

// ------------------------------------------------------------ malformed input
static std::string genBad(Rng &r, uint64_t) {
  MTA a;
  do
    a = genAnyTA(r);
  while (a.edges.empty() || a.clocks > 4 || heavy(a));
  Word w;
  relabelDot(r, a, w, false);
  const int e = r.below(int(a.edges.size()));
  if (a.edges[e].guard.empty())
    a.edges[e].guard.push_back({0, r.below(4), r.range(0, 5)});
  // one attribute of each kind, so that no later one replaces the bad one
  for (auto &x : a.edges[e].resets)
    x = -1;
  a.edges[e].resets.clear();
  std::string d = dotText(r, a), kind;
  if (d.find("//") != std::string::npos || d.find("/*") != std::string::npos)
    return "";
  const std::string own = guardStr(a.edges[e].guard);
  if (d.find(own) != d.rfind(own)) // the guard must name the edge
    return "";
  auto replaceFirst = [&](const std::string &from, const std::string &to) {
    std::vector<size_t> at;
    for (size_t p = d.find(from); p != std::string::npos; p = d.find(from, p + 1))
      at.push_back(p);
    if (at.empty())
      return false;
    size_t p = r.pick(at);
    d = d.substr(0, p) + to + d.substr(p + from.size());
    return true;
  };
  const std::string g = "\"" + guardStr(a.edges[e].guard) + "\"";
  auto one = guardStr({a.edges[e].guard[0]});
  const int c = a.edges[e].guard[0].c;
  const std::string cs = std::to_string(c);
  switch (r.below(8)) {
  case 0: {
    static const std::vector<std::string> bad = {"{x0 = 1}", "{y0 < 1}", "{x0 < }", "x0 < 1", "{x0 < 1", "{x0 <> 1}", "{x < 1}", "{x0 < a}", "{x0 ! 1}", "{x0 < 1; x0 > 0}", "{,}", "{x0 => 1}",
                                                 "{x255 < 1}", "{x256 < 1}", "{x300 <= 2}", "{x-1 < 2}", "{x99999999999 < 1}", "{x0 < 2147483648}", "{x0 > -2147483648}", "{x0 >= 4294967297}", "{x0 <= 99999999999999999999}"};
    std::string b = r.pick(bad);
    if (!replaceFirst(g, "\"" + b + "\""))
      return "";
    kind = "guard " + b;
    break;
  }
  case 1: {
    static const std::vector<std::string> bad = {"{a}", "0", "{0", "{0;1}", "{x0}", "{0 1}", "{,0}", "{255}", "{256}", "{-1}", "{0, 300}", "{4294967296}", "{99999999999}"};
    std::string b = r.pick(bad);
    if (!replaceFirst("guard=" + g, "reset=\"" + b + "\"") && !replaceFirst("guard = " + g, "reset=\"" + b + "\""))
      return "";
    kind = "reset " + b;
    break;
  }
  case 2: {
    static const std::vector<std::string> bad = {"yes", "2x", "\"+\"", "true", "\"-\"", "\"0 1\""};
    std::string b = r.pick(bad);
    std::string k = r.chance(50) ? "init" : "match";
    if (!replaceFirst(k + "=1", k + "=" + b) && !replaceFirst(k + " = 1", k + "=" + b))
      return "";
    kind = k + " " + b;
    break;
  }
  case 3: {
    while (!d.empty() && d.back() != '}')
      d.pop_back();
    d.pop_back();
    if (r.chance(60) && d.size() > 20)
      d = d.substr(0, size_t(r.range(8, int(d.size()))));
    kind = "truncated";
    break;
  }
  case 4:
    if (!replaceFirst("->", r.chance(50) ? "=>" : ">"))
      return "";
    kind = "arrow";
    break;
  case 5:
    if (r.chance(50)) { // a letter that cannot be represented
      if (d.find("edge") != std::string::npos)
        return "";
      std::vector<size_t> at;
      for (size_t q = d.find("label=\""); q != std::string::npos; q = d.find("label=\"", q + 1))
        if (q + 8 < d.size() && d[q + 8] == '"')
          at.push_back(q + 7);
      if (at.empty())
        return "";
      d[r.pick(at)] = char(r.chance(70) ? r.range(128, 255) : 127);
      kind = "label";
      break;
    }
    if (!replaceFirst("label=", r.chance(50) ? "label==" : "label=[") && !replaceFirst("label = ", "label = = "))
      return "";
    kind = "label";
    break;
  case 6: {
    int n = r.range(0, 40);
    d.clear();
    for (int i = 0; i < n; i++)
      d += char(r.range(1, 127));
    kind = "noise";
    break;
  }
  default: {
    // random edit: only the absence of crashes is certain
    for (int k = r.range(1, 4); k > 0 && !d.empty(); k--) {
      size_t p = size_t(r.below(int(d.size())));
      switch (r.below(3)) {
      case 0:
        d.erase(p, size_t(r.range(1, 5)));
        break;
      case 1:
        d.insert(p, std::string(1, char(r.range(1, 127))));
        break;
      default:
        d[p] = "{}[]\"=,;->x0<19 $"[r.below(17)];
      }
    }
    kind = "edit";
  }
  }
  return "kind " + kind + "\ndot " + hexOf(d) + "\n";
}
static void checkBad(const std::string &text, Ctx &cx) {
  static const std::string bin = binFromEnv("MON_BIN_MONAA");
  const std::string kind = field(text, "kind"), dot = unhex(field(text, "dot"));
  std::string f = scratchFile(dot, "dot");
  auto r = runCli(bin, {"-f", f}, "a 0.5\nb 1\na 1.5\nb 2\nc 2.5\n", 4);
  unlink(f.c_str());
  if (r.timeout) {
    cx.skip = "slow";
    return;
  }
  cx.nontrivial = true;
  cx.st["runs"]++;
  if (r.exit < 0 || (r.exit != 0 && r.exit != 2 && r.exit != 10))
    cx.violate("status " + std::to_string(r.exit) + " for a malformed automaton (" + kind + "): " + r.err);
  else if (r.exit == 2) {
    cx.st["rejected"]++;
    if (!r.out.empty() || r.err.empty())
      cx.violate("a rejected automaton must leave a message and no result (" + kind + ")");
  } else {
    cx.st["accepted"]++;
    if (kind != "edit" && kind != "noise")
      cx.violate("a malformed automaton was accepted (" + kind + "): " + dot);
  }
}

// ------------------------------------------------------------ online
// monaa reads events from a pipe and prints to a terminal: the zones the
// library reports after k events are on the terminal while the (k+1)-th event
// has not been written yet.
static void checkOnlineCli(const std::string &text, Ctx &cx) {
  static const std::string bin = binFromEnv("MON_BIN_MONAA");
  Ran R;
  if (!prepare(text, R)) {
    cx.skip = "unparsable";
    return;
  }
  const std::string dot = unhex(field(text, "dot"));
  TimedAutomaton ta;
  std::string err;
  if (!monParseDot(dot, ta, err)) {
    cx.violate("a legal automaton was rejected: " + err);
    return;
  }
  auto data = dataOf(R);
  auto lib = runReal(Algo::Dollar, ta, data);
  if (lib.exited || lib.zones.empty() || lib.zones.size() > 400) {
    cx.skip = "nothing_to_print";
    return;
  }
  int m = posix_openpt(O_RDWR | O_NOCTTY | O_CLOEXEC);
  char name[128];
  if (m < 0 || grantpt(m) || unlockpt(m) || ptsname_r(m, name, sizeof name)) {
    cx.skip = "no_terminal";
    return;
  }
  int sl = ::open(name, O_RDWR | O_NOCTTY | O_CLOEXEC);
  struct termios tio;
  tcgetattr(sl, &tio);
  cfmakeraw(&tio);
  tcsetattr(sl, TCSANOW, &tio);
  int in[2];
  if (pipe2(in, O_CLOEXEC))
    _exit(3);
  std::string f = scratchFile(dot, "dot");
  posix_spawn_file_actions_t fa;
  posix_spawn_file_actions_init(&fa);
  posix_spawn_file_actions_adddup2(&fa, in[0], 0);
  posix_spawn_file_actions_adddup2(&fa, sl, 1);
  posix_spawn_file_actions_addopen(&fa, 2, "/dev/null", O_WRONLY, 0);
  char *av[] = {const_cast<char *>(bin.c_str()), const_cast<char *>("-f"), const_cast<char *>(f.c_str()), nullptr};
  pid_t pid;
  if (posix_spawn(&pid, bin.c_str(), &fa, nullptr, av, environ))
    _exit(3);
  posix_spawn_file_actions_destroy(&fa);
  ::close(in[0]);
  ::close(sl);
  signal(SIGPIPE, SIG_IGN);
  std::string out;
  size_t printed = 0;
  bool eof = false;
  auto pump = [&](int ms) {
    struct pollfd p = {m, POLLIN, 0};
    if (poll(&p, 1, ms) <= 0)
      return false;
    char buf[8192];
    ssize_t g = read(m, buf, sizeof buf);
    if (g <= 0) {
      eof = true;
      return false;
    }
    out.append(buf, size_t(g));
    printed = 0;
    for (size_t at = out.find("====="); at != std::string::npos; at = out.find("=====", out.find('\n', at)))
      printed++;
    return true;
  };
  for (size_t k = 0; k < data.size() && cx.violations.empty(); k++) {
    char b[80];
    int n = snprintf(b, sizeof b, "%c %.17g\n", data[k].first, data[k].second);
    if (write(in[1], b, size_t(n)) != n) {
      cx.violate("monaa stopped reading at event " + std::to_string(k));
      break;
    }
    size_t want = 0;
    for (auto &z : lib.zones)
      want += z.atFetched <= k + 1;
    const double t0 = now();
    while (printed < want && now() - t0 < 15 && !eof)
      pump(100);
    cx.st["events_fed"]++;
    if (printed < want)
      cx.violate("after " + std::to_string(k + 1) + " events " + std::to_string(want) +
                 " zones are known, but only " + std::to_string(printed) + " are printed");
    else if (want) {
      cx.nontrivial = true;
      cx.st["prompt_reports"]++;
    }
  }
  ::close(in[1]);
  const double t0 = now();
  while (!eof && now() - t0 < 15)
    pump(100);
  kill(pid, SIGKILL);
  int st;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
    ;
  ::close(m);
  unlink(f.c_str());
  if (cx.violations.empty() && printed != lib.zones.size())
    cx.violate(std::to_string(printed) + " zones printed in all, " + std::to_string(lib.zones.size()) + " expected");
}

// ------------------------------------------------------------ command line
struct Inv {
  std::vector<std::string> args;
  std::string input;
};
static std::string genForms(Rng &r, uint64_t k) {
  if (r.chance(50))
    return genCli(r, k);
  // an expression
  static const std::vector<std::string> pats = {"(AB)$", "(A(B|C)%(1,20))$", "((A(B|C))+%(1,20))$", "A$", "AB*$", "((AB)%[1,3]C)$", "(A|B)(B|C)$", "A(B)%(<=2)$", "A ($)%(>1)"};
  std::ostringstream o;
  o << "tre " << r.pick(pats) << "\nseed " << r.range(1, 1 << 30) << "\nword";
  long t = 0;
  for (int i = r.range(1, 14); i > 0; i--) {
    t += EV * r.range(1, 5);
    o << " " << int('A' + r.below(3)) << ":" << t;
  }
  o << "\n";
  return o.str();
}
// All ways to hand over the same pattern and log give the same output; -q
// prints nothing; the binary log gives the same output as the text log.
static void checkForms(const std::string &text, Ctx &cx) {
  static const std::string bin = binFromEnv("MON_BIN_MONAA");
  const std::string tre = field(text, "tre");
  std::vector<std::pair<Alphabet, double>> data;
  std::string f;
  if (tre.empty()) {
    Ran R;
    if (!prepare(text, R)) {
      cx.skip = "unparsable";
      return;
    }
    data = dataOf(R);
    f = scratchFile(unhex(field(text, "dot")), "dot");
  } else
    data = toData(parseWord("word " + field(text, "word")));
  std::string log, blog;
  for (auto &d : data) {
    char b[80];
    snprintf(b, sizeof b, "%c %.17g\n", d.first, d.second);
    log += b;
    blog += d.first;
    blog.append(reinterpret_cast<const char *>(&d.second), 8);
  }
  std::string l = scratchFile(log, "log"), bl = scratchFile(blog, "blog");
  using V = std::vector<std::string>;
  std::vector<V> pat = tre.empty() ? std::vector<V>{{"-f", f}, {"--automaton", f}, {"--automaton=" + f}, {"-f" + f}}
                                   : std::vector<V>{{"-e", tre}, {"--expression", tre}, {"--expression=" + tre}};
  Rng r(hashStr(text));
  auto ref = runCli(bin, pat[0], log, 30);
  std::vector<RepZone> zs;
  std::string why;
  if (ref.timeout || ref.truncated)
    cx.skip = "slow";
  else if (ref.exit != 0 && ref.exit != 10)
    cx.violate("status " + std::to_string(ref.exit) + ": " + ref.err);
  else if (!parseZones(ref.out, zs, why))
    cx.violate("output: " + why);
  else {
    cx.nontrivial = !zs.empty();
    for (int i = 0; i < 5 && cx.violations.empty(); i++) {
      V a = r.pick(pat);
      std::string in;
      bool quiet = false, positional = false;
      V head;
      if (r.chance(30))
        head.push_back(r.chance(50) ? "-E" : "--event");
      const bool binary = r.chance(30);
      if (binary)
        head.push_back(r.chance(50) ? "-b" : "--binary");
      else if (r.chance(30))
        head.push_back(r.chance(50) ? "-a" : "--ascii");
      if (r.chance(20)) {
        quiet = true;
        head.push_back(r.chance(50) ? "-q" : "--quiet");
      }
      if (!tre.empty() && r.chance(35)) {
        a = {tre}; // positional pattern
        positional = true;
      }
      const std::string &file = binary ? bl : l;
      switch (r.below(4)) {
      case 0:
        in = binary ? blog : log;
        break;
      case 1:
        a.push_back("-i");
        a.push_back(file);
        break;
      case 2:
        a.insert(a.begin(), "--input=" + file);
        break;
      default:
        a.push_back(file); // positional log
      }
      if (r.chance(50))
        a.insert(a.begin(), head.begin(), head.end());
      else
        a.insert(a.end(), head.begin(), head.end());
      (void)positional;
      auto x = runCli(bin, a, in, 30);
      cx.st["invocations"]++;
      std::string cmd = "monaa";
      for (auto &s : a)
        cmd += " '" + s + "'";
      if (x.timeout) {
        cx.skip = "slow";
        break;
      }
      if (x.exit != ref.exit)
        cx.violate(cmd + ": status " + std::to_string(x.exit) + " instead of " + std::to_string(ref.exit) + " " + x.err);
      else if (quiet ? !x.out.empty() : x.out != ref.out)
        cx.violate(cmd + ": output differs (" + std::to_string(x.out.size()) + " bytes, expected " +
                   std::to_string(quiet ? 0 : ref.out.size()) + ")");
    }
  }
  if (!f.empty())
    unlink(f.c_str());
  unlink(l.c_str());
  unlink(bl.c_str());
}
static std::string genErr(Rng &r, uint64_t) {
  std::ostringstream o;
  o << "kind " << r.below(16) << "\nseed " << r.range(1, 1 << 30) << "\n";
  return o.str();
}
// Wrong invocations: a message, an error status, no result.
static void checkErr(const std::string &text, Ctx &cx) {
  static const std::string bin = binFromEnv("MON_BIN_MONAA"), t2t = binFromEnv("MON_BIN_TRE2TA");
  Rng r(strtoull(field(text, "seed").c_str(), nullptr, 10));
  const int kind = atoi(field(text, "kind").c_str());
  const std::string log = "A 0.5\nB 0.75\nA 1\nB 2\nC 3.5\n", pat = "(AB)$";
  const std::string good = "digraph G {\n1 [init=1,match=0];\n2 [init=0,match=1];\n1->2 [label=\"$\"];\n}\n";
  std::string f = scratchFile(good, "dot"), bad = scratchFile("digraph G {\n1 [init=1", "bad"),
              l = scratchFile(log, "log");
  const std::string none = f + ".none";
  using V = std::vector<std::string>;
  V a;
  std::string want = "error", b = bin, tag;
  auto any = [&](std::vector<std::string> v) { return r.pick(v); };
  switch (kind) {
  case 0:
    a = {any({"-h", "--help"})};
    if (r.chance(40))
      a.push_back(pat);
    want = "usage";
    break;
  case 1:
    a = {any({"-V", "--version"})};
    if (r.chance(40))
      a.push_back(pat);
    want = "version";
    break;
  case 2:
    if (r.chance(50))
      a = {any({"-q", "-a", "-E", "-b"})};
    want = "usage";
    break;
  case 3:
    a = {any({"-z", "--nosuch", "--inputs=3", "-Z", "--no"}), pat};
    break;
  case 4:
    a = {pat, any({"-e", "-f", "-i", "--input", "--automaton", "--expression"})};
    break;
  case 5:
    a = {"-e", pat, any({"-a", "--ascii"}), any({"-b", "--binary"})};
    break;
  case 6:
    a = {"-e", pat, any({"-S", "--signal"}), any({"-E", "--event"})};
    break;
  case 7:
    a = {"-e", pat, "-f", f};
    break;
  case 8:
    a = {"-f", f, any({"-S", "--signal"})};
    break;
  case 9:
    a = {"-f", none};
    break;
  case 10:
    a = {"-f", bad};
    break;
  case 11:
    a = {"-e", pat, any({"-i", "--input"}), none};
    break;
  case 12:
    a = {pat, none};
    break;
  case 13:
    a = {any({"(AB", "A)", "A||B", "A%(3", "A%5", "%(1,2)", "A&", "+A", "A#B", "A-B$", "(A)%(a,b)$", "{A}$", "A!$"})};
    break;
  case 14:
    b = t2t;
    switch (r.below(4)) {
    case 0:
      a = {any({"-h", "--help"})};
      want = "usage";
      break;
    case 1:
      a = {any({"-V", "--version"})};
      want = "version";
      break;
    default:
      a = {any({"(AB", "A)", "A||B", "A%(3", "%(1,2)", "A&", "A#B", "A!$"})};
    }
    break;
  default:
    b = t2t;
    a = {any({"-z", "--nosuch"}), pat};
  }
  auto x = runCli(b, a, log, 30);
  unlink(f.c_str());
  unlink(bad.c_str());
  unlink(l.c_str());
  std::string cmd = b == bin ? "monaa" : "tre2ta";
  for (auto &s : a)
    cmd += " '" + s + "'";
  cx.nontrivial = true;
  cx.st["kind_" + std::to_string(kind)]++;
  if (x.timeout) {
    cx.violate(cmd + " does not end");
  } else if (want == "error") {
    if (x.exit < 1 || x.exit > 125)
      cx.violate(cmd + ": status " + std::to_string(x.exit) + " for a wrong invocation");
    if (!x.out.empty())
      cx.violate(cmd + ": a wrong invocation printed a result");
    if (x.err.empty())
      cx.violate(cmd + ": a wrong invocation left no message");
  } else {
    if (x.exit != 0)
      cx.violate(cmd + ": status " + std::to_string(x.exit));
    const char *key = want == "usage" ? "[OPTIONS]" : "Copyright";
    if (x.out.find(key) == std::string::npos)
      cx.violate(cmd + ": the " + want + " text is missing");
  }
}

// ---------------------------------------------------------------- hostile input
// Anything may be handed to the tools: they end with a status of their own.
static std::string hostileTre(Rng &r) {
  auto num = [&]() -> std::string {
    static const std::vector<std::string> odd = {"0", "00", "2147483647", "2147483648", "4294967296", "99999999999999999999", "007", "1000000000"};
    return r.chance(75) ? std::to_string(r.range(0, 9)) : r.pick(odd);
  };
  auto iv = [&]() -> std::string {
    switch (r.below(4)) {
    case 0:
      return "(" + num() + "," + num() + ")";
    case 1:
      return std::string(r.chance(50) ? "[" : "(") + num() + "," + num() + (r.chance(50) ? "]" : ")");
    case 2: {
      static const std::vector<std::string> op = {"<", "<=", ">", ">=", "="};
      return "(" + r.pick(op) + num() + ")";
    }
    default:
      return "(" + num() + ")";
    }
  };
  std::function<std::string(int)> ex = [&](int d) -> std::string {
    if (d == 0 || r.chance(20))
      return std::string(1, char(r.chance(90) ? 'a' + r.below(3) : r.range(33, 126)));
    switch (r.below(6)) {
    case 0:
      return "(" + ex(d - 1) + ")" + (r.chance(50) ? "+" : "*");
    case 1:
      return "(" + ex(d - 1) + "|" + ex(d - 1) + ")";
    case 2:
      return "(" + ex(d - 1) + "&" + ex(d - 1) + ")";
    case 3:
      return "(" + ex(d - 1) + ")%" + iv();
    default:
      return ex(d - 1) + ex(d - 1);
    }
  };
  std::string s;
  switch (r.below(10)) {
  case 0: { // nesting
    const int n = r.chance(50) ? r.range(1, 200) : r.range(1000, 9000);
    s = std::string(size_t(n), '(') + "a" + std::string(size_t(r.chance(80) ? n : n - 1), ')') + "$";
    break;
  }
  case 1: {
    const int n = r.range(1, 60);
    for (int i = 0; i < n; i++)
      s += char('a' + r.below(2));
    s += r.chance(50) ? "$" : "";
    break;
  }
  case 2: {
    s = "a";
    for (int i = r.range(1, 400); i > 0; i--)
      s += "+*+%"[r.below(3)];
    s += "$";
    break;
  }
  case 3: {
    for (int i = r.range(0, 30); i > 0; i--)
      s += char(r.range(1, 255));
    break;
  }
  case 4: { // tokens in any order
    static const std::vector<std::string> tok = {"(", ")", "[", "]", "%", ",", "<", "<=", ">", ">=", "=", "+", "*", "|", "&", "$", "a", "b", "1", "20", " ", "\n"};
    for (int i = r.range(1, 14); i > 0; i--)
      s += r.pick(tok);
    break;
  }
  default:
    s = r.chance(70) ? "(" + ex(r.range(1, 3)) + ")$" : ex(r.range(1, 3));
  }
  if (r.chance(25) && !s.empty())
    for (int k = r.range(1, 3); k > 0; k--)
      s[size_t(r.below(int(s.size())))] = "()[]%,<>=+*|&$ab019 \n~"[r.below(22)];
  s.erase(std::remove(s.begin(), s.end(), '\0'), s.end());
  return s;
}
static std::string hostileLog(Rng &r, bool binary) {
  std::string s;
  double t = 0;
  static const std::vector<double> odd = {NAN, INFINITY, -INFINITY, -1, 1e308, 5e-324, -0.0, 9007199254740993.0};
  for (int i = r.range(0, 25); i > 0; i--) {
    t += r.chance(90) ? 0.25 * r.range(0, 8) : r.chance(50) ? -r.range(0, 5) : 1e9;
    const double v = r.chance(95) ? t : r.pick(odd);
    const char c = char(r.chance(85) ? 'a' + r.below(3) : r.chance(50) ? '$' : r.range(0, 255));
    if (binary) {
      s += c;
      s.append(reinterpret_cast<const char *>(&v), 8);
    } else {
      static const std::vector<std::string> num = {"1e400", "0x1p3", "nan", "inf", "-inf", "1.", ".5", "+3", "1e", "--1", "", "a"};
      s += c;
      s += r.chance(95) ? " " : r.chance(50) ? "\t\t" : "";
      s += r.chance(95) ? std::to_string(v) : r.pick(num);
      s += r.chance(95) ? "\n" : r.chance(50) ? " " : "\r\n";
    }
  }
  if (r.chance(20) && !s.empty())
    s.resize(size_t(r.below(int(s.size()))));
  if (r.chance(10))
    for (int i = r.range(1, 40); i > 0; i--)
      s += char(r.range(0, 255));
  return s;
}
static std::string genHostile(Rng &r, uint64_t k) {
  std::ostringstream o;
  const bool binary = r.chance(25), dot = r.chance(30);
  std::string p;
  if (dot) {
    if (r.chance(50)) {
      const std::string b = genBad(r, k);
      if (b.empty())
        return "";
      p = unhex(field(b, "dot"));
    } else {
      MTA a;
      do
        a = genAnyTA(r);
      while (a.edges.empty() || a.clocks > 4 || heavy(a));
      if (r.chance(20))
        for (auto &e : a.edges)
          if (r.chance(40))
            e.label = char(r.range(128, 255));
      if (r.chance(20)) {
        const int x = r.chance(50) ? r.range(100, 300) : r.range(5, 20);
        for (auto &e : a.edges)
          for (auto &g : e.guard)
            if (r.chance(30))
              g.x = x;
      }
      if (r.chance(20))
        for (auto &e : a.edges)
          for (auto &g : e.guard)
            if (r.chance(30))
              g.c = r.chance(50) ? INT_MAX : -r.range(1, 3);
      p = dotText(r, a);
    }
  } else
    p = hostileTre(r);
  o << "dot " << dot << "\nbinary " << binary << "\nquiet " << r.chance(20) << "\npat " << hexOf(p) << "\nlog "
    << hexOf(hostileLog(r, binary)) << "\n";
  return o.str();
}
static void checkHostile(const std::string &text, Ctx &cx) {
  static const std::string bin = binFromEnv("MON_BIN_MONAA"), t2t = binFromEnv("MON_BIN_TRE2TA");
  const bool dot = field(text, "dot") == "1";
  const std::string pat = unhex(field(text, "pat")), log = unhex(field(text, "log"));
  std::vector<std::string> av;
  std::string f;
  if (dot) {
    f = scratchFile(pat, "hdot");
    av = {"-f", f};
  } else
    av = {"-e", pat};
  if (field(text, "binary") == "1")
    av.push_back("-b");
  if (field(text, "quiet") == "1")
    av.push_back("-q");
  auto r = runCli(bin, av, log, 0.75);
  if (dot)
    unlink(f.c_str());
  cx.st["runs"]++;
  if (r.timeout) {
    cx.skip = "slow";
    return;
  }
  if (r.exit < 0)
    cx.violate("monaa was killed by signal " + std::to_string(-r.exit) + ": " + r.err.substr(0, 300));
  cx.st[r.exit == 0 ? "accepted" : "rejected"]++;
  cx.nontrivial = r.exit == 0 || !r.err.empty();
  if (!dot && !pat.empty()) {
    auto q = runCli(t2t, {"-e", pat}, "", 0.75);
    if (!q.timeout && q.exit < 0)
      cx.violate("tre2ta was killed by signal " + std::to_string(-q.exit) + ": " + q.err.substr(0, 300));
  }
}

int main(int argc, char **argv) {
  installExitTrap();
  std::vector<Monitor> ms;
  ms.push_back({"dot-read", genRead, [](const std::string &t, Ctx &cx) { checkRead(t, cx, false); }});
  ms.push_back({"dot-write", genRead, [](const std::string &t, Ctx &cx) { checkRead(t, cx, true); }});
  ms.push_back({"dot-cli", genCli, checkCli, 80});
  ms.push_back({"dot-bad", genBad, checkBad, 30});
  ms.push_back({"online-cli", genCli, checkOnlineCli, 60});
  ms.push_back({"cli-forms", genForms, checkForms, 80});
  ms.push_back({"cli-errors", genErr, checkErr, 40});
  ms.push_back({"hostile", genHostile, checkHostile, 60});
  return runnerMain(argc, argv, ms);
}
