// Monitors of timed regular expressions: translation to automata, parser, and
// pattern matching end to end.
#include "cli.hh"
#include "runner.hh"
#include "sig.hh"
#include "ta_model.hh"
#include "trem.hh"
#include "tre_driver.hh"
extern "C" {
extern jmp_buf *mon_exit_buf;
extern bool *mon_exit_armed;
extern int *mon_exit_code;
}
using namespace mon;
bool monParseDot(const std::string &text, TimedAutomaton &ta, std::string &err);

// ------------------------------------------------------------ reference parser
// Grammar of doc/TRE.md; postfix operators bind to the item before them and
// unparenthesised binary operators group to the right.
struct RefParser {
  std::string s;
  size_t i = 0;
  bool ok = true;
  struct Tok {
    int k; // character, 'A' atom, '0' int, 'l' <=, 'g' >=, 0 end, -1 error
    char c = 0;
    long v = 0;
  };
  std::vector<Tok> t;
  size_t p = 0;
  explicit RefParser(const std::string &x) : s(x) {
    while (i < s.size()) {
      char c = s[i];
      if (c == ' ' || c == '\t') {
        i++;
      } else if (c == '\n') {
        break;
      } else if (isalpha((unsigned char)c) || c == '$') {
        t.push_back({'A', c});
        i++;
      } else if (isdigit((unsigned char)c)) {
        long v = 0;
        while (i < s.size() && isdigit((unsigned char)s[i]))
          v = std::min(v * 10 + (s[i++] - '0'), 1L << 40);
        if (v > 2147483647L)
          t.push_back({-1}); // not representable
        else
          t.push_back({'0', 0, v});
      } else if ((c == '<' || c == '>') && i + 1 < s.size() && s[i + 1] == '=') {
        t.push_back({c == '<' ? 'l' : 'g'});
        i += 2;
      } else if (strchr("|&*+%()[]<>=,", c) && c) {
        t.push_back({c});
        i++;
      } else {
        t.push_back({-1});
        i++;
      }
    }
    t.push_back({0});
  }
  int k() const { return t[p].k; }
  bool eat(int c) {
    if (k() == c) {
      p++;
      return true;
    }
    return ok = false;
  }
  MInterval interval() {
    MInterval v;
    if (k() == '(' && t[p + 1].k == '0') {
      p++;
      v.lo = int(t[p++].v);
      eat(',');
      if (!ok || k() != '0') {
        ok = false;
        return v;
      }
      v.hi = int(t[p++].v);
      v.loc = false;
      if (k() == ')')
        v.hic = false, p++;
      else if (k() == ']')
        v.hic = true, p++;
      else
        ok = false;
      return v;
    }
    if (k() == '(') {
      p++;
      v = interval();
      if (ok)
        eat(')');
      return v;
    }
    if (k() == '[') {
      p++;
      if (k() != '0') {
        ok = false;
        return v;
      }
      v.lo = int(t[p++].v);
      eat(',');
      if (!ok || k() != '0') {
        ok = false;
        return v;
      }
      v.hi = int(t[p++].v);
      v.loc = true;
      if (k() == ')')
        v.hic = false, p++;
      else if (k() == ']')
        v.hic = true, p++;
      else
        ok = false;
      return v;
    }
    int o = k();
    if (o == '<' || o == 'l' || o == '=' || o == 'g' || o == '>') {
      p++;
      if (k() != '0') {
        ok = false;
        return v;
      }
      int n = int(t[p++].v);
      switch (o) {
      case '<':
        v = {0, n, true, false};
        break;
      case 'l':
        v = {0, n, true, true};
        break;
      case '=':
        v = {n, n, true, true};
        break;
      case 'g':
        v = {n, -1, true, false};
        break;
      default:
        v = {n, -1, false, false};
      }
      return v;
    }
    ok = false;
    return v;
  }
  TP expr() {
    TP e;
    if (k() == 'A')
      e = mkAtom(t[p++].c);
    else if (k() == '(') {
      p++;
      e = expr();
      if (!ok || !eat(')'))
        return e;
    } else {
      ok = false;
      return e;
    }
    for (;;) {
      if (k() == '+') {
        p++;
        e = mkUn(T::Plus, e);
      } else if (k() == '*') {
        p++;
        e = mkUn(T::Star, e);
      } else if (k() == '%') {
        p++;
        MInterval v = interval();
        if (!ok)
          return e;
        e = mkWithin(e, v);
      } else
        break;
    }
    if (k() == 'A' || k() == '(') {
      TP r = expr();
      return ok ? mkBin(T::Concat, e, r) : e;
    }
    if (k() == '|' || k() == '&') {
      T::K o = k() == '|' ? T::Disj : T::Conj;
      p++;
      TP r = expr();
      return ok ? mkBin(o, e, r) : e;
    }
    return e;
  }
  TP parse() {
    TP e = expr();
    if (ok && k() != 0)
      ok = false;
    return ok ? e : nullptr;
  }
};

// text with as few parentheses as the grouping rules allow, now and then more
static std::string textOf(Rng &r, const T *e, bool rightmost) {
  auto paren = [&](const std::string &s) { return "(" + s + ")"; };
  auto blank = [&]() { return std::string(r.chance(6) ? " " : ""); };
  std::string out;
  switch (e->k) {
  case T::Atom:
    out = std::string(1, e->c);
    return r.chance(6) ? paren(out) : out;
  case T::Plus:
  case T::Star:
  case T::Within: {
    const T *x = e->a.get();
    std::string in;
    bool postfix = x->k == T::Atom || x->k == T::Plus || x->k == T::Star || x->k == T::Within;
    in = textOf(r, x, false);
    (void)postfix;
    std::string iv = e->iv.str(r.chance(40));
    if (e->k == T::Within && r.chance(15))
      iv = "(" + iv + ")";
    if (e->k == T::Within && r.chance(3))
      iv.insert(iv.find_first_of("0123456789"), "0");
    if (e->k == T::Within && iv[0] == '(' && (iv[1] == '<' || iv[1] == '>' || iv[1] == '=') && r.chance(50))
      iv = iv.substr(1, iv.size() - 2);
    return in + blank() + (e->k == T::Plus ? "+" : e->k == T::Star ? "*" : "%" + blank() + iv);
  }
  case T::Concat:
  case T::Disj:
  case T::Conj: {
    std::string op = e->k == T::Concat ? "" : e->k == T::Disj ? "|" : "&";
    out = textOf(r, e->a.get(), false) + blank() + op + blank() + textOf(r, e->b.get(), true);
    if (!rightmost || r.chance(15))
      out = paren(out);
    return out;
  }
  }
  return out;
}

// parse with exit() (flex) counted as a rejection
static bool realParse(const std::string &text, std::shared_ptr<const TRE> &out, int &code) {
  static TREDriver *volatile d = nullptr;
  static volatile bool ok;
  std::istringstream in(text);
  code = 0;
  std::cerr.setstate(std::ios::failbit);
  if (setjmp(ExitTrap::buf()) == 0) {
    ExitTrap::armed() = true;
    d = new TREDriver();
    ok = d->parse(in);
  } else {
    ok = false;
    code = ExitTrap::code();
  }
  ExitTrap::armed() = false;
  std::cerr.clear();
  if (ok)
    out = d->getResult();
  if (code == 0)
    delete d;
  return ok;
}

// ------------------------------------------------------------ cases
struct TCase {
  std::string text;
  uint64_t wseed = 0;
  Word w;
  int nwords = 30;
};
static std::string tcStr(const TCase &c) {
  std::ostringstream o;
  o << "tre " << c.text << "\nwseed " << c.wseed << "\n";
  if (!c.w.empty())
    o << wordStr(c.w);
  return o.str();
}
static bool parseTC(const std::string &s, TCase &c) {
  std::istringstream in(s);
  std::string line;
  bool have = false;
  while (std::getline(in, line)) {
    if (line.compare(0, 4, "tre ") == 0) {
      c.text = line.substr(4);
      have = true;
    } else if (line.compare(0, 6, "wseed ") == 0)
      c.wseed = strtoull(line.c_str() + 6, nullptr, 10);
    else if (line.compare(0, 5, "word ") == 0)
      c.w = parseWord(line);
  }
  return have;
}
static TP relabelT(const TP &e, const std::map<char, char> &m) {
  T n = *e;
  if (n.k == T::Atom)
    n.c = m.at(n.c);
  if (n.a)
    n.a = relabelT(n.a, m);
  if (n.b)
    n.b = relabelT(n.b, m);
  return mk(n);
}
static void collect(const T *e, std::set<char> &s) {
  if (e->k == T::Atom)
    s.insert(e->c);
  if (e->a)
    collect(e->a.get(), s);
  if (e->b)
    collect(e->b.get(), s);
}
static void maxc(const T *e, int &m) {
  if (e->k == T::Within)
    m = std::max(m, std::max(e->iv.lo, e->iv.hi));
  if (e->a)
    maxc(e->a.get(), m);
  if (e->b)
    maxc(e->b.get(), m);
}
static TP randomTRE(Rng &r, int maxSize, bool dollarAtom) {
  TreOpt o;
  o.alphabet = r.range(1, 3);
  o.inf = 1;
  o.maxConst = r.chance(80) ? 3 : 30;
  if (r.chance(60))
    o.swarm(r);
  TP e = genTRE(r, o, r.range(1, maxSize));
  if (r.chance(40)) {
    std::string pool = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";
    if (dollarAtom && r.chance(30))
      pool = "$aB";
    std::vector<char> v(pool.begin(), pool.end());
    r.shuffle(v);
    std::map<char, char> m;
    for (int i = 0; i < 3; i++)
      m[char('a' + i)] = v[i];
    e = relabelT(e, m);
  }
  return e;
}
static Word randomWordFor(Rng &r, const TP &e, int i, bool simul = false) {
  const int zero = simul && r.chance(40) ? 25 : 0; // simultaneous events, events at time 0
  std::set<char> al;
  collect(e.get(), al);
  std::vector<char> letters(al.begin(), al.end());
  if (r.chance(10))
    letters.push_back(char('a' + r.below(26)));
  int mc = 1;
  maxc(e.get(), mc);
  Word w;
  bool ok = i % 2 == 0 && sampleTRE(r, e.get(), 0, w, 0, zero);
  if (!ok) {
    if (!(i % 2 == 0 && r.chance(50)))
      w.clear();
    int n = r.range(0, 6);
    long t = w.empty() ? 0 : w.back().t;
    while (int(w.size()) < n) {
      t += EV * (zero && r.chance(zero) ? 0 : r.range(1, r.chance(80) ? 6 : 2 * mc + 4));
      w.push_back({r.pick(letters), t});
    }
  } else if (r.chance(35) && !w.empty()) {
    int p = r.below(int(w.size()));
    switch (r.below(4)) {
    case 0:
    case 1: {
      long d = EV * r.range(1, r.chance(70) ? 3 : 2 * mc + 2);
      if (r.chance(50)) {
        long prev = p ? w[p - 1].t : 0;
        if (w[p].t - d > prev)
          d = -d;
      }
      for (size_t q = p; q < w.size(); q++)
        w[q].t += d;
      break;
    }
    case 2:
      w.erase(w.begin() + p);
      break;
    default:
      w[p].c = r.pick(letters);
    }
  }
  return w;
}

// the events of w without `$`, followed by `$`
static Word terminated(Rng &r, const Word &w) {
  Word x;
  for (auto &e : w)
    if (e.c != '$')
      x.push_back(e);
  if (!w.empty() && w.back().c == '$')
    x.push_back(w.back());
  else
    x.push_back({'$', (x.empty() ? 0 : x.back().t) + EV * r.range(1, 5)});
  return x;
}

// ------------------------------------------------------------ monitors
// an interval such as (4,2]: the guard can never hold, so its constants do not
// matter to the extrapolation
static bool inverted(const T *e) {
  if (e->k == T::Within && e->iv.hi >= 0 && e->iv.lo > e->iv.hi)
    return true;
  return (e->a && inverted(e->a.get())) || (e->b && inverted(e->b.get()));
}
static void checkLanguage(const std::string &s, Ctx &cx, bool parserFocus, bool dollar = false) {
  TCase c;
  if (!parseTC(s, c)) {
    cx.skip = "unparsable";
    return;
  }
  RefParser rp(c.text);
  TP e = rp.parse();
  std::shared_ptr<const TRE> real;
  int code = 0;
  const bool ok = realParse(c.text, real, code);
  if (ok != bool(e)) {
    cx.violate(std::string("the parser ") + (ok ? "accepts" : "rejects") + " `" + c.text +
               "`, which is " + (e ? "in" : "not in") + " the documented syntax");
    return;
  }
  cx.st[e ? "expressions" : "rejected_texts"]++;
  if (parserFocus && !e) {
    if (code != 0 && code != 2)
      cx.violate("the scanner exits with status " + std::to_string(code));
    cx.nontrivial = true;
    return;
  }
  if (!e) {
    cx.skip = "not an expression";
    return;
  }
  TimedAutomaton ta;
  real->toEventTA(ta);
  std::string err;
  MTA a = fromReal(ta, err);
  if (!err.empty() && !(inverted(e.get()) && err.find("maxConstraints") != std::string::npos))
    cx.violate("malformed automaton: " + err + " for `" + c.text + "`");
  cx.st["states"] += a.n;
  cx.st["max:states"] = std::max<long>(cx.st["max:states"], a.n);
  cx.st["max:clocks"] = std::max<long>(cx.st["max:clocks"], a.clocks);
  Rng r(c.wseed);
  std::vector<Word> ws;
  if (!c.w.empty())
    ws.push_back(c.w);
  else
    for (int i = 0; i < c.nwords; i++)
      ws.push_back(dollar ? terminated(r, randomWordFor(r, e, i)) : randomWordFor(r, e, i, true));
  if (!dollar)
    ws.push_back(Word());
  std::set<std::string> seen;
  for (auto &w : ws) {
    if (!seen.insert(wordStr(w)).second)
      continue;
    if (w.size() > 14 || (dollar && w.size() < 2))
      continue;
    Member m(w);
    const bool x = m.whole(e), y = accepts(a, w);
    cx.st[x ? "words_in_language" : "words_not_in_language"]++;
    if (x && w.size() > 1)
      cx.nontrivial = true;
    for (size_t i = 0; i < w.size(); i++)
      if (w[i].t == (i ? w[i - 1].t : 0)) {
        cx.st[x ? "words_simultaneous_in_language" : "words_simultaneous_not_in_language"]++;
        break;
      }
    if (x != y) {
      cx.violate("`" + c.text + "` = " + e->str() + ": the automaton " + (y ? "accepts" : "rejects") +
                 " the word [" + prettyWord(w) + "]");
      return;
    }
  }
}
static std::string mutate(Rng &r, std::string s) {
  static const std::string toks = "abZ$|&*+%()[]<>=,019 #-.{}\n";
  int n = r.range(1, 3);
  for (int i = 0; i < n; i++) {
    size_t p = s.empty() ? 0 : size_t(r.below(int(s.size()) + 1));
    switch (r.below(4)) {
    case 0:
      s.insert(p, 1, toks[r.below(int(toks.size()))]);
      break;
    case 1:
      if (p < s.size())
        s.erase(p, 1);
      break;
    case 2:
      if (p < s.size())
        s[p] = toks[r.below(int(toks.size()))];
      break;
    default:
      if (p < s.size()) {
        size_t q = p + size_t(r.below(4));
        s.insert(p, s.substr(p, q - p));
      }
    }
  }
  for (auto &ch : s)
    if (ch == '\n')
      ch = '\t';
  return s;
}
// a within over a nullable operand whose interval contains 0 has no agreed
// meaning for the empty word
static bool zeroAmbiguous(const T *e) {
  if (e->k == T::Within && e->iv.hasZero() && e->a->nullable())
    return true;
  return (e->a && zeroAmbiguous(e->a.get())) || (e->b && zeroAmbiguous(e->b.get()));
}
static bool tooBig(const T *e) {
  if (e->k == T::Within && (e->iv.lo > 1000000 || e->iv.hi > 1000000))
    return true;
  return (e->a && tooBig(e->a.get())) || (e->b && tooBig(e->b.get()));
}
static std::string genParse(Rng &r, uint64_t) {
  TP e;
  if (r.chance(50)) {
    e = randomTRE(r, 7, true);
  } else { // small expressions about durations
    TreOpt o;
    o.maxConst = r.range(0, 2);
    o.w[5] = 60;
    e = genTRE(r, o, r.range(2, 5));
  }
  TCase c;
  c.wseed = r.next();
  c.text = textOf(r, e.get(), true);
  if (r.chance(50))
    c.text = mutate(r, c.text);
  if (r.chance(6)) { // unusual constants
    static const std::vector<std::string> odd = {"2147483648", "4294967296", "4294967297", "99999999999", "18446744073709551616",
                                                 "18446744073709551617", "340282366920938463463374607431768211457", "1000000", "007", "00"};
    std::vector<size_t> at;
    for (size_t i = 0; i < c.text.size(); i++)
      if (isdigit((unsigned char)c.text[i]) && (i == 0 || !isdigit((unsigned char)c.text[i - 1])))
        at.push_back(i);
    if (!at.empty()) {
      const size_t i = r.pick(at);
      size_t j = i;
      while (j < c.text.size() && isdigit((unsigned char)c.text[j]))
        j++;
      c.text = c.text.substr(0, i) + r.pick(odd) + c.text.substr(j);
    }
  }
  if (c.text.empty())
    return "";
  TP f = RefParser(c.text).parse();
  if (f && (zeroAmbiguous(f.get()) || tooBig(f.get()) || f->size() > 25))
    return "";
  return tcStr(c);
}
static std::string genLang(Rng &r, uint64_t) {
  TP e = randomTRE(r, r.chance(75) ? 9 : 14, true);
  TCase c;
  c.wseed = r.next();
  c.text = e->str();
  return tcStr(c);
}

// ------------------------------------------------------------ end to end
static TP genPattern(Rng &r, int maxSize, bool &heavy) {
  TreOpt o;
  o.alphabet = r.range(1, 3);
  o.maxConst = 3;
  o.conj = 1;
  if (r.chance(40))
    o.swarm(r);
  TP e = genTRE(r, o, r.range(1, maxSize));
  const TP d = mkAtom('$');
  auto iv = [&] { return genInterval(r, 3, true, true); };
  TP p;
  switch (r.below(8)) {
  case 0:
    p = mkBin(T::Concat, e, mkWithin(d, iv()));
    break;
  case 1:
    p = mkWithin(mkBin(T::Concat, e, d), iv());
    break;
  case 2:
    p = mkBin(T::Disj, mkBin(T::Concat, e, d),
              mkBin(T::Concat, genTRE(r, o, r.range(1, 3)), mkWithin(d, iv())));
    break;
  case 3:
    p = mkBin(T::Conj, mkBin(T::Concat, e, d),
              mkWithin(mkBin(T::Concat, genTRE(r, o, r.range(1, 3)), d), iv()));
    break;
  default:
    p = mkBin(T::Concat, e, d);
  }
  std::string s = p->str();
  int within = int(std::count(s.begin(), s.end(), '%'));
  bool loop = s.find('+') != std::string::npos || s.find('*') != std::string::npos;
  heavy = (within >= 2 && loop) || within >= 3;
  return p;
}
static std::string genLangDollar(Rng &r, uint64_t) {
  bool heavy = false;
  TP p = genPattern(r, r.chance(70) ? 9 : 13, heavy);
  TCase c;
  c.wseed = r.next();
  c.text = r.chance(50) ? p->str() : textOf(r, p.get(), true);
  return tcStr(c);
}
static std::string genE2E(Rng &r, uint64_t) {
  bool heavy = false;
  TP p = genPattern(r, 6, heavy);
  TCase c;
  c.text = r.chance(50) ? p->str() : textOf(r, p.get(), true);
  Word w;
  std::set<char> al;
  collect(p.get(), al);
  std::vector<char> letters;
  for (char x : al)
    if (x != '$')
      letters.push_back(x);
  if (letters.empty() || r.chance(15))
    letters.push_back('q');
  const int n = r.range(2, 8);
  while (int(w.size()) < n) {
    long t = w.empty() ? 0 : w.back().t;
    Word x;
    if (r.chance(65) && sampleTRE(r, p.get(), 0, x)) {
      for (auto &e : x)
        if (e.c != '$' && int(w.size()) < n + 2)
          w.push_back({e.c, t + e.t});
      if (x.size() <= 1)
        w.push_back({r.pick(letters), (w.empty() ? 0 : w.back().t) + EV * r.range(1, 3)});
    } else
      w.push_back({r.pick(letters), t + EV * r.range(1, 4)});
  }
  c.w = w;
  return (heavy ? "heavy\n" : "") + tcStr(c);
}
static void judgeE2E(const TP &e, const std::string &text, const Word &w, const std::vector<RepZone> &zones,
                     bool emptyPattern, Ctx &cx) {
  int mc = 1;
  maxc(e.get(), mc);
  const long hor = ((w.back().t) / EV) * EV + (mc + 1) * UNIT;
  auto qs = queryTicks(0, hor);
  long unsound = 0, missed = 0, pts = 0;
  std::string u, m;
  for (long t : qs) {
    if (t >= w.back().t)
      break;
    std::vector<const RepZone *> mine;
    for (auto &z : zones)
      if (RepZone::le(-sec(t), z.lt) && RepZone::le(sec(t), z.ut))
        mine.push_back(&z);
    for (long tp : qs) {
      if (tp <= t)
        continue;
      Word x;
      for (auto &v : w)
        if (v.t > t && v.t < tp)
          x.push_back({v.c, v.t - t});
      if (x.size() > 12)
        continue;
      const size_t inside = x.size();
      x.push_back({'$', tp - t});
      Member mm(x);
      const bool match = mm.whole(e);
      bool in = false;
      const RepZone *by = nullptr;
      for (auto *z : mine)
        if (z->contains(sec(t), sec(tp))) {
          in = true;
          by = z;
          break;
        }
      cx.st["points_decided"]++;
      pts += match;
      if (in && !match) {
        unsound++;
        if (u.empty())
          u = "(" + std::to_string(sec(t)) + "," + std::to_string(sec(tp)) + ") in {" + by->str() +
              "} is not a match";
      }
      if (match && !in && inside > 0) {
        missed++;
        if (m.empty())
          m = "match (" + std::to_string(sec(t)) + "," + std::to_string(sec(tp)) + ") is not reported";
      }
    }
  }
  cx.st["matching_points"] += pts;
  cx.st["zones_reported"] += long(zones.size());
  cx.nontrivial = pts > 0 || !zones.empty();
  if (emptyPattern)
    cx.st["empty_pattern"]++;
  if (unsound)
    cx.violate("pattern " + text + ": " + u + " (" + std::to_string(unsound) + " points)");
  if (missed)
    cx.violate("pattern " + text + ": " + m + " (" + std::to_string(missed) + " points)" +
               (emptyPattern ? ", the pattern was declared empty" : ""));
}
static void checkE2E(const std::string &s, Ctx &cx, bool cli) {
  TCase c;
  if (!parseTC(s, c) || c.w.empty()) {
    cx.skip = "unparsable";
    return;
  }
  TP e = RefParser(c.text).parse();
  if (!e) {
    cx.skip = "not an expression";
    return;
  }
  if (!cli) {
    std::shared_ptr<const TRE> real;
    int code = 0;
    if (!realParse(c.text, real, code)) {
      cx.violate("the parser rejects `" + c.text + "`");
      return;
    }
    TimedAutomaton ta;
    real->toEventTA(ta);
    auto res = runReal(Algo::Dollar, ta, toData(c.w));
    if (!res.exception.empty()) {
      cx.violate("matching threw " + res.exception);
      return;
    }
    if (res.exited && res.exitCode != 10)
      cx.violate("exit(" + std::to_string(res.exitCode) + ") during matching");
    judgeE2E(e, c.text, c.w, res.zones, res.exited, cx);
  } else {
    static const std::string bin = binFromEnv("MON_BIN_MONAA");
    std::ostringstream in;
    for (auto &v : c.w)
      in << v.c << " " << sec(v.t) << "\n";
    auto r = runCli(bin, {"-e", c.text}, in.str(), s.compare(0, 6, "heavy\n") == 0 ? 3 : 120);
    if (r.timeout) {
      cx.skip = "timeout";
      return;
    }
    cx.st["process_runs"]++;
    std::vector<RepZone> zs;
    std::string why;
    if (r.exit != 0 && r.exit != 10) {
      cx.violate("monaa -e '" + c.text + "' ended with " + std::to_string(r.exit) + ": " + r.err.substr(0, 300));
      return;
    }
    if (r.truncated) {
      cx.skip = "output_too_long";
      return;
    }
    if (!parseZones(r.out, zs, why)) {
      cx.violate("unreadable output: " + why);
      return;
    }
    judgeE2E(e, c.text, c.w, zs, r.exit == 10, cx);
  }
}

// tre2ta writes an automaton that monaa reads back: same language, same zones.
static void checkTre2ta(const std::string &s, Ctx &cx) {
  static const std::string bin = binFromEnv("MON_BIN_TRE2TA"), monaaBin = binFromEnv("MON_BIN_MONAA");
  TCase c;
  if (!parseTC(s, c) || c.w.empty()) {
    cx.skip = "unparsable";
    return;
  }
  TP e = RefParser(c.text).parse();
  if (!e) {
    cx.skip = "not an expression";
    return;
  }
  Rng r(hashStr(c.text));
  const char *d = getenv("MON_SCRATCH");
  const std::string f = std::string(d ? d : "/tmp") + "/mon-t2t-" + std::to_string(getpid());
  const int style = r.below(3);
  unlink(f.c_str());
  auto t = style == 0   ? runCli(bin, {c.text}, "", 60)
           : style == 1 ? runCli(bin, {"-e", c.text}, "", 60)
                        : runCli(bin, {"-o", f, "--expression", c.text}, "", 60);
  if (t.timeout) {
    cx.skip = "timeout";
    return;
  }
  if (t.exit != 0) {
    cx.violate("tre2ta ended with " + std::to_string(t.exit) + " for `" + c.text + "`: " + t.err.substr(0, 300));
    return;
  }
  std::string dot = style == 2 ? slurp(f) : t.out;
  if (style == 2 && !t.out.empty())
    cx.violate("tre2ta -o also wrote to standard output");
  spit(f, dot);
  TimedAutomaton ta;
  std::string err;
  if (!monParseDot(dot, ta, err)) {
    cx.violate("the automaton written for `" + c.text + "` cannot be read: " + err);
    unlink(f.c_str());
    return;
  }
  MTA a = fromReal(ta, err);
  if (!err.empty())
    cx.violate("malformed automaton: " + err + " for `" + c.text + "`");
  cx.st["automata"]++;
  cx.st["edges"] += long(a.edges.size());
  for (int i = 0; i < 20; i++) {
    Word w = randomWordFor(r, e, i);
    if (w.empty() || w.size() > 14)
      continue;
    Member m(w);
    const bool want = m.whole(e);
    cx.st["words"]++;
    if (want) {
      cx.st["words_in_language"]++;
      if (w.size() > 1)
        cx.nontrivial = true;
    }
    if (accepts(a, w) != want)
      cx.violate("the automaton of `" + c.text + "` " + (want ? "rejects " : "accepts ") + prettyWord(w));
  }
  if (s.compare(0, 6, "heavy\n") != 0) {
    std::ostringstream in;
    for (auto &v : c.w)
      in << v.c << " " << sec(v.t) << "\n";
    auto x = runCli(monaaBin, {"-f", f}, in.str(), 60);
    auto y = runCli(monaaBin, {"-e", c.text}, in.str(), 60);
    std::vector<RepZone> zx, zy;
    std::string why;
    if (x.timeout || y.timeout || x.truncated || y.truncated)
      cx.skip = "timeout";
    else if (x.exit != y.exit)
      cx.violate("`" + c.text + "`: status " + std::to_string(x.exit) + " with -f, " + std::to_string(y.exit) + " with -e");
    else if (!parseZones(x.out, zx, why) || !parseZones(y.out, zy, why))
      cx.violate("unreadable output: " + why);
    else {
      std::set<std::array<Bounds, 6>> sx, sy;
      for (auto &z : zx)
        sx.insert(z.key());
      for (auto &z : zy)
        sy.insert(z.key());
      cx.st["zones_compared"] += long(sy.size());
      if (sx != sy)
        cx.violate("`" + c.text + "`: -f and -e report different zones (" + std::to_string(sx.size()) + " / " +
                   std::to_string(sy.size()) + ")");
    }
  }
  unlink(f.c_str());
}

// ------------------------------------------------------------ signal mode
static bool sigAmbiguous(const T *e) {
  if (e->k == T::Atom && e->c == '$')
    return true;
  if (e->k == T::Within && (e->a->nullable() || e->iv.hasZero() || inverted(e) ||
                            (e->iv.hi == e->iv.lo && !(e->iv.loc && e->iv.hic))))
    return true;
  return (e->a && sigAmbiguous(e->a.get())) || (e->b && sigAmbiguous(e->b.get()));
}
// the translation distributes concatenation over `&` (a known finding): that is
// sound when the instant between the operands is unique
static bool hasConj(const T *e) {
  if (e->k == T::Conj)
    return true;
  if (e->k == T::Plus || e->k == T::Star)
    return false;
  return (e->a && hasConj(e->a.get())) || (e->b && hasConj(e->b.get()));
}
static bool conjBelowConcat(const T *e) {
  if (e->k == T::Concat && (hasConj(e->a.get()) || hasConj(e->b.get()))) {
    std::set<char> l, r;
    collect(e->a.get(), l);
    collect(e->b.get(), r);
    for (char c : l)
      if (r.count(c))
        return true;
    if (e->a->nullable() || e->b->nullable())
      return true;
  }
  return (e->a && conjBelowConcat(e->a.get())) || (e->b && conjBelowConcat(e->b.get()));
}
static int closures(const T *e) { // nested
  return std::max(e->a ? closures(e->a.get()) : 0, e->b ? closures(e->b.get()) : 0) + (e->k == T::Plus || e->k == T::Star);
}
static void sigWeights(Rng &r, int *w) {
  static const int base[6] = {35, 15, 8, 10, 5, 20};
  const bool swarm = r.chance(50);
  for (int i = 0; i < 6; i++)
    w[i] = !swarm ? base[i] : r.chance(40) ? 0 : r.range(5, 40);
  w[0] = std::max(w[0], 20);
}
static std::string genSig(Rng &r, int maxSize, bool match) {
  int w[6];
  sigWeights(r, w);
  const int alphabet = r.range(1, 3);
  TP e = genSigTRE(r, r.range(1, maxSize), alphabet, r.range(1, 3), w);
  if (conjBelowConcat(e.get()) || closures(e.get()) > 2)
    return "";
  if (r.chance(20)) {
    std::map<char, char> m;
    for (int i = 0; i < 3; i++)
      m[char('a' + i)] = char((r.chance(50) ? 'A' : 'a') + 23 - 5 * i);
    if (!match)
      e = relabelT(e, m);
  }
  TCase c;
  c.wseed = r.next();
  c.text = r.chance(50) ? e->str() : textOf(r, e.get(), true);
  bool heavy = false;
  if (match) {
    Word x;
    for (int k = r.range(1, 2); k > 0; k--) {
      const long t = x.empty() ? 0 : x.back().t;
      for (auto &v : genSignal(r, e, alphabet, 4, r.chance(75)))
        x.push_back({v.c, t + v.t});
      if (r.chance(40))
        x.push_back({char('a' + r.below(3)), x.back().t + EV * r.range(1, 4)});
    }
    x = mergeSignal(x);
    while (x.size() > 1 && x.back().t > 18 * UNIT)
      x.pop_back();
    c.w = x;
    const std::string s = e->str();
    const auto within = std::count(s.begin(), s.end(), '%');
    heavy = within >= 2 || s.find_first_of("+*&") != std::string::npos;
  }
  return (heavy ? "heavy\n" : "") + tcStr(c);
}
// the normal form is exponential: an expression may be too large
static bool realSignal(const std::string &text, TimedAutomaton &ta, Ctx &cx) {
  std::shared_ptr<const TRE> real;
  int code = 0;
  if (!realParse(text, real, code)) {
    cx.violate("the parser rejects `" + text + "`");
    return false;
  }
  try {
    toSignalTA(real, ta);
  } catch (const std::length_error &) {
    cx.skip = "too large";
    return false;
  }
  return true;
}
static void checkSigLang(const std::string &s, Ctx &cx) {
  TCase c;
  TP e;
  if (!parseTC(s, c) || !(e = RefParser(c.text).parse()) || sigAmbiguous(e.get())) {
    cx.skip = "not an expression";
    return;
  }
  TimedAutomaton ta;
  if (!realSignal(c.text, ta, cx))
    return;
  std::string err;
  MTA a = fromReal(ta, err);
  if (!err.empty()) {
    cx.violate("malformed automaton: " + err + " for `" + c.text + "`");
    return;
  }
  cx.st["states"] += a.n;
  cx.st["max:states"] = std::max<long>(cx.st["max:states"], a.n);
  cx.st["max:clocks"] = std::max<long>(cx.st["max:clocks"], a.clocks);
  cx.st["automata_with_silent_transitions"] += a.hasEps();
  if (a.edges.size() > 400) {
    cx.skip = "large automaton";
    return;
  }
  Rng r(c.wseed);
  std::set<char> al;
  collect(e.get(), al);
  std::vector<char> letters(al.begin(), al.end());
  std::vector<Word> ws;
  if (!c.w.empty())
    ws.push_back(c.w);
  else
    for (int i = 0; i < 12; i++) {
      Word w = genSignal(r, e, 1, 4, i % 4 != 0);
      if (i % 4 == 0 || r.chance(20)) // other values
        for (auto &v : w)
          if (i % 4 == 0 || r.chance(30))
            v.c = r.chance(5) ? 'q' : r.pick(letters);
      ws.push_back(mergeSignal(w));
    }
  std::set<std::string> seen;
  for (auto &w : ws) {
    if (w.empty() || !seen.insert(wordStr(w)).second)
      continue;
    const int y = acceptsEps(a, w, 1, 3000);
    if (y < 0) {
      cx.st["words_undecided"]++;
      continue;
    }
    SigRef must(w, 1, false), may(w, 2, true);
    if (may.tooLong())
      continue;
    const bool lo = must.rows(e.get())[0][must.n], hi = may.rows(e.get())[0][may.n];
    cx.st[lo ? "signals_in_language" : hi ? "signals_on_the_border" : "signals_not_in_language"]++;
    cx.st["max:values_in_an_accepted_signal"] =
        std::max<long>(cx.st["max:values_in_an_accepted_signal"], lo ? long(w.size()) : 0);
    if (lo && w.size() > 1)
      cx.nontrivial = true;
    if (y ? !hi : lo) {
      cx.violate("`" + c.text + "` = " + e->str() + ": the automaton of the signal mode " + (y ? "accepts" : "rejects") +
                 " [" + prettyWord(w) + "]");
      return;
    }
  }
}
static void checkSigMatch(const std::string &s, Ctx &cx, bool cli) {
  TCase c;
  TP e;
  if (!parseTC(s, c) || c.w.empty() || !(e = RefParser(c.text).parse()) || sigAmbiguous(e.get())) {
    cx.skip = "not an expression";
    return;
  }
  std::vector<RepZone> zs;
  bool none = false;
  if (!cli) {
    TimedAutomaton ta;
    if (!realSignal(c.text, ta, cx))
      return;
    cx.st["automata_with_silent_transitions"] += [&] {
      for (auto &x : ta.states)
        if (x->next.find(0) != x->next.end())
          return 1;
      return 0;
    }();
    auto res = runReal(Algo::Plain, ta, toData(c.w));
    if (!res.exception.empty()) {
      cx.violate("matching threw " + res.exception);
      return;
    }
    if (res.exited && res.exitCode != 10)
      cx.violate("exit(" + std::to_string(res.exitCode) + ") during matching");
    none = res.exited;
    zs = res.zones;
  } else {
    static const std::string bin = binFromEnv("MON_BIN_MONAA");
    std::ostringstream in;
    for (auto &v : c.w)
      in << v.c << " " << sec(v.t) << "\n";
    auto r = runCli(bin, {hashStr(s) % 2 ? "-S" : "--signal", "-e", c.text}, in.str(), 3);
    if (r.timeout || r.truncated) {
      cx.skip = "timeout";
      return;
    }
    cx.st["process_runs"]++;
    std::string why;
    if (r.exit != 0 && r.exit != 10) {
      cx.violate("monaa -S -e '" + c.text + "' ended with " + std::to_string(r.exit) + ": " + r.err.substr(0, 300));
      return;
    }
    if (!parseZones(r.out, zs, why)) {
      cx.violate("unreadable output: " + why);
      return;
    }
    none = r.exit == 10;
  }
  const int sub = 2;
  SigRef must(c.w, sub, false), may(c.w, sub, true);
  if (may.tooLong()) {
    cx.skip = "long signal";
    return;
  }
  auto &lo = must.rows(e.get());
  auto &hi = may.rows(e.get());
  cx.st["zones_reported"] += long(zs.size());
  if (none)
    cx.st["empty_pattern"]++;
  long unsound = 0, missed = 0;
  std::string m;
  const long end = c.w.back().t;
  for (long t = 0; t < end + UNIT; t += EV)
    for (long tp = 0; tp <= end + UNIT; tp += EV) {
      if (t == tp) // no signal
        continue;
      const RepZone *by = nullptr;
      for (auto &z : zs)
        if (z.contains(sec(t), sec(tp))) {
          by = &z;
          break;
        }
      const bool valid = t < tp && tp <= end;
      const bool l = valid && lo[t * sub][tp * sub], h = valid && hi[t * sub][tp * sub];
      cx.st["points_decided"]++;
      cx.st["matching_points"] += l;
      if (l)
        cx.nontrivial = true;
      if (by && !h && !unsound++)
        m = "(" + std::to_string(sec(t)) + "," + std::to_string(sec(tp)) + ") in {" + by->str() + "} is not a match";
      if (l && !by && !missed++ && m.empty())
        m = "match (" + std::to_string(sec(t)) + "," + std::to_string(sec(tp)) + ") is not reported";
    }
  if (unsound + missed)
    cx.violate("signal pattern " + c.text + ": " + m + " (" + std::to_string(unsound + missed) + " points)" +
               (none ? ", the pattern was declared empty" : ""));
}

int main(int argc, char **argv) {
  installExitTrap();
  std::vector<Monitor> ms;
  ms.push_back({"tre-language", genLang, [](const std::string &s, Ctx &cx) { checkLanguage(s, cx, false); }});
  ms.push_back({"tre-parse", genParse, [](const std::string &s, Ctx &cx) { checkLanguage(s, cx, true); }});
  ms.push_back({"tre-lang-dollar", genLangDollar, [](const std::string &s, Ctx &cx) { checkLanguage(s, cx, false, true); }});
  ms.push_back({"tre-match", genE2E, [](const std::string &s, Ctx &cx) { checkE2E(s, cx, false); }});
  ms.push_back({"tre-cli", genE2E, [](const std::string &s, Ctx &cx) { checkE2E(s, cx, true); }, 130});
  ms.push_back({"tre2ta", genE2E, checkTre2ta, 130});
  ms.push_back({"sig-language", [](Rng &r, uint64_t) { return genSig(r, r.chance(80) ? 7 : 10, false); }, checkSigLang, 20});
  ms.push_back({"sig-match", [](Rng &r, uint64_t) { return genSig(r, 6, true); }, [](const std::string &s, Ctx &cx) { checkSigMatch(s, cx, false); }, 60, 2});
  ms.push_back({"sig-cli", [](Rng &r, uint64_t) { return genSig(r, 5, true); }, [](const std::string &s, Ctx &cx) { checkSigMatch(s, cx, true); }, 130});
  return runnerMain(argc, argv, ms);
}
