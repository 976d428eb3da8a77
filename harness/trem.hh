#pragma once
// Independent model of timed regular expressions over timed words.
#include "core.hh"
namespace mon {
struct MInterval {
  int lo = 0, hi = 0; // units; hi < 0: unbounded
  bool loc = false, hic = false;
  bool hasZero() const { return lo == 0 && loc; }
  bool contains(long ticks) const {
    const long l = long(lo) * UNIT, h = long(hi) * UNIT;
    if (loc ? ticks < l : ticks <= l)
      return false;
    if (hi < 0)
      return true;
    return hic ? ticks <= h : ticks < h;
  }
  // style: which of the textual forms to use when there are several
  std::string str(bool brackets = false) const {
    std::ostringstream o;
    if (brackets && hi >= 0) {
      o << (loc ? "[" : "(") << lo << "," << hi << (hic ? "]" : ")");
    } else if (hi < 0) {
      o << "(" << (loc ? ">=" : ">") << lo << ")";
    } else if (lo == hi && loc && hic) {
      o << "(=" << lo << ")";
    } else if (lo == 0 && loc) {
      o << "(" << (hic ? "<=" : "<") << hi << ")";
    } else {
      o << (loc ? "[" : "(") << lo << "," << hi << (hic ? "]" : ")");
    }
    return o.str();
  }
};
struct T;
using TP = std::shared_ptr<const T>;
struct T {
  enum K { Atom, Concat, Disj, Conj, Plus, Star, Within } k;
  char c = 0;
  TP a, b;
  MInterval iv;
  bool nullable() const {
    switch (k) {
    case Atom:
      return false;
    case Concat:
    case Conj:
      return a->nullable() && b->nullable();
    case Disj:
      return a->nullable() || b->nullable();
    case Plus:
      return a->nullable();
    case Star:
      return true;
    case Within:
      return false; // see DESIGN: the empty word has no duration constraint
    }
    return false;
  }
  int size() const { return 1 + (a ? a->size() : 0) + (b ? b->size() : 0); }
  // fully parenthesised text
  std::string str() const {
    switch (k) {
    case Atom:
      return std::string(1, c);
    case Concat:
      return "(" + a->str() + b->str() + ")";
    case Disj:
      return "(" + a->str() + "|" + b->str() + ")";
    case Conj:
      return "(" + a->str() + "&" + b->str() + ")";
    case Plus:
      return "(" + a->str() + "+)";
    case Star:
      return "(" + a->str() + "*)";
    case Within:
      return "(" + a->str() + "%" + iv.str() + ")";
    }
    return "";
  }
};
inline TP mk(T t) { return std::make_shared<const T>(std::move(t)); }
inline TP mkAtom(char c) { return mk(T{T::Atom, c, nullptr, nullptr, {}}); }
inline TP mkBin(T::K k, TP a, TP b) { return mk(T{k, 0, a, b, {}}); }
inline TP mkUn(T::K k, TP a) { return mk(T{k, 0, a, nullptr, {}}); }
inline TP mkWithin(TP a, MInterval i) { return mk(T{T::Within, 0, a, nullptr, i}); }

// Membership of a timed word (times in ticks, non-decreasing).
struct Member {
  const Word &w;
  std::map<std::tuple<const T *, int, int>, bool> memo;
  explicit Member(const Word &w) : w(w) {}
  long at(int i) const { return i == 0 ? 0 : w[i - 1].t; }
  bool m(const T *e, int i, int j) {
    auto key = std::make_tuple(e, i, j);
    auto it = memo.find(key);
    if (it != memo.end())
      return it->second;
    bool r = false;
    switch (e->k) {
    case T::Atom:
      r = j == i + 1 && w[i].c == e->c;
      break;
    case T::Concat:
      for (int k = i; k <= j && !r; k++)
        r = m(e->a.get(), i, k) && m(e->b.get(), k, j);
      break;
    case T::Disj:
      r = m(e->a.get(), i, j) || m(e->b.get(), i, j);
      break;
    case T::Conj:
      r = m(e->a.get(), i, j) && m(e->b.get(), i, j);
      break;
    case T::Plus:
    case T::Star:
      if (i == j) {
        r = e->k == T::Star || m(e->a.get(), i, j);
      } else {
        r = m(e->a.get(), i, j);
        for (int k = i + 1; k < j && !r; k++)
          r = m(e->a.get(), i, k) && m(e, k, j);
      }
      break;
    case T::Within:
      r = j > i && e->iv.contains(at(j) - at(i)) && m(e->a.get(), i, j);
      break;
    }
    memo[key] = r;
    return r;
  }
  bool whole(const TP &e) { return m(e.get(), 0, int(w.size())); }
};

inline MInterval genInterval(Rng &r, int maxC, bool zeroOk, bool infOk) {
  MInterval v;
  for (;;) {
    v.lo = r.range(0, maxC);
    v.hi = r.range(v.lo, maxC + 1);
    v.loc = r.chance(50);
    v.hic = r.chance(50);
    if (infOk && r.chance(15)) {
      v.hi = -1;
      v.hic = false;
    }
    if (v.hi == v.lo && !(v.loc && v.hic))
      continue; // empty interval
    if (v.hi == v.lo && v.lo == 0)
      continue;
    if (!zeroOk && v.hasZero())
      continue;
    return v;
  }
}
struct TreOpt {
  int alphabet = 2, maxConst = 3, conj = 1, inf = 1, star = 1;
  // weights of concat, disj, conj, plus, star, within
  int w[6] = {35, 17, 8, 10, 8, 22};
  // emphasise a random subset of the operators
  void swarm(Rng &r) {
    for (int &x : w)
      x = r.chance(30) ? 3 : r.range(8, 50);
    w[0] = std::max(w[0], 25);
    w[5] = std::max(w[5], 12);
  }
};
inline TP genTRE(Rng &r, const TreOpt &o, int size) {
  if (size <= 1)
    return mkAtom(char('a' + r.below(o.alphabet)));
  for (;;) {
    int sum = 0, op = 0;
    for (int x : o.w)
      sum += x;
    int k = r.below(sum);
    while (k >= o.w[op])
      k -= o.w[op++];
    if (op <= 2) {
      if (op == 2 && !o.conj)
        continue;
      int l = r.range(1, size - 1);
      return mkBin(op == 0 ? T::Concat : op == 1 ? T::Disj : T::Conj, genTRE(r, o, l), genTRE(r, o, size - l));
    } else if (op == 3) {
      return mkUn(T::Plus, genTRE(r, o, size - 1));
    } else if (op == 4) {
      if (!o.star)
        continue;
      return mkUn(T::Star, genTRE(r, o, size - 1));
    } else {
      TP a = genTRE(r, o, size - 1);
      return mkWithin(a, genInterval(r, o.maxConst, !a->nullable(), o.inf));
    }
  }
}
// A random word of the language (guided; may fail and return false).
inline bool sampleTRE(Rng &r, const T *e, long start, Word &w, int depth = 0, int zero = 0) {
  if (w.size() > 14 || depth > 40)
    return false;
  switch (e->k) {
  case T::Atom:
    w.push_back({e->c, start + EV * (zero && r.chance(zero) ? 0 : r.range(1, r.chance(70) ? 3 : 8))});
    return true;
  case T::Concat: {
    if (!sampleTRE(r, e->a.get(), start, w, depth + 1, zero))
      return false;
    return sampleTRE(r, e->b.get(), w.empty() ? start : std::max(start, w.back().t), w, depth + 1, zero);
  }
  case T::Disj:
    return sampleTRE(r, (r.chance(50) ? e->a : e->b).get(), start, w, depth + 1, zero);
  case T::Conj:
  {
    for (int t = 0; t < 6; t++) {
      Word x;
      Word y = w;
      size_t n0 = w.size();
      if (!sampleTRE(r, (t % 2 ? e->a : e->b).get(), start, w, depth + 1, zero))
        return false;
      x.assign(w.begin() + n0, w.end());
      for (auto &v : x)
        v.t -= start;
      Member m(x);
      if (m.m(e->a.get(), 0, int(x.size())) && m.m(e->b.get(), 0, int(x.size())))
        return true;
      w = y;
    }
    return false;
  }
  case T::Plus:
  case T::Star: {
    int n = r.range(e->k == T::Star ? 0 : 1, 3);
    for (int i = 0; i < n; i++)
      if (!sampleTRE(r, e->a.get(), w.empty() ? start : std::max(start, w.back().t), w, depth + 1, zero))
        return false;
    return true;
  }
  case T::Within: {
    for (int t = 0; t < 10; t++) {
      Word y = w;
      if (!sampleTRE(r, e->a.get(), start, w, depth + 1, zero))
        return false;
      if (w.size() > y.size() && e->iv.contains(w.back().t - start))
        return true;
      w = y;
    }
    return false;
  }
  }
  return false;
}
} // namespace mon
