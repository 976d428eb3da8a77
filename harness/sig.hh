#pragma once
// Signal mode: the event (c, t_i) says that the signal has the value c on
// (t_{i-1}, t_i].  Independent reference: piecewise membership of the expression
// on a grid of instants, one row of bits per instant and subexpression.
#include "core.hh"
#include "trem.hh"
#include <bitset>
namespace mon {
struct SigRef {
  static constexpr int MAX = 640;
  using Bits = std::bitset<MAX>;
  int n = 0, sub;          // instants 0..n, `sub` of them in a tick
  std::string at;          // value on the piece (k, k+1]
  bool loose;              // pieces of length 0 next to a piece of their value,
                           // and closed intervals below a closure
  std::map<std::pair<const T *, bool>, std::vector<Bits>> memo;
  SigRef(const Word &w, int sub, bool loose) : sub(sub), loose(loose) {
    for (auto &e : w)
      while (n < e.t * sub && n < MAX - 1) {
        at += e.c;
        n++;
      }
  }
  bool tooLong() const { return n >= MAX - 1; }
  bool inside(const MInterval &iv, int len, bool closed) const {
    const long l = long(iv.lo) * UNIT * sub, h = long(iv.hi) * UNIT * sub;
    if (iv.loc || closed ? len < l : len <= l)
      return false;
    return iv.hi < 0 || (iv.hic || closed ? len <= h : len < h);
  }
  const std::vector<Bits> &rows(const T *e, bool loop = false) {
    auto it = memo.find({e, loop});
    if (it != memo.end())
      return it->second;
    std::vector<Bits> m(n + 1);
    switch (e->k) {
    case T::Atom:
      for (int i = 0; i <= n; i++) {
        if (loose && ((i < n && at[i] == e->c) || (i > 0 && at[i - 1] == e->c)))
          m[i].set(i);
        for (int j = i; j < n && at[j] == e->c; j++)
          m[i].set(j + 1);
      }
      break;
    case T::Concat: {
      auto a = rows(e->a.get(), loop), b = rows(e->b.get(), loop);
      for (int i = 0; i <= n; i++)
        for (int k = i; k <= n; k++)
          if (a[i][k])
            m[i] |= b[k];
      break;
    }
    case T::Disj:
    case T::Conj: {
      auto a = rows(e->a.get(), loop), b = rows(e->b.get(), loop);
      for (int i = 0; i <= n; i++)
        m[i] = e->k == T::Disj ? a[i] | b[i] : a[i] & b[i];
      break;
    }
    case T::Plus:
    case T::Star: {
      auto a = rows(e->a.get(), true);
      for (int i = n; i >= 0; i--) {
        m[i] = a[i];
        for (int k = i + 1; k <= n; k++)
          if (a[i][k])
            m[i] |= m[k];
        if (e->k == T::Star)
          m[i].set(i);
      }
      break;
    }
    case T::Within: {
      auto a = rows(e->a.get(), loop);
      for (int i = 0; i <= n; i++)
        for (int j = i; j <= n; j++)
          if (a[i][j] && inside(e->iv, j - i, loose && loop))
            m[i].set(j);
      break;
    }
    }
    return memo[{e, loop}] = std::move(m);
  }
};
// random expressions without `$`; duration restrictions only of expressions that
// take time
inline TP genSigTRE(Rng &r, int size, int alphabet, int maxC, const int *w) {
  if (size <= 1)
    return mkAtom(char('a' + r.below(alphabet)));
  for (int attempt = 0;; attempt++) {
    if (attempt > 30)
      return mkAtom(char('a' + r.below(alphabet)));
    int sum = 0, op = 0;
    for (int i = 0; i < 6; i++)
      sum += w[i];
    int k = r.below(sum);
    while (k >= w[op])
      k -= w[op++];
    if (op <= 2) {
      if (size < 3)
        continue;
      const int l = r.range(1, size - 2);
      TP a = genSigTRE(r, l, alphabet, maxC, w), b = genSigTRE(r, size - 1 - l, alphabet, maxC, w);
      return mkBin(op == 0 ? T::Concat : op == 1 ? T::Disj : T::Conj, a, b);
    }
    if (op == 5) {
      TP a = genSigTRE(r, size - 1, alphabet, maxC, w);
      if (a->nullable())
        continue;
      return mkWithin(a, genInterval(r, maxC, false, true));
    }
    return mkUn(op == 3 ? T::Plus : T::Star, genSigTRE(r, size - 1, alphabet, maxC, w));
  }
}
// a log of a signal: consecutive values differ
inline Word mergeSignal(const Word &w) {
  Word x;
  for (auto &e : w) {
    if (e.t <= (x.empty() ? 0 : x.back().t))
      continue;
    if (!x.empty() && x.back().c == e.c)
      x.back().t = e.t;
    else
      x.push_back(e);
  }
  return x;
}
inline Word genSignal(Rng &r, const TP &e, int alphabet, int segments, bool guided) {
  Word w;
  if (guided) {
    if (!sampleTRE(r, e.get(), 0, w))
      w.clear();
    w = mergeSignal(w);
    if (r.chance(40) && !w.empty()) { // perturb a length
      const int p = r.below(int(w.size()));
      long d = EV * r.range(1, 3);
      if (r.chance(50) && w[p].t - d > (p ? w[p - 1].t : 0))
        d = -d;
      for (size_t q = size_t(p); q < w.size(); q++)
        w[q].t += d;
    }
  }
  if (w.empty())
    for (int k = r.range(1, segments); k > 0; k--)
      w.push_back({char('a' + r.below(alphabet)), (w.empty() ? 0 : w.back().t) + EV * r.range(1, 6)});
  w = mergeSignal(w);
  while (w.size() > 1 && w.back().t > 30 * UNIT)
    w.pop_back();
  return w;
}
} // namespace mon
