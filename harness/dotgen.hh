#pragma once
// Spelling automata in DOT, with all the freedom the language gives.
#include "core.hh"
namespace mon {
inline std::string guardStr(const std::vector<Guard> &g) {
  std::ostringstream o;
  o << "{";
  for (size_t i = 0; i < g.size(); i++)
    o << (i ? ", " : "") << "x" << g[i].x << " " << opName(g[i].op) << " " << g[i].c;
  o << "}";
  return o.str();
}
inline std::string resetStr(const std::vector<int> &r) {
  std::ostringstream o;
  o << "{";
  for (size_t i = 0; i < r.size(); i++)
    o << (i ? ", " : "") << r[i];
  o << "}";
  return o.str();
}
inline std::string attrList(Rng &r, const std::vector<std::pair<std::string, std::string>> &kv0) {
  auto kv = kv0;
  r.shuffle(kv);
  if (kv.empty())
    return r.chance(20) ? " []" : "";
  const int style = r.below(4);
  std::string o = r.chance(70) ? " [" : "[";
  for (size_t i = 0; i < kv.size(); i++) {
    if (i)
      o += style == 0 ? "][" : style == 1 ? "," : style == 2 ? ", " : (r.chance(50) ? ";" : " ");
    o += kv[i].first + (style == 2 ? " = " : "=") + kv[i].second;
  }
  return o + "]";
}
inline std::string boolStr(Rng &r, bool b) {
  return std::string(r.chance(15) ? (b ? "\"1\"" : "\"0\"") : (b ? "1" : "0"));
}
inline std::string dotText(Rng &r, const MTA &a) {
  std::vector<std::string> name(a.n);
  {
    const int style = r.below(4);
    std::vector<int> num(a.n);
    std::iota(num.begin(), num.end(), 1);
    if (style == 1)
      r.shuffle(num);
    for (int i = 0; i < a.n; i++)
      name[i] = style == 2   ? "loc" + std::to_string(num[i] * 7)
                : style == 3 ? "\"state " + std::to_string(num[i]) + "\""
                             : std::to_string(num[i]);
  }
  const bool nl = r.chance(85);
  const std::string sep = nl ? "\n" : " ";
  std::ostringstream o;
  if (r.chance(10))
    o << "/* a pattern\n automaton */" << sep;
  if (nl && r.chance(10))
    o << "// generated\n";
  o << "digraph " << (r.chance(80) ? "G" : r.chance(50) ? "" : "\"my graph\"") << (r.chance(50) ? " {" : "{") << sep;
  const bool nodeDef = r.chance(15);
  if (nodeDef)
    o << "node [init=0,match=0];" << sep;
  if (r.chance(10))
    o << "rankdir=LR;" << sep;
  std::vector<std::string> stmts;
  std::vector<int> order(a.n);
  std::iota(order.begin(), order.end(), 0);
  if (r.chance(30))
    r.shuffle(order);
  auto end = [&] { return std::string(r.chance(75) ? ";" : ""); };
  for (int i : order) {
    std::vector<std::pair<std::string, std::string>> kv;
    if (a.init[i] || !r.chance(25))
      kv.push_back({"init", boolStr(r, a.init[i])});
    if (a.match[i] || !r.chance(25))
      kv.push_back({"match", boolStr(r, a.match[i])});
    if (r.chance(10))
      kv.push_back({"shape", "circle"});
    stmts.push_back(name[i] + attrList(r, kv) + end());
  }
  std::vector<std::string> es;
  for (auto &e : a.edges) {
    std::vector<std::pair<std::string, std::string>> kv;
    const bool word = isalpha((unsigned char)e.label) || e.label == '_';
    std::string l = word && r.chance(70) ? std::string(1, e.label) : "\"" + std::string(1, e.label) + "\"";
    if (e.label >= '0' && e.label <= '9' && r.chance(50))
      l = std::string(1, e.label);
    if (e.label != 0)
      kv.push_back({"label", l});
    if (!e.guard.empty())
      kv.push_back({"guard", "\"" + guardStr(e.guard) + "\""});
    if (!e.resets.empty())
      kv.push_back({"reset", "\"" + resetStr(e.resets) + "\""});
    if (r.chance(8))
      kv.push_back({"color", "red"});
    es.push_back(name[e.src] + (r.chance(70) ? "->" : " -> ") + name[e.dst] + attrList(r, kv) + end());
  }
  // two consecutive edges that agree can be written as one chain
  if (r.chance(10)) { // states come after the edges
    es.insert(es.end(), stmts.begin(), stmts.end());
    stmts = es;
  } else
    stmts.insert(stmts.end(), es.begin(), es.end());
  for (auto &s : stmts) {
    o << (r.chance(70) ? "        " : "") << s << sep;
    if (nl && r.chance(4))
      o << "// comment -> [label=z]\n";
  }
  o << "}" << (r.chance(80) ? "\n" : "");
  return o.str();
}
inline std::string hexOf(const std::string &s) {
  static const char *d = "0123456789abcdef";
  std::string o;
  for (unsigned char c : s) {
    o += d[c >> 4];
    o += d[c & 15];
  }
  return o;
}
inline std::string unhex(const std::string &s) {
  std::string o;
  for (size_t i = 0; i + 1 < s.size(); i += 2)
    o += char(std::stoi(s.substr(i, 2), nullptr, 16));
  return o;
}
} // namespace mon
