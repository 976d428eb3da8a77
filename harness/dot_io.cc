// The header of the DOT reader replaces operator<< for strings: keep it apart.
#include "timed_automaton_parser.hh"
bool monParseDot(const std::string &text, TimedAutomaton &ta, std::string &err) {
  std::istringstream in(text);
  try {
    BoostTimedAutomaton b;
    parseBoostTA(in, b);
    convBoostTA(b, ta);
    return true;
  } catch (const std::exception &e) {
    err = e.what();
    return false;
  }
}
