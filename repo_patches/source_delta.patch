From f7d23240fda1da8b4682a71280a15436d356fa99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:34 +0000
Subject: [PATCH 01/32] fix: do not append to the edge list being iterated in
 KMPSkipValue

---
 libmonaa/kmp_skip_value.hh | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libmonaa/kmp_skip_value.hh b/libmonaa/kmp_skip_value.hh
index 32f3a3b..67bcf09 100644
--- a/libmonaa/kmp_skip_value.hh
+++ b/libmonaa/kmp_skip_value.hh
@@ -64,15 +64,19 @@ public:
     }
     for (auto &state : A0.states) {
       for (auto & it : state->next) {
+        std::vector<TATransition> newTransitions;
         for (TATransition edge : it.second) {
           const auto target = edge.target;
           // We can modify edge because it is copied
           if (target && target->isMatch) {
             edge.target = dummyAcceptingState.get();
             widen(edge.guard);
-            it.second.emplace_back(std::move(edge));
+            newTransitions.emplace_back(std::move(edge));
           }
         }
+        // We must not modify it.second while iterating over it
+        it.second.insert(it.second.end(), newTransitions.begin(),
+                         newTransitions.end());
       }
     }
     A0.states.reserve(A0.states.size() + 1 + (m + 1));
-- 
2.43.0


From 4ab80303930a8fa9fe0937ac5e5c8253c33e6c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:26 +0000
Subject: [PATCH 02/32] fix: extrapolate lower bounds in Zone::abstractize so
 that the zone automaton is finite

---
 libmonaa/zone.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libmonaa/zone.hh b/libmonaa/zone.hh
index e7d80e9..6cd7c6b 100644
--- a/libmonaa/zone.hh
+++ b/libmonaa/zone.hh
@@ -159,6 +159,10 @@ struct Zone {
     for (auto it = value.data(); it < value.data() + value.size(); it++) {
       if (*it >= M) {
         *it = Bounds(infinity);
+      } else if (it->first < -M.first) {
+        // Without this, the lower bounds may decrease forever and the zone
+        // construction may not terminate
+        *it = Bounds(-M.first, false);
       }
     }
   }
-- 
2.43.0


From aaed362150c47b980f30a838df34e39f26bcc006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:37 +0000
Subject: [PATCH 03/32] fix: look up initial states with std::find since they
 are not sorted

---
 libmonaa/monaa.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libmonaa/monaa.hh b/libmonaa/monaa.hh
index beb1c73..514cce0 100644
--- a/libmonaa/monaa.hh
+++ b/libmonaa/monaa.hh
@@ -709,7 +709,8 @@ void monaaDollar(WordContainer<InputContainer> word, TimedAutomaton A,
   for (std::shared_ptr<TAState> s : A.states) {
     ptrConv[s.get()] = std::make_shared<TAState>(*s);
     Ap.states.push_back(ptrConv.at(s.get()));
-    if (std::binary_search(A.initialStates.begin(), A.initialStates.end(), s)) {
+    if (std::find(A.initialStates.begin(), A.initialStates.end(), s) !=
+        A.initialStates.end()) {
       Ap.initialStates.push_back(ptrConv.at(s.get()));
     }
   }
@@ -1177,7 +1178,8 @@ void monaaNotNecessaryDollar(WordContainer<InputContainer> word,
   for (std::shared_ptr<TAState> s : A.states) {
     ptrConv[s.get()] = std::make_shared<TAState>(*s);
     Ap.states.push_back(ptrConv[s.get()]);
-    if (std::binary_search(A.initialStates.begin(), A.initialStates.end(), s)) {
+    if (std::find(A.initialStates.begin(), A.initialStates.end(), s) !=
+        A.initialStates.end()) {
       Ap.initialStates.push_back(ptrConv[s.get()]);
     }
   }
-- 
2.43.0


From 992fd2649a829fc2362d83515e14eddfda5511e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:01 +0000
Subject: [PATCH 04/32] fix: compute the live states of a zone automaton by
 backward reachability

---
 libmonaa/zone_automaton.hh | 58 ++++++++++++++++++++++----------------
 1 file changed, 33 insertions(+), 25 deletions(-)

diff --git a/libmonaa/zone_automaton.hh b/libmonaa/zone_automaton.hh
index 8bf92fe..1cb4c9c 100644
--- a/libmonaa/zone_automaton.hh
+++ b/libmonaa/zone_automaton.hh
@@ -3,6 +3,7 @@
 #include "timed_automaton.hh"
 #include "zone.hh"
 #include <stack>
+#include <unordered_map>
 #include <unordered_set>
 #include <utility>
 
@@ -57,40 +58,47 @@ struct ZoneAutomaton : public Automaton<ZAState> {
 
   //! @brief remove states unreachable to any accepting states
   void removeDeadStates() {
-    // Find states unreachable to any accepting states
-    using Config = std::pair<std::shared_ptr<ZAState>,
-                             std::unordered_set<std::shared_ptr<ZAState>>>;
-    std::stack<Config> States;
-    for (auto state : initialStates) {
-      States.push(Config(state, {}));
-    }
+    // Visit the states reachable from the initial states and record their
+    // predecessors
+    std::unordered_map<ZAState *, std::vector<std::shared_ptr<ZAState>>>
+        predecessors;
+    std::unordered_set<std::shared_ptr<ZAState>> visited = {
+        initialStates.begin(), initialStates.end()};
     std::unordered_set<std::shared_ptr<ZAState>> reachable;
-    while (!States.empty()) {
-      Config conf = States.top();
-      States.pop();
-      if (conf.first->isMatch) {
-        reachable.insert(conf.first);
-        reachable.insert(conf.second.begin(), conf.second.end());
+    std::stack<std::shared_ptr<ZAState>> waiting;
+    for (const auto &state : visited) {
+      waiting.push(state);
+    }
+    std::stack<std::shared_ptr<ZAState>> backward;
+    while (!waiting.empty()) {
+      const auto state = waiting.top();
+      waiting.pop();
+      if (state->isMatch && reachable.insert(state).second) {
+        backward.push(state);
       }
-      for (const auto &edges : conf.first->next) {
+      for (const auto &edges : state->next) {
         for (const auto &edge : edges) {
-          if (conf.second.find(conf.first) != conf.second.end()) {
-            // We are in a loop
+          const auto target = edge.lock();
+          if (!target) {
             continue;
           }
-          if (reachable.find(edge.lock()) != reachable.end()) {
-            // The next state is reachable
-            reachable.insert(conf.first);
-            reachable.insert(conf.second.begin(), conf.second.end());
-          } else {
-            // The next state may be unreachable
-            auto parents = conf.second;
-            parents.insert(conf.first);
-            States.push(Config(edge.lock(), parents));
+          predecessors[target.get()].push_back(state);
+          if (visited.insert(target).second) {
+            waiting.push(target);
           }
         }
       }
     }
+    // Find the visited states reachable to an accepting state
+    while (!backward.empty()) {
+      const auto state = backward.top();
+      backward.pop();
+      for (const auto &source : predecessors[state.get()]) {
+        if (reachable.insert(source).second) {
+          backward.push(source);
+        }
+      }
+    }
 
     // Remove unreachable states
     for (auto it = states.begin(); it != states.end();) {
-- 
2.43.0


From 3e73c9f6aada54fd757b8c30135dbf5dbba11b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:45 +0000
Subject: [PATCH 05/32] fix: make the KMP-type skip values sound for matchings
 that start or end between events

---
 libmonaa/kmp_skip_value.hh | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/libmonaa/kmp_skip_value.hh b/libmonaa/kmp_skip_value.hh
index 67bcf09..788e3e6 100644
--- a/libmonaa/kmp_skip_value.hh
+++ b/libmonaa/kmp_skip_value.hh
@@ -36,20 +36,25 @@ public:
     std::vector<std::shared_ptr<TAState>> extendedInitialStates(m + 1);
     std::generate(extendedInitialStates.begin(), extendedInitialStates.end(), std::make_shared<TAState>);
 
+    std::vector<ClockVariables> allClocks(TA.clockSize());
+    std::iota(allClocks.begin(), allClocks.end(), 0);
+    // The next matching starts exactly at the last one of the n-additional
+    // events ...
     for (const auto& initialState : A0.initialStates) {
       for (auto it = initialState->next.begin(); it != initialState->next.end();
            it++) {
         for (TATransition edge : it->second) {
-          // We can modify edge because it is copied
           const Alphabet c = it->first;
-          widen(edge.guard);
           extendedInitialStates[0]->next[c].push_back(std::move(edge));
         }
       }
     }
+    // ... or at any time after it and before the following event
+    for (const auto& initialState : A0.initialStates) {
+      extendedInitialStates[0]->next[0].push_back(
+          {initialState.get(), allClocks, {}});
+    }
 
-    std::vector<ClockVariables> allClocks(TA.clockSize());
-    std::iota(allClocks.begin(), allClocks.end(), 0);
     for (int i = 1; i <= m; ++i) {
       for (char c = 1; c < CHAR_MAX; ++c) {
         extendedInitialStates[i]->next[c].push_back(
@@ -70,7 +75,15 @@ public:
           // We can modify edge because it is copied
           if (target && target->isMatch) {
             edge.target = dummyAcceptingState.get();
-            widen(edge.guard);
+            // The matching can end before the event. Thus, the clock values at
+            // the event can exceed the upper bounds.
+            edge.guard.erase(
+                std::remove_if(edge.guard.begin(), edge.guard.end(),
+                               [](const Constraint &g) {
+                                 return g.odr == Constraint::Order::lt ||
+                                        g.odr == Constraint::Order::le;
+                               }),
+                edge.guard.end());
             newTransitions.emplace_back(std::move(edge));
           }
         }
-- 
2.43.0


From 2615f28e370e72aba03c45ee6c17f1af7b31d779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:27 +0000
Subject: [PATCH 06/32] fix: index the Sunday skip table by unsigned char so
 that any character of the word is in range

---
 libmonaa/sunday_skip_value.hh | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/libmonaa/sunday_skip_value.hh b/libmonaa/sunday_skip_value.hh
index baef837..3982a45 100644
--- a/libmonaa/sunday_skip_value.hh
+++ b/libmonaa/sunday_skip_value.hh
@@ -18,7 +18,7 @@ class SundaySkipValue {
 private:
   //! @brief Minimum length of the recognized language
   int m;
-  std::array<unsigned int, CHAR_MAX> delta{};
+  std::array<unsigned int, UCHAR_MAX + 1> delta{};
   //! @brief The set of the m-th characters of the untimed projection of the recognized language
   std::unordered_set<char> endChars;
 
@@ -65,13 +65,19 @@ public:
     delta.fill(m + 1);
     for (int i = 0; i <= m - 1; i++) {
       for (char s : charSet[i]) {
-        delta[s] = m - i;
+        delta[static_cast<unsigned char>(s)] = m - i;
       }
     }
     endChars = charSet[m - 1];
   }
-  unsigned int at(std::size_t n) const { return delta.at(n); }
-  unsigned int operator[](std::size_t n) const { return delta[n]; }
+  // The word may contain any character, including the ones that are negative as
+  // a char
+  unsigned int at(std::size_t n) const {
+    return delta.at(static_cast<unsigned char>(n));
+  }
+  unsigned int operator[](std::size_t n) const {
+    return delta[static_cast<unsigned char>(n)];
+  }
   //! @brief Minimum length of the recognized language
   int getM() const { return m; }
   void getEndChars(std::unordered_set<char> &endCharsHolder) const {
-- 
2.43.0


From d845b4d5e22125e524fbae71517e99633e010db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:28 +0000
Subject: [PATCH 07/32] fix: keep the state of the empty word apart in the
 translation of TREs to event TAs

---
 monaa/tre.cc | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/monaa/tre.cc b/monaa/tre.cc
index 5614a20..bcc901a 100644
--- a/monaa/tre.cc
+++ b/monaa/tre.cc
@@ -43,6 +43,9 @@ void concat2(TimedAutomaton &left, const TimedAutomaton &right) {
   // initial state of right
   std::vector<ClockVariables> rightClocks(right.clockSize());
   std::iota(rightClocks.begin(), rightClocks.end(), 0);
+  // The accepting state after a non-empty word of left and the empty word of
+  // right
+  std::shared_ptr<TAState> nonZeroAcceptingState;
   for (auto &s : left.states) {
     for (auto &edges : s->next) {
       std::vector<TATransition> newTransitions;
@@ -53,10 +56,18 @@ void concat2(TimedAutomaton &left, const TimedAutomaton &right) {
                                  right.initialStates.size());
           for (auto initState : right.initialStates) {
             TATransition transition = edge;
-            transition.target = initState.get();
+            if (initState->zeroDuration && initState->isMatch) {
+              // The duration of the left can be non-zero. Thus, we must not
+              // share the state of the empty word of the right.
+              if (!nonZeroAcceptingState) {
+                nonZeroAcceptingState = std::make_shared<TAState>(true);
+              }
+              transition.target = nonZeroAcceptingState.get();
+            } else {
+              transition.target = initState.get();
+            }
             transition.resetVars = rightClocks;
             newTransitions.emplace_back(std::move(transition));
-            transition.target->zeroDuration = false;
           }
         }
       }
@@ -83,6 +94,9 @@ void concat2(TimedAutomaton &left, const TimedAutomaton &right) {
 
   left.states.insert(left.states.end(), right.states.begin(),
                      right.states.end());
+  if (nonZeroAcceptingState) {
+    left.states.push_back(nonZeroAcceptingState);
+  }
 
   // we can reuse variables since we have no overwrapping constraints
   left.maxConstraints.resize(
@@ -377,9 +391,10 @@ void TRE::toEventTA(TimedAutomaton &out) const {
   }
   }
   // Merge accepting states w/o outgoing transitions
+  // Note: the state of the empty word must be distinguished from the others
   std::vector<std::shared_ptr<TAState>> terminalAcceptingStates;
   for (auto &s : out.states) {
-    if (s->isMatch && s->next.empty()) {
+    if (s->isMatch && s->next.empty() && !s->zeroDuration) {
       terminalAcceptingStates.push_back(s);
     }
   }
-- 
2.43.0


From e81494b58934aeba19d977433849e9cca4905d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:18 +0000
Subject: [PATCH 08/32] fix: do not convert the infinite upper bound of an
 interval to int

---
 monaa/intermediate_tre.cc | 10 ++++++++--
 monaa/tre.cc              | 14 +++++++++++---
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/monaa/intermediate_tre.cc b/monaa/intermediate_tre.cc
index def2a50..64493b0 100644
--- a/monaa/intermediate_tre.cc
+++ b/monaa/intermediate_tre.cc
@@ -604,7 +604,9 @@ void AtomicTRE::toSignalTA(TimedAutomaton &out) const {
             transition.target = dummyAcceptingState.get();
             transition.guard.reserve(transition.guard.size() + 2);
             // upper bound
-            if (within.second->upperBound.second) {
+            if (std::isinf(within.second->upperBound.first)) {
+              // no constraint is necessary
+            } else if (within.second->upperBound.second) {
               transition.guard.emplace_back(
                   TimedAutomaton::X(out.clockSize()) <=
                   within.second->upperBound.first);
@@ -633,7 +635,11 @@ void AtomicTRE::toSignalTA(TimedAutomaton &out) const {
     out.states.reserve(out.stateSize() + 2);
     out.states.emplace_back(std::move(dummyInitialState));
     out.states.emplace_back(std::move(dummyAcceptingState));
-    out.maxConstraints.emplace_back(within.second->upperBound.first);
+    if (std::isinf(within.second->upperBound.first)) {
+      out.maxConstraints.emplace_back(within.second->lowerBound.first);
+    } else {
+      out.maxConstraints.emplace_back(within.second->upperBound.first);
+    }
     break;
   }
   }
diff --git a/monaa/tre.cc b/monaa/tre.cc
index bcc901a..5cd6cc8 100644
--- a/monaa/tre.cc
+++ b/monaa/tre.cc
@@ -331,7 +331,9 @@ void TRE::toEventTA(TimedAutomaton &out) const {
             if (target->next.empty()) {
               edge.guard.reserve(edge.guard.size() + 2);
               // upper bound
-              if (regExprWithin.second->upperBound.second) {
+              if (std::isinf(regExprWithin.second->upperBound.first)) {
+                // no constraint is necessary
+              } else if (regExprWithin.second->upperBound.second) {
                 edge.guard.emplace_back(TimedAutomaton::X(out.clockSize()) <=
                                         regExprWithin.second->upperBound.first);
               } else {
@@ -353,7 +355,9 @@ void TRE::toEventTA(TimedAutomaton &out) const {
 
               transition.guard.reserve(transition.guard.size() + 2);
               // upper bound
-              if (regExprWithin.second->upperBound.second) {
+              if (std::isinf(regExprWithin.second->upperBound.first)) {
+                // no constraint is necessary
+              } else if (regExprWithin.second->upperBound.second) {
                 transition.guard.emplace_back(
                     TimedAutomaton::X(out.clockSize()) <=
                     regExprWithin.second->upperBound.first);
@@ -386,7 +390,11 @@ void TRE::toEventTA(TimedAutomaton &out) const {
     if (isDummyUsed) {
       out.states.emplace_back(std::move(dummyAcceptingState));
     }
-    out.maxConstraints.emplace_back(regExprWithin.second->upperBound.first);
+    if (std::isinf(regExprWithin.second->upperBound.first)) {
+      out.maxConstraints.emplace_back(regExprWithin.second->lowerBound.first);
+    } else {
+      out.maxConstraints.emplace_back(regExprWithin.second->upperBound.first);
+    }
     break;
   }
   }
-- 
2.43.0


From 5d389944a9655fba5ef0be4e909c944232ec1df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:49 +0000
Subject: [PATCH 09/32] fix: initialise the omitted DOT attributes and allocate
 the clocks that are only reset

---
 monaa/timed_automaton_parser.hh | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/monaa/timed_automaton_parser.hh b/monaa/timed_automaton_parser.hh
index 00eab35..c0cbb1e 100644
--- a/monaa/timed_automaton_parser.hh
+++ b/monaa/timed_automaton_parser.hh
@@ -239,12 +239,12 @@ static inline std::ostream &operator<<(std::ostream &os,
 }
 
 struct BoostTAState {
-  bool isInit;
-  bool isMatch;
+  bool isInit = false;
+  bool isMatch = false;
 };
 
 struct BoostTATransition {
-  Alphabet c;
+  Alphabet c = 0;
   //! @note this structure is necessary because of some problem in boost graph
   ResetVars resetVars;
   std::vector<Constraint> guard;
@@ -305,6 +305,11 @@ static inline void convBoostTA(const BoostTimedAutomaton &BoostTA,
             std::max<std::size_t>(TA.maxConstraints.size(), g.x + 1));
         TA.maxConstraints[g.x] = std::max(TA.maxConstraints[g.x], g.c);
       }
+      // There can be a clock that is reset but not constrained
+      for (auto x : transition.resetVars) {
+        TA.maxConstraints.resize(
+            std::max<std::size_t>(TA.maxConstraints.size(), x + 1));
+      }
       stateConvMap[*first]
           ->next[boost::get(&BoostTATransition::c, BoostTA, *firstEdge)]
           .emplace_back(std::move(transition));
-- 
2.43.0


From 3e5691bd8f149e3c62e1d95d304ace41f9e27b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:35 +0000
Subject: [PATCH 10/32] fix: exit with the documented status on invalid options
 and automaton files

---
 monaa/main.cc   | 22 ++++++++++++++++++----
 monaa/tre2ta.cc | 11 ++++++++---
 2 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/monaa/main.cc b/monaa/main.cc
index e4b8286..e8d58f7 100644
--- a/monaa/main.cc
+++ b/monaa/main.cc
@@ -43,9 +43,14 @@ int main(int argc, char *argv[]) {
   command_line_parser parser(argc, argv);
   parser.options(visible);
   variables_map vm;
-  const auto parseResult = parser.run();
-  store(parseResult, vm);
-  notify(vm);
+  parsed_options parseResult(&visible);
+  try {
+    parseResult = parser.run();
+    store(parseResult, vm);
+    notify(vm);
+  } catch (const boost::program_options::error &e) {
+    die(e.what(), 1);
+  }
 
   for (auto const &str :
        collect_unrecognized(parseResult.options, include_positional)) {
@@ -118,8 +123,17 @@ int main(int argc, char *argv[]) {
     }
     // parse TA
     std::ifstream taStream(timedAutomatonFileName);
+    if (!taStream) {
+      perror("timed automaton file");
+      return 1;
+    }
     BoostTimedAutomaton BoostTA;
-    parseBoostTA(taStream, BoostTA);
+    try {
+      parseBoostTA(taStream, BoostTA);
+    } catch (const std::exception &e) {
+      std::cerr << errorHeader << e.what() << std::endl;
+      die("Failed to parse the timed automaton", 2);
+    }
     convBoostTA(BoostTA, TA);
   }
 
diff --git a/monaa/tre2ta.cc b/monaa/tre2ta.cc
index e5c21a3..d5e7b8e 100644
--- a/monaa/tre2ta.cc
+++ b/monaa/tre2ta.cc
@@ -34,9 +34,14 @@ int main(int argc, char *argv[]) {
   command_line_parser parser(argc, argv);
   parser.options(visible);
   variables_map vm;
-  const auto parseResult = parser.run();
-  store(parseResult, vm);
-  notify(vm);
+  parsed_options parseResult(&visible);
+  try {
+    parseResult = parser.run();
+    store(parseResult, vm);
+    notify(vm);
+  } catch (const boost::program_options::error &e) {
+    die(e.what(), 1);
+  }
 
   for (auto const &str :
        collect_unrecognized(parseResult.options, include_positional)) {
-- 
2.43.0


From 2a717c11dd19b7f24b8f1116cfd8fdda27719ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:52 +0000
Subject: [PATCH 11/32] fix: deliver an event without waiting for the next one
 and stop at a malformed event

---
 libmonaa/lazy_deque.hh | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libmonaa/lazy_deque.hh b/libmonaa/lazy_deque.hh
index 6606572..70c75b3 100644
--- a/libmonaa/lazy_deque.hh
+++ b/libmonaa/lazy_deque.hh
@@ -10,7 +10,11 @@
 #include "common_types.hh"
 
 static inline int getOne(FILE *file, std::pair<Alphabet, double> &p) {
-  return fscanf(file, " %c %lf\n", &p.first, &p.second);
+  // We do not skip the whitespace after the event. Otherwise, it blocks until
+  // the next event. A malformed event is handled as the end of the input
+  // because its timestamp is indeterminate.
+  const int numOfFields = fscanf(file, " %c %lf", &p.first, &p.second);
+  return numOfFields == 2 ? numOfFields : EOF;
 }
 
 static inline int getOneBinary(FILE *file, std::pair<Alphabet, double> &p) {
-- 
2.43.0


From d6171cae2cd7362c16506294d78a472c1bad14ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:27 +0000
Subject: [PATCH 12/32] fix: record the clock and the number of clocks at
 epsilon transitions of monaa()

---
 libmonaa/monaa.hh | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/libmonaa/monaa.hh b/libmonaa/monaa.hh
index 514cce0..4dd27f1 100644
--- a/libmonaa/monaa.hh
+++ b/libmonaa/monaa.hh
@@ -74,12 +74,9 @@ struct InternalState {
       : s(std::move(s)), resetTime(std::move(resetTime)), z(std::move(z)) {}
   InternalState(const std::size_t numOfVar, const TAState *s,
                 const Interval &interval)
-      : s(std::move(s)), z(std::move(interval)) {
-    static const std::vector<boost::variant<double, ClockVariables>>
-        zeroResetTime(numOfVar, ClockVariables(1));
-    // Every clock variables are reset at t1 ( = t)
-    resetTime = zeroResetTime;
-  }
+      // Every clock variables are reset at t1 ( = t)
+      : s(std::move(s)), resetTime(numOfVar, ClockVariables(1)),
+        z(std::move(interval)) {}
 };
 
 struct IntervalInternalState {
@@ -594,10 +591,10 @@ void monaa(WordContainer<InputContainer> word, TimedAutomaton A,
                 continue;
               }
               IntermediateZone tmpZ = econfig.z;
-              ClockVariables newClock = 0;
-              tmpZ.alloc({word[j].second, true},
-                         ((j > 0) ? Bounds{-word[j - 1].second, false}
-                                  : Bounds{0, true}));
+              const ClockVariables newClock =
+                  tmpZ.alloc({word[j].second, true},
+                             ((j > 0) ? Bounds{-word[j - 1].second, false}
+                                      : Bounds{0, true}));
               tmpZ.tighten(edge.guard, econfig.resetTime);
               if (tmpZ.isSatisfiableCanonized()) {
                 auto tmpResetTime = econfig.resetTime;
-- 
2.43.0


From 6b481a3373c0ff8eaeaff3cf9cae25530dca3857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:27 +0000
Subject: [PATCH 13/32] fix: report the event time as the end of a match that
 is not labelled with '$'

---
 libmonaa/monaa.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmonaa/monaa.hh b/libmonaa/monaa.hh
index 4dd27f1..d36ebf6 100644
--- a/libmonaa/monaa.hh
+++ b/libmonaa/monaa.hh
@@ -1493,7 +1493,7 @@ void monaaNotNecessaryDollar(WordContainer<InputContainer> word,
               //            std::move(lowerBeginConstraint));
 
               const Bounds upperEndConstraint = {t, true};
-              const Bounds lowerEndConstraint = {t, true};
+              const Bounds lowerEndConstraint = {-t, true};
 
               // value(2, 1) <= value(2, 0) + value(0, 1)
               const Bounds upperDeltaConstraint =
-- 
2.43.0


From ef11f816d67c6f34cff39d97a41f7050cd0de2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:38 +0000
Subject: [PATCH 14/32] fix: terminate the construction of Sunday's skip values
 for patterns accepting by unobservable transitions

The accepting states reached by an unobservable transition after the last
character were never found, and the states were not deduplicated, so that the
construction could run forever or take exponential time.
---
 libmonaa/sunday_skip_value.hh | 37 +++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/libmonaa/sunday_skip_value.hh b/libmonaa/sunday_skip_value.hh
index 3982a45..39a0fe6 100644
--- a/libmonaa/sunday_skip_value.hh
+++ b/libmonaa/sunday_skip_value.hh
@@ -31,34 +31,37 @@ public:
     std::vector<std::unordered_set<char>> charSet;
     bool accepted = false;
     m = 0;
-    std::vector<std::shared_ptr<ZAState>> CStates = ZA.initialStates;
+    std::unordered_set<std::shared_ptr<ZAState>> CStates = {
+        ZA.initialStates.begin(), ZA.initialStates.end()};
     while (!accepted) {
       if (CStates.empty()) {
         std::cerr << "monaa: empty pattern" << std::endl;
         exit(10);
       }
-      std::vector<std::shared_ptr<ZAState>> NStates;
+      std::unordered_set<std::shared_ptr<ZAState>> NStates;
       m++;
       charSet.resize(m);
-      for (const auto& zaState : CStates) {
-        std::unordered_set<std::shared_ptr<ZAState>> closure;
-        closure.insert(zaState);
-        epsilonClosure(closure);
-        for (const auto& state : closure) {
-          for (char c = 1; c < CHAR_MAX; c++) {
-            for (const auto& nextState : state->next[c]) {
-              auto sharedNext = nextState.lock();
-              if (!sharedNext) {
-                continue;
-              }
-              accepted = accepted || sharedNext->isMatch;
-              NStates.push_back(sharedNext);
-              charSet[m - 1].insert(c);
+      epsilonClosure(CStates);
+      for (const auto& state : CStates) {
+        for (char c = 1; c < CHAR_MAX; c++) {
+          for (const auto& nextState : state->next[c]) {
+            auto sharedNext = nextState.lock();
+            if (!sharedNext) {
+              continue;
             }
+            NStates.insert(sharedNext);
+            charSet[m - 1].insert(c);
           }
         }
       }
-      CStates = NStates;
+      CStates = std::move(NStates);
+      // An accepting state can be reached by the unobservable transitions after
+      // the last character
+      auto closure = CStates;
+      epsilonClosure(closure);
+      accepted = std::any_of(
+          closure.begin(), closure.end(),
+          [](const std::shared_ptr<ZAState> &state) { return state->isMatch; });
     }
 
     // Construct the table of Sunday's skip value
-- 
2.43.0


From 4afc43f40eb719040b11a2045fb7fa404753ec07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:03 +0000
Subject: [PATCH 15/32] fix: reject the labels and the clocks of DOT automata
 that cannot be represented

Labels outside 1..126 were used as array indices out of bounds, and the indices
of clocks were silently truncated.
---
 monaa/timed_automaton_parser.hh | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/monaa/timed_automaton_parser.hh b/monaa/timed_automaton_parser.hh
index c0cbb1e..6deb7fb 100644
--- a/monaa/timed_automaton_parser.hh
+++ b/monaa/timed_automaton_parser.hh
@@ -5,6 +5,8 @@
 #include <boost/optional.hpp>
 #include <fstream>
 #include <iostream>
+#include <limits>
+#include <stdexcept>
 
 #include "../libmonaa/timed_automaton.hh"
 
@@ -35,6 +37,12 @@ static inline std::ostream &operator<<(std::ostream &os,
   return os;
 }
 
+//! @brief Check if the index of a clock can be represented. The last index is
+//! reserved for the constant in the zones.
+static inline bool isValidClock(int x) {
+  return x >= 0 && x < std::numeric_limits<ClockVariables>::max();
+}
+
 static inline std::istream &operator>>(std::istream &is, Constraint &p) {
   if (is.get() != 'x') {
     is.setstate(std::ios_base::failbit);
@@ -43,7 +51,7 @@ static inline std::istream &operator>>(std::istream &is, Constraint &p) {
   int x;
   is >> x;
   p.x = x;
-  if (!is) {
+  if (!is || !isValidClock(x)) {
     is.setstate(std::ios_base::failbit);
     return is;
   }
@@ -131,7 +139,7 @@ static inline std::istream &operator>>(std::istream &is,
     int x;
     is >> x;
     resetVars.emplace_back(ClockVariables(x));
-    if (!is) {
+    if (!is || !isValidClock(x)) {
       is.setstate(std::ios_base::failbit);
       return is;
     }
@@ -265,6 +273,15 @@ static inline void parseBoostTA(std::istream &file,
   dp.property("guard", boost::get(&BoostTATransition::guard, BoostTA));
 
   boost::read_graphviz(file, BoostTA, dp, "id");
+
+  auto edge_range = boost::edges(BoostTA);
+  for (auto it = edge_range.first; it != edge_range.second; ++it) {
+    const Alphabet c = boost::get(&BoostTATransition::c, BoostTA, *it);
+    // The labels are used as the indices of the tables in ZAState
+    if (c < 0 || c >= CHAR_MAX) {
+      throw std::runtime_error("unsupported label of a transition");
+    }
+  }
 }
 
 static inline void convBoostTA(const BoostTimedAutomaton &BoostTA,
-- 
2.43.0


From c96bcd28fdf4a66e6273b3837670cdc03a6aa318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:44 +0000
Subject: [PATCH 16/32] fix: the intersection of intervals dropped a strict
 lower bound

When the lower bounds have the same value, the non-strict one was chosen.
---
 libmonaa/interval.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libmonaa/interval.hh b/libmonaa/interval.hh
index b9142e2..bc8573b 100644
--- a/libmonaa/interval.hh
+++ b/libmonaa/interval.hh
@@ -98,6 +98,10 @@ struct Interval {
 inline static Interval operator&&(const Interval &left, const Interval &right) {
   Interval ret = Interval{std::max(left.lowerBound, right.lowerBound),
                           std::min(left.upperBound, right.upperBound)};
+  // The strict lower bound is the stronger one
+  if (left.lowerBound.first == right.lowerBound.first) {
+    ret.lowerBound.second = left.lowerBound.second && right.lowerBound.second;
+  }
   return ret;
 }
 
-- 
2.43.0


From e610e3cf21cee36703fe57a147a5e2f2ffd8ad38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:42 +0000
Subject: [PATCH 17/32] fix: keep the clocks non-negative in Zone::abstractize

When every constant is zero, the abstraction dropped the bound 0 <= x, and
patterns with an empty language were not recognized as such.
---
 libmonaa/zone.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libmonaa/zone.hh b/libmonaa/zone.hh
index 6cd7c6b..cb967e8 100644
--- a/libmonaa/zone.hh
+++ b/libmonaa/zone.hh
@@ -165,6 +165,10 @@ struct Zone {
         *it = Bounds(-M.first, false);
       }
     }
+    // The clocks are never negative. This matters only if M is zero.
+    for (int i = 1; i < value.cols(); i++) {
+      value(0, i) = std::min(value(0, i), Bounds(0, true));
+    }
   }
 
   /*!
-- 
2.43.0


From d866ecced34794428fb2c85f4827b44de4135f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:36 +0000
Subject: [PATCH 18/32] fix: skip values of patterns with unobservable
 transitions

The skip values assumed that time elapses before each transition, while an
unobservable transition can occur together with an event, with the beginning of
the trimming, or with another unobservable transition. Matches were lost.
---
 libmonaa/kmp_skip_value.hh    |  2 +-
 libmonaa/sunday_skip_value.hh |  2 +-
 libmonaa/ta2za.cc             | 10 +++++++---
 libmonaa/ta2za.hh             |  6 +++++-
 libmonaa/timed_automaton.hh   |  8 ++++++++
 libmonaa/zone.hh              |  7 +++++--
 6 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/libmonaa/kmp_skip_value.hh b/libmonaa/kmp_skip_value.hh
index 788e3e6..938ae27 100644
--- a/libmonaa/kmp_skip_value.hh
+++ b/libmonaa/kmp_skip_value.hh
@@ -134,7 +134,7 @@ public:
         A0.initialStates = {extendedInitialStates[n]};
         updateInitAccepting(A0, As, A2, toIState);
         std::sort(A2.initialStates.begin(), A2.initialStates.end());
-        ta2za(A2, ZA2);
+        ta2za(A2, ZA2, Zone::zero(0), TA.hasEpsilonTransitions());
         ZA2.updateInitAccepting(A2.initialStates);
         if (!ZA2.empty()) {
           beta[origState.get()] = n;
diff --git a/libmonaa/sunday_skip_value.hh b/libmonaa/sunday_skip_value.hh
index 39a0fe6..bd9cdf9 100644
--- a/libmonaa/sunday_skip_value.hh
+++ b/libmonaa/sunday_skip_value.hh
@@ -25,7 +25,7 @@ private:
 public:
   explicit SundaySkipValue(const TimedAutomaton &TA) {
     ZoneAutomaton ZA;
-    ta2za(TA, ZA);
+    ta2za(TA, ZA, Zone::zero(0), TA.hasEpsilonTransitions());
     ZA.removeDeadStates();
 
     std::vector<std::unordered_set<char>> charSet;
diff --git a/libmonaa/ta2za.cc b/libmonaa/ta2za.cc
index 6e5a17f..323d261 100644
--- a/libmonaa/ta2za.cc
+++ b/libmonaa/ta2za.cc
@@ -12,7 +12,8 @@
   TA to ZA adds states with BFS. Initial configuration is the initial states of
   ZA. The ZA contain only the states reachable from initial states.
  */
-void ta2za(const TimedAutomaton &TA, ZoneAutomaton &ZA, Zone initialZone) {
+void ta2za(const TimedAutomaton &TA, ZoneAutomaton &ZA, Zone initialZone,
+           bool allowZeroDelay) {
   const std::size_t clockSize = TA.clockSize();
   if (initialZone.value.size() == 0) {
     initialZone = Zone::zero(clockSize + 1);
@@ -38,8 +39,11 @@ void ta2za(const TimedAutomaton &TA, ZoneAutomaton &ZA, Zone initialZone) {
 
   //! number of states of ZA
   if (clockSize > 0) {
+    // The bound by the maximum constant itself is relevant only if no time may
+    // elapse before a transition
     initialZone.M = Bounds{
-        *std::max_element(TA.maxConstraints.begin(), TA.maxConstraints.end()),
+        *std::max_element(TA.maxConstraints.begin(), TA.maxConstraints.end()) +
+            (allowZeroDelay ? 1.0 : 0.0),
         true};
   } else {
     initialZone.M = Bounds(0, true);
@@ -70,7 +74,7 @@ void ta2za(const TimedAutomaton &TA, ZoneAutomaton &ZA, Zone initialZone) {
     for (const auto &conf : currentConf) {
       TAState *taState = conf->taState;
       Zone nowZone = conf->zone;
-      nowZone.elapse();
+      nowZone.elapse(!allowZeroDelay);
       for (auto it = taState->next.begin(); it != taState->next.end(); it++) {
         const Alphabet c = it->first;
         for (const auto &edge : it->second) {
diff --git a/libmonaa/ta2za.hh b/libmonaa/ta2za.hh
index 9f07bb7..2b0f089 100644
--- a/libmonaa/ta2za.hh
+++ b/libmonaa/ta2za.hh
@@ -9,6 +9,10 @@
 
   TA to ZA adds states with BFS. Initial configuration is the initial states of
   ZA. The ZA contain only the states reachable from initial states.
+
+  @param [in] allowZeroDelay If it is true, no time may elapse before a
+  transition. This is necessary if TA has unobservable transitions, which can
+  occur together with an event or another unobservable transition.
  */
 void ta2za(const TimedAutomaton &TA, ZoneAutomaton &ZA,
-           Zone initialZone = Zone::zero(0));
+           Zone initialZone = Zone::zero(0), bool allowZeroDelay = false);
diff --git a/libmonaa/timed_automaton.hh b/libmonaa/timed_automaton.hh
index fb7662f..fe65307 100644
--- a/libmonaa/timed_automaton.hh
+++ b/libmonaa/timed_automaton.hh
@@ -91,6 +91,14 @@ struct TimedAutomaton : public Automaton<TAState> {
     }
     dest.maxConstraints = maxConstraints;
   }
+  //! @brief Returns if there are any unobservable transitions
+  bool hasEpsilonTransitions() const {
+    return std::any_of(states.begin(), states.end(),
+                       [](const std::shared_ptr<TAState> &state) {
+                         auto it = state->next.find(0);
+                         return it != state->next.end() && !it->second.empty();
+                       });
+  }
   //! @brief Returns the number of clock variables used in the timed automaton.
   inline size_t clockSize() const { return maxConstraints.size(); }
 
diff --git a/libmonaa/zone.hh b/libmonaa/zone.hh
index cb967e8..903c04c 100644
--- a/libmonaa/zone.hh
+++ b/libmonaa/zone.hh
@@ -123,11 +123,14 @@ struct Zone {
     value.row(x).tail(value.cols() - 1) = value.row(0).tail(value.cols() - 1);
   }
 
-  void elapse() {
+  /*!
+    @param [in] strict If it is true, the elapsed time is positive
+   */
+  void elapse(bool strict = true) {
     static constexpr Bounds infinity =
         Bounds(std::numeric_limits<double>::infinity(), false);
     value.col(0).fill(Bounds(infinity));
-    for (int i = 0; i < value.row(0).size(); ++i) {
+    for (int i = 0; strict && i < value.row(0).size(); ++i) {
       value.row(0)[i].second = false;
     }
   }
-- 
2.43.0


From bfac515fd1aa6bab4728e4265a2f699dd26e4690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:59 +0000
Subject: [PATCH 19/32] fix: reject the constants of TREs and DOT automata that
 cannot be represented

A constant of a TRE larger than the maximum of int silently wrapped around,
e.g., (ab)%(4294967297,9) was read as (ab)%(1,9) and negating the constant
2147483648 was undefined. The least int was accepted in the guards of DOT
automata although the zones use its negation.
---
 monaa/timed_automaton_parser.hh |  4 ++++
 monaa/tre_lexer.l               | 10 +++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/monaa/timed_automaton_parser.hh b/monaa/timed_automaton_parser.hh
index 6deb7fb..8b71038 100644
--- a/monaa/timed_automaton_parser.hh
+++ b/monaa/timed_automaton_parser.hh
@@ -99,6 +99,10 @@ static inline std::istream &operator>>(std::istream &is, Constraint &p) {
   }
 
   is >> p.c;
+  if (is && p.c < -std::numeric_limits<int>::max()) {
+    // the constant cannot be negated
+    is.setstate(std::ios_base::failbit);
+  }
   return is;
 }
 
diff --git a/monaa/tre_lexer.l b/monaa/tre_lexer.l
index 9ea05b8..e348bf2 100644
--- a/monaa/tre_lexer.l
+++ b/monaa/tre_lexer.l
@@ -1,4 +1,7 @@
 %{
+#include <cerrno>
+#include <cstdlib>
+#include <limits>
 #include <string>
 
 /* Implementation of yyFlexScanner */ 
@@ -48,7 +51,12 @@ using token = MONAA::TREParser::token;
 }
 
 [0-9]+ {
-    yylval->build<int>( atoi(yytext) );
+    errno = 0;
+    const long value = strtol(yytext, nullptr, 10);
+    if (errno == ERANGE || value > std::numeric_limits<int>::max()) {
+        throw MONAA::TREParser::syntax_error(*loc, "the constant is too large");
+    }
+    yylval->build<int>( static_cast<int>(value) );
     return token::INT;
 }
 
-- 
2.43.0


From d7ef67a14bde499f14343c3897a44b31f58b8664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:59 +0000
Subject: [PATCH 20/32] fix: construct the active member of the union in
 AtomicTRE(left, right)

---
 monaa/intermediate_tre.hh | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/monaa/intermediate_tre.hh b/monaa/intermediate_tre.hh
index 5b6e041..a998076 100644
--- a/monaa/intermediate_tre.hh
+++ b/monaa/intermediate_tre.hh
@@ -140,22 +140,24 @@ public:
       list.~list();
       switch (tag) {
       case op::singleton: {
-        singleton = origExpr->singleton;
+        new (&singleton) std::shared_ptr<SingletonTRE>(origExpr->singleton);
         break;
       }
       case op::epsilon: {
         break;
       }
       case op::concat: {
-        list = origExpr->list;
+        new (&list) std::list<std::shared_ptr<AtomicTRE>>(origExpr->list);
         break;
       }
       case op::plus: {
-        expr = origExpr->expr;
+        new (&expr) std::shared_ptr<DNFTRE>(origExpr->expr);
         break;
       }
       case op::within: {
-        within = origExpr->within;
+        new (&within)
+            std::pair<std::shared_ptr<AtomicTRE>, std::shared_ptr<Interval>>(
+                origExpr->within);
         break;
       }
       }
-- 
2.43.0


From 25d9e11028765734825d2dedccce97a9cb52625c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:59 +0000
Subject: [PATCH 21/32] fix: do not modify the intervals and expressions shared
 by signal TREs

---
 libmonaa/interval.hh      |  5 +++--
 monaa/intermediate_tre.cc | 19 ++++++++++++++-----
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/libmonaa/interval.hh b/libmonaa/interval.hh
index bc8573b..4cb6e5a 100644
--- a/libmonaa/interval.hh
+++ b/libmonaa/interval.hh
@@ -121,8 +121,9 @@ inline static Interval operator&&(const Interval &left, const Interval &right) {
  */
 inline static void land(std::vector<std::shared_ptr<Interval>> &left,
                         const Interval &right) {
-  for (auto interval : left) {
-    (*interval) = (*interval) && right;
+  for (auto &interval : left) {
+    // The interval may be shared with another set
+    interval = std::make_shared<Interval>((*interval) && right);
   }
   left.erase(std::remove_if(left.begin(), left.end(),
                             [](std::shared_ptr<Interval> interval) {
diff --git a/monaa/intermediate_tre.cc b/monaa/intermediate_tre.cc
index 64493b0..0bd522f 100644
--- a/monaa/intermediate_tre.cc
+++ b/monaa/intermediate_tre.cc
@@ -143,6 +143,10 @@ DNFTRE::DNFTRE(const std::shared_ptr<const TRE> tre) {
 };
 
 void AtomicTRE::toNormalForm() {
+  if (decision) {
+    // It is already in the normal form: it can be shared by several expressions
+    return;
+  }
   switch (tag) {
   case op::singleton: {
     decision = std::make_shared<SyntacticDecision>(
@@ -171,7 +175,10 @@ void AtomicTRE::toNormalForm() {
                  std::next(it) != list.end() &&
                  (*std::next(it))->tag == AtomicTRE::op::singleton &&
                  (*it)->singleton->c == (*std::next(it))->singleton->c) {
-        (*it)->singleton->intervals += (*std::next(it))->singleton->intervals;
+        // The singleton may be shared with another expression
+        auto merged = std::make_shared<SingletonTRE>(*(*it)->singleton);
+        merged->intervals += (*std::next(it))->singleton->intervals;
+        *it = std::make_shared<AtomicTRE>(merged);
         list.erase(std::next(it));
       } else {
         it++;
@@ -289,11 +296,12 @@ void AtomicTRE::toNormalForm() {
     switch (within.first->tag) {
     case op::singleton: {
       auto origExpr = within.first;
-      land(origExpr->singleton->intervals, *(within.second));
+      // The singleton may be shared with another expression
+      auto restricted = std::make_shared<SingletonTRE>(*origExpr->singleton);
+      land(restricted->intervals, *(within.second));
       within.~pair<std::shared_ptr<AtomicTRE>, std::shared_ptr<Interval>>();
       tag = op::singleton;
-      new (&singleton)
-          std::shared_ptr<SingletonTRE>(std::move(origExpr->singleton));
+      new (&singleton) std::shared_ptr<SingletonTRE>(std::move(restricted));
       break;
     }
     case op::epsilon: {
@@ -438,7 +446,8 @@ bool AtomicTRE::makeSNF(const char singleC) {
     if (!within.first->makeSNF(singleC)) {
       return false;
     }
-    auto tmpTRE = within.first->singleton;
+    // The singleton may be shared with another expression
+    auto tmpTRE = std::make_shared<SingletonTRE>(*within.first->singleton);
     auto tmpInterval = within.second;
     within.~pair<std::shared_ptr<AtomicTRE>, std::shared_ptr<Interval>>();
     tag = op::singleton;
-- 
2.43.0


From 1ea8ee8e829498a0190e6a4da298b4198df40bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:59 +0000
Subject: [PATCH 22/32] fix: drop the intervals that are empty by strictness in
 land

---
 libmonaa/interval.hh | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libmonaa/interval.hh b/libmonaa/interval.hh
index 4cb6e5a..ecc9197 100644
--- a/libmonaa/interval.hh
+++ b/libmonaa/interval.hh
@@ -127,8 +127,11 @@ inline static void land(std::vector<std::shared_ptr<Interval>> &left,
   }
   left.erase(std::remove_if(left.begin(), left.end(),
                             [](std::shared_ptr<Interval> interval) {
-                              return interval->lowerBound >
-                                     interval->upperBound;
+                              const auto &lower = interval->lowerBound;
+                              const auto &upper = interval->upperBound;
+                              return lower.first > upper.first ||
+                                     (lower.first == upper.first &&
+                                      !(lower.second && upper.second));
                             }),
              left.end());
 }
-- 
2.43.0


From 03ca8fa9550c72bf3c3332880b3b20d930b51d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:59 +0000
Subject: [PATCH 23/32] fix: keep the element before the split one in signal
 TREs

---
 monaa/intermediate_tre.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/monaa/intermediate_tre.cc b/monaa/intermediate_tre.cc
index 0bd522f..743a33b 100644
--- a/monaa/intermediate_tre.cc
+++ b/monaa/intermediate_tre.cc
@@ -220,8 +220,7 @@ void AtomicTRE::toNormalForm() {
       if (it != list.end()) {
         // when the subformula is splitted (not plus anymore)
         // propergate within
-        std::list<std::shared_ptr<AtomicTRE>> prevList = {list.begin(),
-                                                          std::prev(it)};
+        std::list<std::shared_ptr<AtomicTRE>> prevList = {list.begin(), it};
         std::list<std::shared_ptr<AtomicTRE>> afterList = {std::next(it),
                                                            list.end()};
         auto origDecision = (*it)->decision;
@@ -349,8 +348,7 @@ void DNFTRE::toNormalForm() {
     // When plus and mixed, we execute sparation
     if (itc != it->end()) {
       std::shared_ptr<AtomicTRE> expr = *itc;
-      std::list<std::shared_ptr<AtomicTRE>> others = {it->begin(),
-                                                      std::prev(itc)};
+      std::list<std::shared_ptr<AtomicTRE>> others = {it->begin(), itc};
       others.insert(others.end(), std::next(itc), it->end());
       for (auto &subExpr : expr->expr->list) {
         subExpr.insert(subExpr.end(), others.begin(), others.end());
-- 
2.43.0


From 1057aadbc74bb33e6d09e763a4ce2d938656f93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:59 +0000
Subject: [PATCH 24/32] fix: visit all the conjuncts of a signal TRE and keep
 the product

---
 monaa/intermediate_tre.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/monaa/intermediate_tre.cc b/monaa/intermediate_tre.cc
index 743a33b..9b7ee56 100644
--- a/monaa/intermediate_tre.cc
+++ b/monaa/intermediate_tre.cc
@@ -367,7 +367,7 @@ void DNFTRE::toNormalForm() {
     auto it = conjunctions.begin();
     decisions.push_back(
         std::make_shared<SyntacticDecision>(*((*it)->decision)));
-    for (it++; it != conjunctions.end();) {
+    for (it++; it != conjunctions.end(); it++) {
       decisions.back()->tag =
           (decisions.back()->tag == SyntacticDecision::Decision::Constant ||
            (*it)->decision->tag == SyntacticDecision::Decision::Constant)
@@ -661,6 +661,7 @@ void DNFTRE::toSignalTA(TimedAutomaton &out) const {
       TimedAutomaton tmpTA, TA2;
       (*it)->toSignalTA(tmpTA);
       intersectionSignalTA(another, tmpTA, TA2);
+      another = std::move(TA2);
     }
     out.states.insert(out.states.end(), another.states.begin(),
                       another.states.end());
-- 
2.43.0


From f9c65eb5b5efdfc4a1f0e89e8a5009776322b15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:59 +0000
Subject: [PATCH 25/32] fix: do not expand the Kleene closure of a positive
 point

---
 monaa/intermediate_tre.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/monaa/intermediate_tre.cc b/monaa/intermediate_tre.cc
index 9b7ee56..35435d8 100644
--- a/monaa/intermediate_tre.cc
+++ b/monaa/intermediate_tre.cc
@@ -433,6 +433,16 @@ bool AtomicTRE::makeSNF(const char singleC) {
     if (!expr->makeSNF(singleC)) {
       return false;
     }
+    // The Kleene closure of a positive point is not a finite union of intervals
+    if (std::any_of(expr->list.front().front()->singleton->intervals.begin(),
+                    expr->list.front().front()->singleton->intervals.end(),
+                    [](const std::shared_ptr<Interval> &interval) {
+                      return interval->lowerBound.first > 0 &&
+                             interval->lowerBound.first ==
+                                 interval->upperBound.first;
+                    })) {
+      return false;
+    }
     auto tmpTRE = expr->list.front().front()->singleton;
     expr.reset();
     tag = op::singleton;
-- 
2.43.0


From a4a249a437e62910738c4daf1c54add120c32db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:59 +0000
Subject: [PATCH 26/32] fix: transitions of plus and within in toSignalTA

---
 monaa/intermediate_tre.cc | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/monaa/intermediate_tre.cc b/monaa/intermediate_tre.cc
index 35435d8..ed6c064 100644
--- a/monaa/intermediate_tre.cc
+++ b/monaa/intermediate_tre.cc
@@ -567,18 +567,23 @@ void AtomicTRE::toSignalTA(TimedAutomaton &out) const {
     expr->toSignalTA(out);
     for (auto &s : out.states) {
       for (auto &edges : s->next) {
-        for (auto &edge : edges.second) {
+        // We must not modify edges.second while iterating over it
+        std::vector<TATransition> newTransitions;
+        for (const auto &edge : edges.second) {
           TAState *target = edge.target;
           if (target && target->isMatch) {
-            edges.second.reserve(edges.second.size() +
-                                 out.initialStates.size());
-            for (auto initState : out.initialStates) {
+            for (const auto &initState : out.initialStates) {
               TATransition transition = edge;
-              edge.target = target;
-              edges.second.emplace_back(std::move(transition));
+              transition.target = initState.get();
+              for (std::size_t clock = 0; clock < out.clockSize(); clock++) {
+                transition.resetVars.push_back(clock);
+              }
+              newTransitions.emplace_back(std::move(transition));
             }
           }
         }
+        edges.second.insert(edges.second.end(), newTransitions.begin(),
+                            newTransitions.end());
       }
     }
     break;
@@ -603,18 +608,19 @@ void AtomicTRE::toSignalTA(TimedAutomaton &out) const {
         dummyInitialState->next[c].reserve(dummyInitialState->next[c].size() +
                                            initTransitionsPair.second.size());
         for (auto &edge : initTransitionsPair.second) {
-          TATransition transition = edge;
-          transition.resetVars.push_back(out.clockSize());
-          dummyInitialState->next[c].emplace_back(std::move(transition));
+          dummyInitialState->next[c].emplace_back(edge);
         }
       }
     }
+    out.states.push_back(dummyInitialState);
     // add dummy accepting state
     std::shared_ptr<TAState> dummyAcceptingState = std::make_shared<TAState>();
     dummyAcceptingState->isMatch = true;
     for (auto state : out.states) {
       for (auto &edges : state->next) {
-        for (auto &edge : edges.second) {
+        // We must not modify edges.second while iterating over it
+        std::vector<TATransition> newTransitions;
+        for (const auto &edge : edges.second) {
           auto target = edge.target;
           if (target && target->isMatch) {
             TATransition transition = edge;
@@ -640,17 +646,17 @@ void AtomicTRE::toSignalTA(TimedAutomaton &out) const {
               transition.guard.emplace_back(TimedAutomaton::X(out.clockSize()) >
                                             within.second->lowerBound.first);
             }
-            edges.second.emplace_back(std::move(transition));
+            newTransitions.emplace_back(std::move(transition));
           }
         }
+        edges.second.insert(edges.second.end(), newTransitions.begin(),
+                            newTransitions.end());
       }
     }
     for (auto state : out.states) {
       state->isMatch = false;
     }
     out.initialStates = {dummyInitialState};
-    out.states.reserve(out.stateSize() + 2);
-    out.states.emplace_back(std::move(dummyInitialState));
     out.states.emplace_back(std::move(dummyAcceptingState));
     if (std::isinf(within.second->upperBound.first)) {
       out.maxConstraints.emplace_back(within.second->lowerBound.first);
-- 
2.43.0


From 7c1a9770c4d9057e5453463126b412f85042760a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:59 +0000
Subject: [PATCH 27/32] fix: no stale pointers in renameToEpsilonTransitions

---
 monaa/tre.cc | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/monaa/tre.cc b/monaa/tre.cc
index 5cd6cc8..a193726 100644
--- a/monaa/tre.cc
+++ b/monaa/tre.cc
@@ -459,18 +459,13 @@ void TRE::toEventTA(TimedAutomaton &out) const {
 void renameToEpsilonTransitions(TimedAutomaton &out) {
   std::unordered_map<TAState *, std::shared_ptr<TAState>> toAccepting;
   const auto haveToChangeToEpsilon = [](const TAState *s, const Alphabet c) {
-    static std::unordered_map<const TAState *, Alphabet> output;
-    if (c != 0) {
-      if (s->next.find(c) != s->next.end()) {
-        output[s] = c;
-        return true;
-      } else {
-        return output[s] == c;
-      }
-    }
-    return false;
+    // The list of the transitions with c remains even if all of them have been
+    // renamed
+    return c != 0 && s->next.find(c) != s->next.end();
   };
   for (auto s : out.states) {
+    // We must not add an element to s->next while iterating over it
+    std::vector<TATransition> epsilonTransitions;
     for (auto &transitionsPair : s->next) {
       const Alphabet c = transitionsPair.first;
       for (auto it = transitionsPair.second.begin();
@@ -478,7 +473,7 @@ void renameToEpsilonTransitions(TimedAutomaton &out) {
         TAState *target = it->target;
         if (target) {
           if (haveToChangeToEpsilon(target, c)) {
-            s->next[0].push_back(*it);
+            epsilonTransitions.push_back(*it);
             if (target->isMatch) {
               auto ret = toAccepting.find(target);
               if (ret == toAccepting.end()) {
@@ -496,6 +491,11 @@ void renameToEpsilonTransitions(TimedAutomaton &out) {
         }
       }
     }
+    if (!epsilonTransitions.empty()) {
+      auto &next = s->next[0];
+      next.insert(next.end(), epsilonTransitions.begin(),
+                  epsilonTransitions.end());
+    }
   }
 
   for (const auto &pair : toAccepting) {
-- 
2.43.0


From b824920b1c548f6701af954b71c0c317fdc24ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:59 +0000
Subject: [PATCH 28/32] fix: terminate on cycles of unobservable transitions

---
 libmonaa/intermediate_zone.hh | 15 +++++++++++++++
 libmonaa/monaa.hh             | 12 +++++++++++-
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/libmonaa/intermediate_zone.hh b/libmonaa/intermediate_zone.hh
index 4473915..7d1a536 100644
--- a/libmonaa/intermediate_zone.hh
+++ b/libmonaa/intermediate_zone.hh
@@ -369,6 +369,21 @@ public:
     }
   }
 
+  bool operator==(const IntermediateZone &zone) const {
+    if (useInterval != zone.useInterval || newestClock != zone.newestClock) {
+      return false;
+    }
+    if (useInterval) {
+      return std::equal(intervals.begin(), intervals.end(),
+                        zone.intervals.begin(), zone.intervals.end(),
+                        [](const Interval &left, const Interval &right) {
+                          return left.lowerBound == right.lowerBound &&
+                                 left.upperBound == right.upperBound;
+                        });
+    }
+    return value.rows() == zone.value.rows() && value == zone.value;
+  }
+
   void deallocate(const ClockVariables x) {
     static constexpr Bounds infinity =
         Bounds(std::numeric_limits<double>::infinity(), false);
diff --git a/libmonaa/monaa.hh b/libmonaa/monaa.hh
index d36ebf6..3129def 100644
--- a/libmonaa/monaa.hh
+++ b/libmonaa/monaa.hh
@@ -77,6 +77,9 @@ struct InternalState {
       // Every clock variables are reset at t1 ( = t)
       : s(std::move(s)), resetTime(numOfVar, ClockVariables(1)),
         z(std::move(interval)) {}
+  bool operator==(const InternalState &state) const {
+    return s == state.s && resetTime == state.resetTime && z == state.z;
+  }
 };
 
 struct IntervalInternalState {
@@ -602,7 +605,14 @@ void monaa(WordContainer<InputContainer> word, TimedAutomaton A,
                   tmpResetTime[x] = newClock;
                 }
                 tmpZ.update(tmpResetTime);
-                CurrEpsilonConf.emplace_back(target, tmpResetTime, tmpZ);
+                const InternalState next = {target, tmpResetTime, tmpZ};
+                // The unobservable transitions may have a cycle
+                if (std::find(CStates.begin(), CStates.end(), next) ==
+                        CStates.end() &&
+                    std::find(CurrEpsilonConf.begin(), CurrEpsilonConf.end(),
+                              next) == CurrEpsilonConf.end()) {
+                  CurrEpsilonConf.push_back(next);
+                }
               }
             }
           }
-- 
2.43.0


From 2e76985987348c7f60c44dcb2e8fc3ec091e75b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:59 +0000
Subject: [PATCH 29/32] fix: report too large signal TREs

---
 libmonaa/interval.hh      | 3 ++-
 monaa/intermediate_tre.cc | 3 ++-
 monaa/main.cc             | 7 ++++++-
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/libmonaa/interval.hh b/libmonaa/interval.hh
index ecc9197..b7189c8 100644
--- a/libmonaa/interval.hh
+++ b/libmonaa/interval.hh
@@ -6,6 +6,7 @@
  */
 
 #include <cmath>
+#include <stdexcept>
 
 #include "zone.hh"
 
@@ -210,7 +211,7 @@ operator+=(std::vector<std::shared_ptr<Interval>> &left,
 //! @todo Optimization: We can use * - 0 instead of cup of +
 inline void plus(std::vector<std::shared_ptr<Interval>> &intervals) {
   if (intervals.size() >= 32) {
-    throw "too large expression";
+    throw std::length_error("too large expression");
   }
   std::vector<std::vector<std::shared_ptr<Interval>>> plusIntervals;
   plusIntervals.resize(intervals.size());
diff --git a/monaa/intermediate_tre.cc b/monaa/intermediate_tre.cc
index ed6c064..81f9123 100644
--- a/monaa/intermediate_tre.cc
+++ b/monaa/intermediate_tre.cc
@@ -8,6 +8,7 @@
 #include <list>
 #include <memory>
 #include <numeric>
+#include <stdexcept>
 #include <utility>
 #include <vector>
 
@@ -251,7 +252,7 @@ void AtomicTRE::toNormalForm() {
     //! @note This increase the size of formula exponentially
     if (decision->isMixed()) {
       if (expr->list.size() >= 32) {
-        throw "too large expression";
+        throw std::length_error("too large expression");
       }
       std::shared_ptr<DNFTRE> separatedTRE = std::make_shared<DNFTRE>();
       const uint32_t subsetSize = 1 << expr->list.size();
diff --git a/monaa/main.cc b/monaa/main.cc
index e8d58f7..51fd0f9 100644
--- a/monaa/main.cc
+++ b/monaa/main.cc
@@ -1,5 +1,6 @@
 #include <boost/program_options.hpp>
 #include <iostream>
+#include <stdexcept>
 
 #include "monaa.hh"
 #include "timed_automaton_parser.hh"
@@ -113,7 +114,11 @@ int main(int argc, char *argv[]) {
       die("Failed to parse TRE", 2);
     }
     if (isSignal) {
-      toSignalTA(driver.getResult(), TA);
+      try {
+        toSignalTA(driver.getResult(), TA);
+      } catch (const std::length_error &e) {
+        die(e.what(), 2);
+      }
     } else {
       driver.getResult()->toEventTA(TA);
     }
-- 
2.43.0


From bab1ca2fa1a5f0d1385019294d9cc6e9e5a3a0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:12 +0000
Subject: [PATCH 30/32] fix: keep closures of points in the normal form of
 signal TREs

---
 monaa/intermediate_tre.cc | 89 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 78 insertions(+), 11 deletions(-)

diff --git a/monaa/intermediate_tre.cc b/monaa/intermediate_tre.cc
index 81f9123..3f04d40 100644
--- a/monaa/intermediate_tre.cc
+++ b/monaa/intermediate_tre.cc
@@ -143,6 +143,83 @@ DNFTRE::DNFTRE(const std::shared_ptr<const TRE> tre) {
   }
 };
 
+namespace {
+using Intervals = std::vector<std::shared_ptr<Interval>>;
+
+/*!
+  @brief Compute the lengths of the signals of a single value in an expression
+
+  @param [in] tre The expression
+  @param [in] singleC The value of the signals
+  @param [out] intervals The set of the lengths
+  @return False if the set is not a finite union of intervals: the Kleene
+  closure of a positive point.
+ */
+bool singleIntervals(const AtomicTRE &tre, const char singleC,
+                     Intervals &intervals) {
+  intervals.clear();
+  switch (tre.tag) {
+  case AtomicTRE::op::singleton: {
+    if (singleC == tre.singleton->c) {
+      intervals = tre.singleton->intervals;
+    }
+    return true;
+  }
+  case AtomicTRE::op::epsilon: {
+    return true;
+  }
+  case AtomicTRE::op::concat: {
+    intervals = {std::make_shared<Interval>(Bounds{0, true}, Bounds{0, true})};
+    for (const auto &child : tre.list) {
+      Intervals tmpIntervals;
+      if (!singleIntervals(*child, singleC, tmpIntervals)) {
+        return false;
+      }
+      intervals += tmpIntervals;
+    }
+    return true;
+  }
+  case AtomicTRE::op::plus: {
+    for (const auto &conjunctions : tre.expr->list) {
+      Intervals conjunctionIntervals = {std::make_shared<Interval>()};
+      for (const auto &child : conjunctions) {
+        Intervals tmpIntervals;
+        if (!singleIntervals(*child, singleC, tmpIntervals)) {
+          return false;
+        }
+        land(conjunctionIntervals, tmpIntervals);
+      }
+      intervals.insert(intervals.end(), conjunctionIntervals.begin(),
+                       conjunctionIntervals.end());
+    }
+    if (std::any_of(intervals.begin(), intervals.end(),
+                    [](const std::shared_ptr<Interval> &interval) {
+                      return interval->lowerBound.first > 0 &&
+                             interval->lowerBound.first ==
+                                 interval->upperBound.first;
+                    })) {
+      return false;
+    }
+    plus(intervals);
+    return true;
+  }
+  case AtomicTRE::op::within: {
+    if (!singleIntervals(*tre.within.first, singleC, intervals)) {
+      return false;
+    }
+    land(intervals, *tre.within.second);
+    return true;
+  }
+  }
+  return false;
+}
+
+bool hasIntervals(const AtomicTRE &tre, const char singleC) {
+  Intervals intervals;
+  return singleIntervals(tre, singleC, intervals);
+}
+} // namespace
+
 void AtomicTRE::toNormalForm() {
   if (decision) {
     // It is already in the normal form: it can be shared by several expressions
@@ -284,7 +361,7 @@ void AtomicTRE::toNormalForm() {
     }
     //! reduce to SNF
     Alphabet singleC;
-    if (decision->isConstant(singleC)) {
+    if (decision->isConstant(singleC) && hasIntervals(*this, singleC)) {
       makeSNF(singleC);
     }
     break;
@@ -434,16 +511,6 @@ bool AtomicTRE::makeSNF(const char singleC) {
     if (!expr->makeSNF(singleC)) {
       return false;
     }
-    // The Kleene closure of a positive point is not a finite union of intervals
-    if (std::any_of(expr->list.front().front()->singleton->intervals.begin(),
-                    expr->list.front().front()->singleton->intervals.end(),
-                    [](const std::shared_ptr<Interval> &interval) {
-                      return interval->lowerBound.first > 0 &&
-                             interval->lowerBound.first ==
-                                 interval->upperBound.first;
-                    })) {
-      return false;
-    }
     auto tmpTRE = expr->list.front().front()->singleton;
     expr.reset();
     tag = op::singleton;
-- 
2.43.0


From cfbde8692f2213539d9716f0da213ffe6dca97c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:02 +0000
Subject: [PATCH 31/32] fix: enforce the value of the signal after an
 unobservable transition

---
 monaa/tre.cc | 46 +++++++++++++++++++++++++++++++++-------------
 1 file changed, 33 insertions(+), 13 deletions(-)

diff --git a/monaa/tre.cc b/monaa/tre.cc
index a193726..aaa8170 100644
--- a/monaa/tre.cc
+++ b/monaa/tre.cc
@@ -1,3 +1,4 @@
+#include <map>
 #include <numeric>
 #include <ostream>
 
@@ -455,14 +456,40 @@ void TRE::toEventTA(TimedAutomaton &out) const {
   reduceStates(out);
 }
 
-//! rename to epsilon transitions
+/*!
+  @brief Rename to epsilon transitions
+
+  A transition with c to a state with an outgoing transition with c becomes
+  unobservable: the signal stays c. After it, only the transitions with c are
+  allowed. When the target has anything else, the transition also remains, and
+  the unobservable one goes to a copy of the target that is restricted to c.
+*/
 void renameToEpsilonTransitions(TimedAutomaton &out) {
-  std::unordered_map<TAState *, std::shared_ptr<TAState>> toAccepting;
   const auto haveToChangeToEpsilon = [](const TAState *s, const Alphabet c) {
     // The list of the transitions with c remains even if all of them have been
     // renamed
     return c != 0 && s->next.find(c) != s->next.end();
   };
+  std::map<std::pair<const TAState *, Alphabet>, std::shared_ptr<TAState>>
+      restricted;
+  for (const auto &s : out.states) {
+    for (const auto &transitionsPair : s->next) {
+      const Alphabet c = transitionsPair.first;
+      for (const auto &transition : transitionsPair.second) {
+        const TAState *target = transition.target;
+        if (target && haveToChangeToEpsilon(target, c) &&
+            (target->isMatch || target->next.size() > 1) &&
+            restricted.find({target, c}) == restricted.end()) {
+          auto copy = std::make_shared<TAState>();
+          copy->next[c] = target->next.find(c)->second;
+          restricted[{target, c}] = std::move(copy);
+        }
+      }
+    }
+  }
+  for (const auto &pair : restricted) {
+    out.states.push_back(pair.second);
+  }
   for (auto s : out.states) {
     // We must not add an element to s->next while iterating over it
     std::vector<TATransition> epsilonTransitions;
@@ -474,12 +501,10 @@ void renameToEpsilonTransitions(TimedAutomaton &out) {
         if (target) {
           if (haveToChangeToEpsilon(target, c)) {
             epsilonTransitions.push_back(*it);
-            if (target->isMatch) {
-              auto ret = toAccepting.find(target);
-              if (ret == toAccepting.end()) {
-                toAccepting[target] = std::make_shared<TAState>(true);
-              }
-              it->target = toAccepting[target].get();
+            const auto copy = restricted.find({target, c});
+            if (copy != restricted.end()) {
+              epsilonTransitions.back().target = copy->second.get();
+              it++;
             } else {
               it = transitionsPair.second.erase(it);
             }
@@ -497,11 +522,6 @@ void renameToEpsilonTransitions(TimedAutomaton &out) {
                   epsilonTransitions.end());
     }
   }
-
-  for (const auto &pair : toAccepting) {
-    pair.first->isMatch = false;
-    out.states.emplace_back(std::move(pair.second));
-  }
 }
 
 void toSignalTA(std::shared_ptr<const TRE> tre, TimedAutomaton &out) {
-- 
2.43.0


From 6540c1dccf58df0d6a149d10d02197b4f5fdc04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:21 +0000
Subject: [PATCH 32/32] fix: enforce the value of the signal in the product of
 signal automata

---
 libmonaa/intersection.cc | 125 ++++++++++++++++++++++-----------------
 monaa/tre.cc             |  10 ++++
 2 files changed, 82 insertions(+), 53 deletions(-)

diff --git a/libmonaa/intersection.cc b/libmonaa/intersection.cc
index e952b90..be9663c 100644
--- a/libmonaa/intersection.cc
+++ b/libmonaa/intersection.cc
@@ -206,11 +206,10 @@ void intersectionSignalTA(const TimedAutomaton &in1, const TimedAutomaton &in2,
                             in2.maxConstraints.end());
 
   const auto addProductTransition = [&](TAState *s1, TAState *s2,
-                                        TAState *nextS1, TAState *nextS2,
-                                        const TATransition &e1,
+                                        TAState *target, const TATransition &e1,
                                         const TATransition &e2, char c) {
     TATransition transition;
-    transition.target = toIState[std::make_pair(nextS1, nextS2)].get();
+    transition.target = target;
 
     // concat resetVars
     transition.resetVars.reserve(e1.resetVars.size() + e2.resetVars.size());
@@ -235,78 +234,98 @@ void intersectionSignalTA(const TimedAutomaton &in1, const TimedAutomaton &in2,
     toIState[std::make_pair(s1, s2)]->next[c].push_back(std::move(transition));
   };
 
-  TATransition emptyTransition;
+  // When only one component moves at c, the other one is still in the signal c.
+  // Until both of them finish it, only the transitions with c are allowed:
+  // (s1, s2, c) is the restriction of (s1, s2) to them.
+  boost::unordered_map<std::pair<std::pair<TAState *, TAState *>, Alphabet>,
+                       std::shared_ptr<TAState>>
+      toRestricted;
+  const auto restrictTo = [&](TAState *s1, TAState *s2, Alphabet c) {
+    auto &state = toRestricted[std::make_pair(std::make_pair(s1, s2), c)];
+    if (!state) {
+      state = std::make_shared<TAState>();
+      state->next[c] = {};
+    }
+    return state.get();
+  };
+
+  const TATransition emptyTransition = {nullptr, {}, {}};
   // make edges
   for (auto s1 : in1.states) {
     for (auto s2 : in2.states) {
       if (s1->zeroDuration != s2->zeroDuration) {
         continue;
       }
-      // Epsilon transitions
-      for (const auto &e1 : s1->next[0]) {
-        auto nextS1 = e1.target;
-        if (!nextS1) {
+      for (const auto &edges1 : s1->next) {
+        const Alphabet c = edges1.first;
+        if (c == 0) {
+          // Epsilon transitions
+          for (const auto &e1 : edges1.second) {
+            const auto it =
+                toIState.find(std::make_pair(e1.target, s2.get()));
+            if (it != toIState.end()) {
+              addProductTransition(s1.get(), s2.get(), it->second.get(), e1,
+                                   emptyTransition, 0);
+            }
+          }
           continue;
         }
-        addProductTransition(s1.get(), s2.get(), nextS1, s2.get(), e1,
-                             emptyTransition, 0);
-      }
-      for (const auto &e2 : s2->next[0]) {
-        auto nextS2 = e2.target;
-        if (!nextS2) {
+        const auto edges2 = s2->next.find(c);
+        if (edges2 == s2->next.end()) {
           continue;
         }
-        addProductTransition(s1.get(), s2.get(), s1.get(), nextS2,
-                             emptyTransition, e2, 0);
-      }
-
-      // Observable transitions
-      for (auto it1 = s1->next.begin(); it1 != s1->next.end(); it1++) {
-        const Alphabet c = it1->first;
         // Syncronous transition
-        for (const auto &e1 : it1->second) {
-          auto nextS1 = e1.target;
-          if (!nextS1) {
-            continue;
-          }
-          auto it2 = s2->next.find(c);
-          if (it2 == s2->next.end()) {
-            continue;
-          }
-          for (const auto &e2 : it2->second) {
-            auto nextS2 = e2.target;
-            if (!nextS2) {
-              continue;
+        for (const auto &e1 : edges1.second) {
+          for (const auto &e2 : edges2->second) {
+            const auto it = toIState.find(std::make_pair(e1.target, e2.target));
+            if (it != toIState.end()) {
+              addProductTransition(s1.get(), s2.get(), it->second.get(), e1, e2,
+                                   c);
             }
-            addProductTransition(s1.get(), s2.get(), nextS1, nextS2, e1, e2, c);
           }
         }
-
         // Asyncronous transition
-        if (s2->next.find(c) != s2->next.end()) {
-          for (const auto &e1 : it1->second) {
-            auto nextS1 = e1.target;
-            if (!nextS1) {
-              continue;
-            }
-            addProductTransition(s1.get(), s2.get(), nextS1, s2.get(), e1,
+        for (const auto &e1 : edges1.second) {
+          if (toIState.count(std::make_pair(e1.target, s2.get())) &&
+              e1.target->next.count(c)) {
+            addProductTransition(s1.get(), s2.get(),
+                                 restrictTo(e1.target, s2.get(), c), e1,
                                  emptyTransition, 0);
           }
         }
-
-        auto it2 = s2->next.find(c);
-        if (it2 == s2->next.end()) {
-          continue;
+        for (const auto &e2 : edges2->second) {
+          if (toIState.count(std::make_pair(s1.get(), e2.target)) &&
+              e2.target->next.count(c)) {
+            addProductTransition(s1.get(), s2.get(),
+                                 restrictTo(s1.get(), e2.target, c),
+                                 emptyTransition, e2, 0);
+          }
         }
-        for (const auto &e2 : it2->second) {
-          auto nextS2 = e2.target;
-          if (!nextS2) {
-            continue;
+      }
+      const auto epsilon2 = s2->next.find(0);
+      if (epsilon2 != s2->next.end()) {
+        for (const auto &e2 : epsilon2->second) {
+          const auto it = toIState.find(std::make_pair(s1.get(), e2.target));
+          if (it != toIState.end()) {
+            addProductTransition(s1.get(), s2.get(), it->second.get(),
+                                 emptyTransition, e2, 0);
           }
-          addProductTransition(s1.get(), s2.get(), s1.get(), nextS2,
-                               emptyTransition, e2, 0);
         }
       }
     }
   }
+
+  // make the edges of the restricted states
+  for (const auto &pair : toRestricted) {
+    const TAState &state = *toIState.at(pair.first.first);
+    const Alphabet c = pair.first.second;
+    for (const auto &edges : state.next) {
+      for (const auto &edge : edges.second) {
+        if (edges.first == c || (edges.first == 0 && edge.target->next.count(c))) {
+          pair.second->next[edges.first].push_back(edge);
+        }
+      }
+    }
+    out.states.push_back(pair.second);
+  }
 }
diff --git a/monaa/tre.cc b/monaa/tre.cc
index aaa8170..991c6dc 100644
--- a/monaa/tre.cc
+++ b/monaa/tre.cc
@@ -482,6 +482,16 @@ void renameToEpsilonTransitions(TimedAutomaton &out) {
             restricted.find({target, c}) == restricted.end()) {
           auto copy = std::make_shared<TAState>();
           copy->next[c] = target->next.find(c)->second;
+          const auto epsilon = target->next.find(0);
+          if (epsilon != target->next.end()) {
+            // The transitions that are already unobservable come from a
+            // conjunction: the signal is fixed by their targets
+            for (const auto &epsilonTransition : epsilon->second) {
+              if (epsilonTransition.target->next.count(c)) {
+                copy->next[0].push_back(epsilonTransition);
+              }
+            }
+          }
           restricted[{target, c}] = std::move(copy);
         }
       }
-- 
2.43.0

