From 8373afdbc68d8ffac7c91527907a7ec6b7f9b2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:00 +0000
Subject: [PATCH 01/15] fix: do not treat failed row equivalence as symmetric
 in the memo

The memo of distinguished rows was consulted in both directions although a
deterministic renaming from one row to another can exist without one in the
opposite direction.  The internal assertion guarding the memo then failed and
the learner aborted.
---
 include/observation_table.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/observation_table.hh b/include/observation_table.hh
index 4ac54d5..5985716 100644
--- a/include/observation_table.hh
+++ b/include/observation_table.hh
@@ -141,8 +141,8 @@ namespace learnta {
 
     std::optional<RenamingRelation> equivalentWithMemo(std::size_t i, std::size_t j) {
 #if 1
-      if (this->distinguishedPrefix.find(std::make_pair(i, j)) != this->distinguishedPrefix.end() ||
-          this->distinguishedPrefix.find(std::make_pair(j, i)) != this->distinguishedPrefix.end()) {
+      // Having no deterministic renaming from i to j does not imply having none from j to i
+      if (this->distinguishedPrefix.find(std::make_pair(i, j)) != this->distinguishedPrefix.end()) {
         // we already know that they are not equivalent
         assert(!this->equivalent(i, j));
         return std::nullopt;
-- 
2.43.0


From f5ef4212a43ed13db7b78d9bb72f11b9f08fb4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:02 +0000
Subject: [PATCH 02/15] fix: respect strict difference bounds when sampling a
 zone

---
 include/zone.hh | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/zone.hh b/include/zone.hh
index 63239db..3ba53f5 100644
--- a/include/zone.hh
+++ b/include/zone.hh
@@ -235,16 +235,18 @@ namespace learnta {
         if (isPoint(upperBound, lowerBound)) {
           valuation[i] = upperBound.first;
         } else {
-          double lower = std::max(0.0, -lowerBound.first);
+          // The tightest bounds, in the same form as the entries of the DBM, given the values chosen so far
+          Bounds tightLower = std::min(lowerBound, Bounds{0.0, true});
           double upper = upperBound.first;
           for (std::size_t j = 0; j < i; j++) {
             Bounds tmpLowerBound = this->value(j + 1, i + 1);
             Bounds tmpUpperBound = this->value(i + 1, j + 1);
-            lower = std::max(lower, -tmpLowerBound.first + valuation[j]);
+            tightLower = std::min(tightLower, Bounds{tmpLowerBound.first - valuation[j], tmpLowerBound.second});
             upper = std::min(upper, tmpUpperBound.first + valuation[j]);
           }
+          const double lower = std::max(0.0, -tightLower.first);
           assert(lower <= upper);
-          if (lowerBound.second) {
+          if (tightLower.second) {
             valuation[i] = lower;
           } else if (upper - lower > 0.5) {
             valuation[i] = lower + 0.5;
-- 
2.43.0


From 76a322ed2c40d67888238eb1698d1ffeb1573cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:07 +0000
Subject: [PATCH 03/15] fix: apply and revert simultaneous assignments in zones

---
 include/zone.hh | 83 +++++++++++++++++++++++++++++--------------------
 1 file changed, 50 insertions(+), 33 deletions(-)

diff --git a/include/zone.hh b/include/zone.hh
index 3ba53f5..4af7f0a 100644
--- a/include/zone.hh
+++ b/include/zone.hh
@@ -129,51 +129,47 @@ namespace learnta {
       }
     }
 
+    /*!
+     * @brief Make it the strongest post-condition of the reset
+     *
+     * @note The assignments are simultaneous, i.e., x := y refers to the value of y before the reset.
+     */
     void applyResets(const std::vector<std::pair<ClockVariables, std::variant<double, ClockVariables>>> &resets) {
-      // We apply renaming first
-      for (const auto &[resetVariable, updatedVariable]: resets) {
-        if (updatedVariable.index() == 1 && resetVariable != std::get<ClockVariables>(updatedVariable)) {
-          this->unconstrain(resetVariable);
-          this->value(resetVariable + 1, std::get<ClockVariables>(updatedVariable) + 1) = Bounds{0.0, true};
-          this->value(std::get<ClockVariables>(updatedVariable) + 1, resetVariable + 1) = Bounds{0.0, true};
-          canonize();
-        }
-      }
-      // Then, assign a value
-      for (const auto &[resetVariable, updatedVariable]: resets) {
-        if (updatedVariable.index() == 0) {
-          this->unconstrain(resetVariable);
-          this->value(0, resetVariable + 1) = Bounds(-std::get<double>(updatedVariable), true);
-          this->value(resetVariable + 1, 0) = Bounds(std::get<double>(updatedVariable), true);
-          canonize();
+      canonize();
+      const auto assignments = toAssignments(resets);
+      const auto old = value;
+      for (Eigen::Index i = 0; i < value.rows(); ++i) {
+        for (Eigen::Index j = 0; j < value.cols(); ++j) {
+          const auto &[sourceI, offsetI] = assignments.at(i);
+          const auto &[sourceJ, offsetJ] = assignments.at(j);
+          if (i != j) {
+            value(i, j) = sourceI == sourceJ ? Bounds{0, true} : old(sourceI, sourceJ);
+            value(i, j).first += offsetI - offsetJ;
+          }
         }
       }
+      canonize();
     }
 
     /*!
      * @brief Make it the weakest precondition of the reset
      *
-     * In addition to unconstrain the updated variables, we use the renaming information
+     * @note The assignments are simultaneous, i.e., x := y refers to the value of y before the reset.
      */
     void revertResets(const std::vector<std::pair<ClockVariables, std::variant<double, ClockVariables>>> &resets) {
-      std::vector<ClockVariables> resetVariables;
-      resetVariables.reserve(resets.size());
-      std::unordered_map<ClockVariables, ClockVariables> reverseAssignments;
-      for (const auto &[resetVariable, updatedVariable]: resets) {
-        resetVariables.push_back(resetVariable);
-        if (updatedVariable.index() == 1 && resetVariable != std::get<ClockVariables>(updatedVariable)) {
-          reverseAssignments[std::get<ClockVariables>(updatedVariable)] = resetVariable;
-        }
-      }
-      for (const auto &resetVariable: boost::adaptors::reverse(resetVariables)) {
-        this->unconstrain(resetVariable);
-        auto it = reverseAssignments.find(resetVariable);
-        if (it != reverseAssignments.end()) {
-          this->value(it->first + 1, it->second + 1) = Bounds{0.0, true};
-          this->value(it->second + 1, it->first + 1) = Bounds{0.0, true};
+      const auto assignments = toAssignments(resets);
+      const auto old = value;
+      value.fill(Bounds(std::numeric_limits<double>::max(), false));
+      for (Eigen::Index i = 0; i < value.rows(); ++i) {
+        for (Eigen::Index j = 0; j < value.cols(); ++j) {
+          const auto &[sourceI, offsetI] = assignments.at(i);
+          const auto &[sourceJ, offsetJ] = assignments.at(j);
+          auto bound = old(i, j);
+          bound.first += offsetJ - offsetI;
+          value(sourceI, sourceJ) = std::min(value(sourceI, sourceJ), bound);
         }
-        canonize();
       }
+      canonize();
     }
 
     /*!
@@ -279,6 +275,27 @@ namespace learnta {
       value.row(x).tail(value.cols() - 1) = value.row(0).tail(value.cols() - 1);
     }
 
+    /*!
+     * @brief Represent the resets as x_i := x_{source} + offset for each row of the DBM, where x_0 is the constant zero
+     */
+    [[nodiscard]] std::vector<std::pair<std::size_t, double>> toAssignments(
+            const std::vector<std::pair<ClockVariables, std::variant<double, ClockVariables>>> &resets) const {
+      std::vector<std::pair<std::size_t, double>> assignments;
+      assignments.reserve(value.rows());
+      for (Eigen::Index i = 0; i < value.rows(); ++i) {
+        assignments.emplace_back(i, 0.0);
+      }
+      for (const auto &[resetVariable, updatedVariable]: resets) {
+        if (updatedVariable.index() == 1) {
+          assignments.at(resetVariable + 1) = {std::get<ClockVariables>(updatedVariable) + 1, 0.0};
+        } else {
+          assignments.at(resetVariable + 1) = {0, std::get<double>(updatedVariable)};
+        }
+      }
+
+      return assignments;
+    }
+
     /*!
      * @brief Unconstrain the constraint on this clock
      */
-- 
2.43.0


From 0c17416367ddfc0a81ba875410712c84d83cefb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:46 +0000
Subject: [PATCH 04/15] fix: use the tightest bounds of each guard in unionHull

---
 include/constraint.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/constraint.hh b/include/constraint.hh
index 77f850a..8604736 100644
--- a/include/constraint.hh
+++ b/include/constraint.hh
@@ -442,7 +442,8 @@ namespace learnta {
     bool initial = true;
     for (const auto &guard: guards) {
       boost::unordered_set<std::pair<ClockVariables, bool>> boundedKeys;
-      for (const auto &constraint: guard) {
+      // We use the tightest constraint for each bound of each clock variable
+      for (const auto &constraint: simplify(guard)) {
         const auto clock = constraint.x;
         const auto upperBound = constraint.isUpperBound();
         boundedKeys.emplace(clock, upperBound);
-- 
2.43.0


From 2f071fcbca3845f2786afe0676dbf7258d7935c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:56 +0000
Subject: [PATCH 05/15] fix: propagate the maximum constants through clock
 copies in the zone construction

---
 src/ta2za.cc | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/ta2za.cc b/src/ta2za.cc
index 0ea33f1..204588c 100644
--- a/src/ta2za.cc
+++ b/src/ta2za.cc
@@ -25,6 +25,25 @@ namespace learnta {
       for (std::size_t i = 0; i < initialZone.maxConstraints.size(); ++i) {
         initialZone.maxConstraints.at(i) = TA.maxConstraints.at(i);
       }
+      // The value of a clock variable may be compared after it is copied to another clock variable
+      for (bool changed = true; changed;) {
+        changed = false;
+        for (const auto &state: TA.states) {
+          for (const auto &[c, edges]: state->next) {
+            for (const auto &edge: edges) {
+              for (const auto &[resetVariable, updatedVariable]: edge.resetVars) {
+                if (updatedVariable.index() == 1) {
+                  auto &sourceMax = initialZone.maxConstraints.at(std::get<ClockVariables>(updatedVariable));
+                  if (sourceMax < initialZone.maxConstraints.at(resetVariable)) {
+                    sourceMax = initialZone.maxConstraints.at(resetVariable);
+                    changed = true;
+                  }
+                }
+              }
+            }
+          }
+        }
+      }
     } else {
       initialZone.M = Bounds(0, true);
     }
-- 
2.43.0


From 263db8c8a166398d9480cda9cb4c81f1ee36c16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:26 +0000
Subject: [PATCH 06/15] fix: explore actions in the order the zone construction
 expects when sampling

---
 src/ta2za.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/ta2za.cc b/src/ta2za.cc
index 204588c..652fca4 100644
--- a/src/ta2za.cc
+++ b/src/ta2za.cc
@@ -77,8 +77,16 @@ namespace learnta {
       TAState *taState = zaState->taState;
       Zone nowZone = zaState->zone;
       nowZone.elapse();
+      // We follow the order of the exploration in ZoneAutomaton::sample so that it visits each state via the transition
+      // that created the state. Otherwise, it may use a transition whose zone is strictly included in that of the state.
+      std::vector<Alphabet> actions;
+      actions.reserve(taState->next.size());
       for (const auto &[c, edges]: taState->next) {
-        for (const auto &edge: edges) {
+        actions.push_back(c);
+      }
+      std::sort(actions.begin(), actions.end());
+      for (const auto c: actions) {
+        for (const auto &edge: taState->next.at(c)) {
           Zone nextZone = nowZone;
           auto nextState = edge.target;
           if (!nextState) {
-- 
2.43.0


From a59e7a97dd4938e4d23de7487cb73dcdb3da1dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:42 +0000
Subject: [PATCH 07/15] fix: take the unobservable transition enabled first in
 TimedAutomatonRunner

---
 include/timed_automaton_runner.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/timed_automaton_runner.hh b/include/timed_automaton_runner.hh
index e42d1ae..458c392 100644
--- a/include/timed_automaton_runner.hh
+++ b/include/timed_automaton_runner.hh
@@ -125,7 +125,7 @@ namespace learnta {
           minDuration = lowerBoundDurationToSatisfy(unobservableIt->second.front().guard, this->clockValuation);
           candidateTransition = unobservableIt->second.begin();
         } else {
-          candidateTransition = std::min_element(unobservableIt->second.begin(), unobservableIt->second.end(),
+          candidateTransition = std::max_element(unobservableIt->second.begin(), unobservableIt->second.end(),
                                                  [&](const auto &a, const auto &b) {
                                                    return lowerBoundDurationToSatisfy(a.guard, this->clockValuation) <
                                                           lowerBoundDurationToSatisfy(b.guard, this->clockValuation);
-- 
2.43.0


From febc5d67cfcce3f95d8a6b15fe6ad4adc4d00bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:53 +0000
Subject: [PATCH 08/15] fix: ignore the diagonal when comparing zones by
 inclusion

---
 include/zone.hh | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/zone.hh b/include/zone.hh
index 4af7f0a..509d6e4 100644
--- a/include/zone.hh
+++ b/include/zone.hh
@@ -411,9 +411,12 @@ namespace learnta {
     /*!
      * @brief Return if this zone includes the given zone
      *
-     * @pre both this and the given zones are canonized
+     * @pre both this and the given zones are canonized and satisfiable
+     *
+     * @note We do not assume that the diagonal elements are equal.
      */
-    [[nodiscard]] bool includes(const Zone &zone) const {
+    [[nodiscard]] bool includes(Zone zone) const {
+      zone.value.diagonal() = this->value.diagonal();
       return this->value.cwiseMax(zone.value) == this->value;
     };
 
-- 
2.43.0


From 4e1ffd573ba5076db825dbaf5d075b92cba616ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:32 +0000
Subject: [PATCH 09/15] fix: order the fractional parts of backward regional
 languages consistently

---
 .../backward_regional_elementary_language.hh    | 10 +++++-----
 include/forward_regional_elementary_language.hh | 17 +----------------
 2 files changed, 6 insertions(+), 21 deletions(-)

diff --git a/include/backward_regional_elementary_language.hh b/include/backward_regional_elementary_language.hh
index b69e48a..4f4b00b 100644
--- a/include/backward_regional_elementary_language.hh
+++ b/include/backward_regional_elementary_language.hh
@@ -37,11 +37,11 @@ namespace learnta {
       fractionalPart.resize(timedWord.wordSize() + 1);
       accumulatedDurationFromFront.resize(timedWord.wordSize() + 1);
       accumulatedDurationFromFront.front() = timedWord.getDurations().front();
-      fractionalPart.front() = timedWord.getDurations().front() - std::floor(timedWord.getDurations().front());
+      // Since predecessor() increases T_{0, i}, the variables are ordered by the time until T_{0, i} becomes an integer.
+      fractionalPart.front() = std::ceil(timedWord.getDurations().front()) - timedWord.getDurations().front();
       for (std::size_t i = 1; i < fractionalPart.size(); ++i) {
         accumulatedDurationFromFront.at(i) = accumulatedDurationFromFront.at(i - 1) + timedWord.getDurations().at(i);
-        fractionalPart.at(i) = accumulatedDurationFromFront.at(i);
-        fractionalPart.at(i) -= std::floor(fractionalPart.at(i));
+        fractionalPart.at(i) = std::ceil(accumulatedDurationFromFront.at(i)) - accumulatedDurationFromFront.at(i);
       }
       accumulatedDurationFromBack.resize(timedWord.wordSize() + 1);
       accumulatedDurationFromBack.back() = timedWord.getDurations().back();
@@ -78,8 +78,8 @@ namespace learnta {
       } else if (this->getTimedCondition().hasSuffix()) {
         // return the continuous prefix
         return std::make_optional(BackwardRegionalElementaryLanguage{
-                {this->getWord(), this->getTimedCondition().suffix(this->fractionalOrder.predecessorVariables())},
-                this->fractionalOrder.predecessor()});
+                {this->getWord(), this->getTimedCondition().suffix(this->fractionalOrder.successorVariables())},
+                this->fractionalOrder.successor()});
       } else {
         // TODO: return the discrete suffix
         auto word = this->getWord();
diff --git a/include/forward_regional_elementary_language.hh b/include/forward_regional_elementary_language.hh
index 1d41277..19827d8 100644
--- a/include/forward_regional_elementary_language.hh
+++ b/include/forward_regional_elementary_language.hh
@@ -158,22 +158,7 @@ namespace learnta {
       suffixDurations.erase(suffixDurations.begin(), suffixDurations.begin() + prefix.wordSize());
       suffixDurations.front() -= prefixWord.getDurations().back();
       // Generate the elementary language containing the suffix
-      const auto forward = fromTimedWord(TimedWord{suffixWord, suffixDurations});
-      // Construct the fractional order
-      std::vector<double> suffixDurationsFractional;
-      suffixDurationsFractional.resize(suffixDurations.size());
-      suffixDurationsFractional.front() = suffixDurations.front() - std::floor(suffixDurations.front());
-      for (std::size_t i = 1; i < suffixDurationsFractional.size(); ++i) {
-        suffixDurationsFractional.at(i) = suffixDurationsFractional.at(i - 1) + suffixDurations.at(i);
-        suffixDurationsFractional.at(i) -= std::floor(suffixDurationsFractional.at(i));
-      }
-      assert(std::all_of(suffixDurationsFractional.begin(), suffixDurationsFractional.end(),
-                         [](const double fractional) {
-                           return 0 <= fractional && fractional < 1;
-                         }));
-
-      return BackwardRegionalElementaryLanguage{ElementaryLanguage{forward.getWord(), forward.getTimedCondition()},
-                                                FractionalOrder(suffixDurationsFractional)};
+      return BackwardRegionalElementaryLanguage::fromTimedWord(TimedWord{suffixWord, suffixDurations});
     }
 
     [[nodiscard]] ForwardRegionalElementaryLanguage applyResets(const TATransition::Resets &resets) const {
-- 
2.43.0


From 06502bd4516a20cea20609fe2484afc4df7e75a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:24 +0000
Subject: [PATCH 10/15] fix: respect the upper bounds when computing the delay
 to satisfy a guard

---
 include/constraint.hh | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/constraint.hh b/include/constraint.hh
index 8604736..3496ee9 100644
--- a/include/constraint.hh
+++ b/include/constraint.hh
@@ -114,7 +114,7 @@ namespace learnta {
         case Order::lt:
         case Order::le:
           // Bounded from above
-          return valuation.at(this->x) <= this->c ? Bounds{0.0, true} :
+          return satisfy(valuation) ? Bounds{0.0, true} :
                  Bounds{-std::numeric_limits<double>::infinity(), false};
         case Order::ge:
           // Bounded from below
@@ -362,13 +362,29 @@ namespace learnta {
 
   [[nodiscard]] inline Bounds lowerBoundDurationToSatisfy(const std::vector<Constraint> &guard,
                                                           const std::vector<double> &valuation) {
+    if (guard.empty()) {
+      return Bounds{0.0, true};
+    }
     std::vector<Bounds> lowerBoundDurations;
     lowerBoundDurations.reserve(guard.size());
     std::transform(guard.begin(), guard.end(), std::back_inserter(lowerBoundDurations), [&](const auto &constraint) {
       return constraint.lowerBoundDurationToSatisfy(valuation);
     });
 
-    return *std::min_element(lowerBoundDurations.begin(), lowerBoundDurations.end());
+    const auto result = *std::min_element(lowerBoundDurations.begin(), lowerBoundDurations.end());
+    // The guard is never satisfied if some upper bound is violated before all the lower bounds are satisfied
+    if (std::any_of(guard.begin(), guard.end(), [&](const auto &constraint) {
+      if (!constraint.isUpperBound()) {
+        return false;
+      }
+      const Bounds remaining {constraint.c - valuation.at(constraint.x), constraint.odr == Constraint::Order::le};
+      return remaining.first < -result.first ||
+             (remaining.first == -result.first && !(remaining.second && result.second));
+    })) {
+      return Bounds{-std::numeric_limits<double>::infinity(), false};
+    }
+
+    return result;
   }
 
   static inline std::ostream &operator<<(std::ostream &os, const std::vector<Constraint> &guards) {
-- 
2.43.0


From 75b26e3846d99e398e23b86a3db4b44eb6809435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:49 +0000
Subject: [PATCH 11/15] Add guarded read-only accessors to the observation
 table (LEARNTA_VERIF_HOOKS)

---
 include/learner.hh           |  6 ++++++
 include/observation_table.hh | 20 ++++++++++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/include/learner.hh b/include/learner.hh
index d5cc8ed..3de473c 100644
--- a/include/learner.hh
+++ b/include/learner.hh
@@ -61,6 +61,12 @@ namespace learnta {
       return stream;
     }
 
+#ifdef LEARNTA_VERIF_HOOKS
+    [[nodiscard]] ObservationTable &getTable() {
+      return observationTable;
+    }
+#endif
+
     [[nodiscard]] std::size_t numEqQueries() const {
       return this->eqOracle->numEqQueries();
     }
diff --git a/include/observation_table.hh b/include/observation_table.hh
index 5985716..5224635 100644
--- a/include/observation_table.hh
+++ b/include/observation_table.hh
@@ -1220,6 +1220,26 @@ namespace learnta {
       return TimedAutomaton{{states, {initialState}}, TimedAutomaton::makeMaxConstants(states)}.simplify();
     }
 
+#ifdef LEARNTA_VERIF_HOOKS
+    //! @brief Read-only view of the observation table
+    struct View {
+      const std::vector<Alphabet> &alphabet;
+      const std::vector<ForwardRegionalElementaryLanguage> &prefixes;
+      const std::vector<BackwardRegionalElementaryLanguage> &suffixes;
+      const std::unordered_set<std::size_t> &pIndices;
+      const std::vector<std::vector<TimedConditionSet>> &table;
+      const std::vector<std::vector<TimedCondition>> &concatenations;
+      const std::unordered_map<std::size_t, std::size_t> &continuousSuccessors;
+      const boost::unordered_map<std::pair<std::size_t, Alphabet>, std::size_t> &discreteSuccessors;
+      const std::unordered_map<std::size_t, std::unordered_map<std::size_t, RenamingRelation>> &closedRelation;
+    };
+
+    [[nodiscard]] View view() const {
+      return {alphabet, prefixes, suffixes, pIndices, table, concatenations,
+              continuousSuccessors, discreteSuccessors, closedRelation};
+    }
+#endif
+
     std::ostream &printDetail(std::ostream &stream) const {
       printStatistics(stream);
       stream << "P is as follows\n";
-- 
2.43.0


From cdc0afc97888a536b46a6cc17f4ee6a44d781b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:47 +0000
Subject: [PATCH 12/15] fix: merging nondeterministic branching restarts after
 each merge

Merging two overlapping transitions widens the guard of the merged one (or replaces
it), so it could overlap with a transition that was already examined, and the state
stayed nondeterministic.
---
 src/timed_automaton.cc | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/timed_automaton.cc b/src/timed_automaton.cc
index 50afab0..dca2e3b 100644
--- a/src/timed_automaton.cc
+++ b/src/timed_automaton.cc
@@ -246,7 +246,10 @@ namespace learnta {
             }
               it2->guard = unionHull(it2->guard, it3->guard);
 #endif
-            it3 = transitions.erase(it3);
+            transitions.erase(it3);
+            // The merged guard can overlap with the transitions we already examined. So, we restart.
+            it2 = transitions.begin();
+            it3 = std::next(it2);
           } else {
             ++it3;
           }
@@ -280,12 +283,18 @@ namespace learnta {
             } else if (!allPrecise2 && allPrecise3) {
               // We use it3 if it precisely captures the guard
               *it2 = *it3;
-              it3 = transitions.erase(it3);
+              transitions.erase(it3);
+              // The guard we use can overlap with the transitions we already examined. So, we restart.
+              it2 = transitions.begin();
+              it3 = std::next(it2);
               continue;
             } else if (allPrecise2 && allPrecise3) {
               // We merge them if both precisely capture the guard
               *it2 = mergeTransitions(*it2, *it3);
-              it3 = transitions.erase(it3);
+              transitions.erase(it3);
+              // The merged guard can overlap with the transitions we already examined. So, we restart.
+              it2 = transitions.begin();
+              it3 = std::next(it2);
               continue;
             }
             bool use3 = false;
@@ -315,7 +324,10 @@ namespace learnta {
               it2->guard = unionHull(it2->guard, it3->guard);
             }
             BOOST_LOG_TRIVIAL(debug) << it2->guard << " " << it2->resetVars << " is generated";
-            it3 = transitions.erase(it3);
+            transitions.erase(it3);
+            // The merged guard can overlap with the transitions we already examined. So, we restart.
+            it2 = transitions.begin();
+            it3 = std::next(it2);
           } else {
             ++it3;
           }
-- 
2.43.0


From f4b583830b98f357dfb7463aca62dfccefb4c188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:43 +0000
Subject: [PATCH 13/15] fix: print assigned constants without rounding

---
 include/timed_automaton.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/timed_automaton.hh b/include/timed_automaton.hh
index ea0011a..0f8a5e8 100644
--- a/include/timed_automaton.hh
+++ b/include/timed_automaton.hh
@@ -2,6 +2,7 @@
 
 #include <array>
 #include <climits>
+#include <limits>
 #include <memory>
 #include <ostream>
 #include <unordered_map>
@@ -676,7 +677,10 @@ namespace std {
     if (newVar.index() == 1) {
       os << "x" << int(std::get<learnta::ClockVariables>(newVar));
     } else {
+      // Print the constant without rounding it
+      const auto precision = os.precision(std::numeric_limits<double>::max_digits10);
       os << std::get<double>(newVar);
+      os.precision(precision);
     }
 
     return os;
-- 
2.43.0


From 1e5660e8e15846ef18c660004f639869659e875b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:34 +0000
Subject: [PATCH 14/15] fix: complete states that have unobservable transitions
 but no transition on a letter

---
 include/timed_automaton.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/timed_automaton.hh b/include/timed_automaton.hh
index 0f8a5e8..b575d4e 100644
--- a/include/timed_automaton.hh
+++ b/include/timed_automaton.hh
@@ -300,10 +300,10 @@ namespace learnta {
             // If the transition is empty, we make a transition to the sink state
             state->next[action].emplace_back();
             state->next.at(action).back().target = this->states.back().get();
-          } else if (state->next.find(action) != state->next.end() && !state->next.at(action).empty()) {
+          } else {
             // Take the union of the guards and complement it to obtain the condition to get stuck
             std::vector<std::vector<Constraint>> disjunctiveGuard = disjunctiveGuardOfUnobservable;
-            disjunctiveGuard.reserve(state->next.at(action).size());
+            disjunctiveGuard.reserve(disjunctiveGuard.size() + state->next[action].size());
             for (const auto &transition: state->next.at(action)) {
               if (transition.guard.empty()) {
                 disjunctiveGuard.clear();
-- 
2.43.0


From a423c44a678a34656124ee22c1d64149ba811295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:16 +0000
Subject: [PATCH 15/15] verification hook: the view follows the types of the
 table

---
 include/observation_table.hh | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/observation_table.hh b/include/observation_table.hh
index 5224635..1ce6577 100644
--- a/include/observation_table.hh
+++ b/include/observation_table.hh
@@ -1223,15 +1223,15 @@ namespace learnta {
 #ifdef LEARNTA_VERIF_HOOKS
     //! @brief Read-only view of the observation table
     struct View {
-      const std::vector<Alphabet> &alphabet;
-      const std::vector<ForwardRegionalElementaryLanguage> &prefixes;
-      const std::vector<BackwardRegionalElementaryLanguage> &suffixes;
-      const std::unordered_set<std::size_t> &pIndices;
-      const std::vector<std::vector<TimedConditionSet>> &table;
-      const std::vector<std::vector<TimedCondition>> &concatenations;
-      const std::unordered_map<std::size_t, std::size_t> &continuousSuccessors;
-      const boost::unordered_map<std::pair<std::size_t, Alphabet>, std::size_t> &discreteSuccessors;
-      const std::unordered_map<std::size_t, std::unordered_map<std::size_t, RenamingRelation>> &closedRelation;
+      const decltype(ObservationTable::alphabet) &alphabet;
+      const decltype(ObservationTable::prefixes) &prefixes;
+      const decltype(ObservationTable::suffixes) &suffixes;
+      const decltype(ObservationTable::pIndices) &pIndices;
+      const decltype(ObservationTable::table) &table;
+      const decltype(ObservationTable::concatenations) &concatenations;
+      const decltype(ObservationTable::continuousSuccessors) &continuousSuccessors;
+      const decltype(ObservationTable::discreteSuccessors) &discreteSuccessors;
+      const decltype(ObservationTable::closedRelation) &closedRelation;
     };
 
     [[nodiscard]] View view() const {
-- 
2.43.0

