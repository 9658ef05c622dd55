From bdce5a3fa32bac4bbccc7ad6e8c05a6ebe52dadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:58 +0000
Subject: [PATCH 01/40] fix: pass the variable to NamesAndIDsTracker::each_bit
 by value

each_bit is a coroutine, and its callers hand it a SimpleIntegerVariableID
that converts to a temporary variant. In a range-for, on compilers without
P2718R0 (GCC 13 and 14), that temporary is gone before the coroutine first
runs, so the lookup read a dead stack slot and could throw 'missing bits'
(for example when proof logging a maximise objective).
---
 gcs/innards/proofs/names_and_ids_tracker.cc | 2 +-
 gcs/innards/proofs/names_and_ids_tracker.hh | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gcs/innards/proofs/names_and_ids_tracker.cc b/gcs/innards/proofs/names_and_ids_tracker.cc
index bfb8ccc..1cc4e07 100644
--- a/gcs/innards/proofs/names_and_ids_tracker.cc
+++ b/gcs/innards/proofs/names_and_ids_tracker.cc
@@ -672,7 +672,7 @@ auto NamesAndIDsTracker::negative_bit_coefficient(const SimpleOrProofOnlyInteger
     return it->second.first;
 }
 
-auto NamesAndIDsTracker::each_bit(const SimpleOrProofOnlyIntegerVariableID & id) -> generator<pair<Integer, XLiteral>>
+auto NamesAndIDsTracker::each_bit(SimpleOrProofOnlyIntegerVariableID id) -> generator<pair<Integer, XLiteral>>
 {
     auto it = _imp->integer_variable_bits_to_size_and_proof_vars.find(id);
     if (it == _imp->integer_variable_bits_to_size_and_proof_vars.end())
diff --git a/gcs/innards/proofs/names_and_ids_tracker.hh b/gcs/innards/proofs/names_and_ids_tracker.hh
index 905f8ed..8b2b30c 100644
--- a/gcs/innards/proofs/names_and_ids_tracker.hh
+++ b/gcs/innards/proofs/names_and_ids_tracker.hh
@@ -415,7 +415,7 @@ namespace gcs::innards
          * Call the supplied function for each bit making up the given variable, specifying
          * its raw PB literal and coefficient.
          */
-        auto each_bit(const SimpleOrProofOnlyIntegerVariableID &) -> std::generator<std::pair<Integer, XLiteral>>;
+        auto each_bit(SimpleOrProofOnlyIntegerVariableID) -> std::generator<std::pair<Integer, XLiteral>>;
 
         /**
          * Get the name and coefficient for the bit position in the representation of the given var.
-- 
2.43.0


From f1cad576c788cac145d292f5a4336554bfd1b31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:36 +0000
Subject: [PATCH 02/40] fix: detect a non-zero constant in an empty linear
 equality

propagate_linear() only checked 0 <= value when every term had folded away,
so a fused constraint's ungated equality stage over constants (for example
Power with exponent zero and a constant result below one) was never enforced.
---
 gcs/constraints/linear/propagate.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcs/constraints/linear/propagate.cc b/gcs/constraints/linear/propagate.cc
index 18ecd7a..1a68f2a 100644
--- a/gcs/constraints/linear/propagate.cc
+++ b/gcs/constraints/linear/propagate.cc
@@ -211,7 +211,7 @@ auto gcs::innards::propagate_linear(const auto & coeff_vars, Integer value, cons
     // need to check the empty sum case somewhere, because we only get a contradiction
     // by inferring a specific variable has to take a value that it can't
     if (coeff_vars.terms.empty()) {
-        if (! (0_i <= value)) {
+        if (! (0_i <= value) || (equality && 0_i != value)) {
             inference.contradiction(
                 logger, JustifyUsingRUP{hint}, linear_bounds_reason(inference.want_reasons(), coeff_vars, bounds, nullopt, false, add_to_reason));
         }
-- 
2.43.0


From 5efb8cfafe57efdc0abdb7a8dc052036eea218e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:53 +0000
Subject: [PATCH 03/40] fix: do not disable AllEqual before its variables have
 met

Tightening a variable to the common bounds can snap past a hole and fix it to
a value the other variables were not tightened to, after which the propagator
disabled itself and unequal assignments were reported as solutions.
---
 gcs/constraints/all_equal/all_equal.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gcs/constraints/all_equal/all_equal.cc b/gcs/constraints/all_equal/all_equal.cc
index 23fb22a..b5bd492 100644
--- a/gcs/constraints/all_equal/all_equal.cc
+++ b/gcs/constraints/all_equal/all_equal.cc
@@ -133,10 +133,11 @@ auto AllEqual::install_propagators(Propagators & propagators) -> void
                 }
             }
 
-            // Entailed once any var is single-valued: the chain equalities will
-            // have propagated that value to every other var (or contradicted),
-            // so further calls have nothing to do.
-            if (state.has_single_value(vars[0]))
+            // Entailed once the common bounds meet, since every var has been
+            // tightened to them. A var being single-valued is not enough: a bound
+            // can snap past a hole, in which case lo or hi has moved since the
+            // other vars were tightened to it.
+            if (lo == hi)
                 return PropagatorState::DisableUntilBacktrack;
 
             return PropagatorState::Enable;
-- 
2.43.0


From a22a761bd2d262cec7dc68de80902df7a3c28cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:40 +0000
Subject: [PATCH 04/40] fix: include initially fixed variables in
 value-consistent AllDifferent

A variable that started out single-valued, or a constant, never entered the
unassigned list that the value-consistency pass works from, so its value was
neither removed from the other variables nor checked against them.
---
 gcs/constraints/all_different/all_different.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gcs/constraints/all_different/all_different.cc b/gcs/constraints/all_different/all_different.cc
index 66f53b3..fc13081 100644
--- a/gcs/constraints/all_different/all_different.cc
+++ b/gcs/constraints/all_different/all_different.cc
@@ -116,16 +116,17 @@ auto AllDifferent::prepare(Propagators &, State & initial_state, ProofModel * co
         _gac_staged = _sanitised_vars.size() * _compressed_vals.size() >= min_var_val_pairs_for_staged_gac;
     }
 
-    // The value-consistency pass needs the not-yet-assigned variables as
-    // backtrackable state: VC runs it as its whole propagator, GAC as the
+    // The value-consistency pass needs the variables it has not yet seen
+    // assigned as backtrackable state, which initially is all of them (one that
+    // starts out fixed, or is a constant, still has to have its value pushed
+    // through the clique once): VC runs it as its whole propagator, GAC as the
     // cheap first stage of its staged propagator when the constraint is big
     // enough for staging to pay. Skipped otherwise: an unused constraint
     // state would still be saved and restored at every search node.
     if (holds_alternative<consistency::VC>(_level) || _gac_staged) {
         NonGacAllDifferentUnassigned unassigned{};
         for (auto & var : _sanitised_vars)
-            if (! initial_state.has_single_value(var))
-                unassigned.push_back(var);
+            unassigned.push_back(var);
         _unassigned_handle = initial_state.add_constraint_state(unassigned);
     }
 
-- 
2.43.0


From 3f9adad6668b986f1fa42bfd6e625fd24bf41e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:55 +0000
Subject: [PATCH 05/40] fix: Among where how_many or the array share an
 underlying variable

The matching partition was computed before inferring on how_many and not
recomputed when that inference changed the array, and the final step skipped
variables according to their current domains rather than the partition, so
wrong assignments were accepted when argument slots shared a variable.
---
 gcs/constraints/among/among.cc | 119 +++++++++++++++------------------
 1 file changed, 54 insertions(+), 65 deletions(-)

diff --git a/gcs/constraints/among/among.cc b/gcs/constraints/among/among.cc
index 05eb298..b59e37d 100644
--- a/gcs/constraints/among/among.cc
+++ b/gcs/constraints/among/among.cc
@@ -182,6 +182,12 @@ auto Among::install_propagators(Propagators & propagators) -> void
             inference.infer(
                 logger, how_many < less_than_this_many, JustifyExplicitly{at_most_justify, ThenRUP::Yes, hints::Among{owner}}, vars_reason);
 
+            // if how_many shares an underlying variable with the array, having just
+            // changed it means the partition above could be out of date. return without
+            // claiming idempotence, so our own change to how_many requeues us.
+            if (inference.made_progress_since_last_check())
+                return PropagatorState::Enable;
+
             // potentially now we know that any undecided variables must actually be either
             // matching or not matching.
             auto [at_least_how_many, at_most_how_many] = state.bounds(how_many);
@@ -200,37 +206,30 @@ auto Among::install_propagators(Propagators & propagators) -> void
                 }
 
                 // anything that might match actually mustn't match
-                for (const auto & var : vars) {
-                    bool all_match = true;
-                    for (const auto & val : state.each_value_immutable(var))
-                        if (! contains(values_of_interest, val))
-                            all_match = false;
-
-                    if (! all_match) {
-                        vector<Literal> inferences;
-                        for (const auto & val : values_of_interest)
-                            inferences.push_back(var != val);
+                for (const auto & var : can_be_either_vars) {
+                    vector<Literal> inferences;
+                    for (const auto & val : values_of_interest)
+                        inferences.push_back(var != val);
 
-                        auto emit = [&](const ReasonLiterals &) -> void {
-                            // We need to bound the sum from BELOW: must_match vars each
-                            // contribute at least one to the Among sum, so combining the
-                            // (sum <= how_many) half with at-least-one constraints for
-                            // every must_match var derives that any extra contribution
-                            // from a non-must-match variable conflicts with the fixed
-                            // how_many = must_match_count value.
-                            if (sum_line.first && ! empty(must_match_vars)) {
-                                PolBuilder b;
-                                b.add(*sum_line.first);
-                                for (const auto & m : must_match_vars) {
-                                    if (holds_alternative<ConstantIntegerVariableID>(m))
-                                        continue;
-                                    b.add(logger->names_and_ids_tracker().need_constraint_saying_variable_takes_at_least_one_value(m));
-                                }
-                                b.emit(*logger, ProofLevel::Temporary);
+                    auto emit = [&](const ReasonLiterals &) -> void {
+                        // We need to bound the sum from BELOW: must_match vars each
+                        // contribute at least one to the Among sum, so combining the
+                        // (sum <= how_many) half with at-least-one constraints for
+                        // every must_match var derives that any extra contribution
+                        // from a non-must-match variable conflicts with the fixed
+                        // how_many = must_match_count value.
+                        if (sum_line.first && ! empty(must_match_vars)) {
+                            PolBuilder b;
+                            b.add(*sum_line.first);
+                            for (const auto & m : must_match_vars) {
+                                if (holds_alternative<ConstantIntegerVariableID>(m))
+                                    continue;
+                                b.add(logger->names_and_ids_tracker().need_constraint_saying_variable_takes_at_least_one_value(m));
                             }
-                        };
-                        inference.infer_all(logger, inferences, JustifyExplicitly{emit, ThenRUP::Yes, hints::Among{owner}}, vars_and_bounds_reason);
-                    }
+                            b.emit(*logger, ProofLevel::Temporary);
+                        }
+                    };
+                    inference.infer_all(logger, inferences, JustifyExplicitly{emit, ThenRUP::Yes, hints::Among{owner}}, vars_and_bounds_reason);
                 }
 
                 // now every variable is set in a way that either must
@@ -249,43 +248,33 @@ auto Among::install_propagators(Propagators & propagators) -> void
 
                 if (can_be_either_count > 0_i) {
                     // each that may or may not match must in fact match
-                    for (const auto & var : vars) {
-                        bool might_match = false;
-                        for (const auto & val : values_of_interest) {
-                            if (state.in_domain(var, val)) {
-                                might_match = true;
-                                break;
-                            }
-                        }
-
-                        if (might_match)
-                            for (const auto & val : state.each_value_mutable(var))
-                                if (! contains(values_of_interest, val)) {
-                                    auto emit = [&](const ReasonLiterals &) {
-                                        // need to point out that if var == val then var != voi for each voi
-                                        for (const auto & voi : values_of_interest)
-                                            logger->emit(
-                                                RUPProofRule{}, WPBSum{} + 1_i * (var != val) + 1_i * (var != voi) >= 1_i, ProofLevel::Temporary);
+                    for (const auto & var : can_be_either_vars)
+                        for (const auto & val : state.each_value_mutable(var))
+                            if (! contains(values_of_interest, val)) {
+                                auto emit = [&](const ReasonLiterals &) {
+                                    // need to point out that if var == val then var != voi for each voi
+                                    for (const auto & voi : values_of_interest)
+                                        logger->emit(
+                                            RUPProofRule{}, WPBSum{} + 1_i * (var != val) + 1_i * (var != voi) >= 1_i, ProofLevel::Temporary);
 
-                                        // now every other variable that contributes to the sum is
-                                        // capped at one — must_match vars (whose AM1 lines bound their
-                                        // contribution to the at-most-must_match_count tally) AND every
-                                        // other can_be_either var.
-                                        if (sum_line.second && values_of_interest.size() > 1) {
-                                            PolBuilder b;
-                                            b.add(*sum_line.second);
-                                            for (const auto & m : must_match_vars)
-                                                b.add(am1_lines->at(m));
-                                            for (const auto & other_var : can_be_either_vars)
-                                                if (var != other_var)
-                                                    b.add(am1_lines->at(other_var));
-                                            b.emit(*logger, ProofLevel::Temporary);
-                                        }
-                                    };
-                                    inference.infer(
-                                        logger, var != val, JustifyExplicitly{emit, ThenRUP::Yes, hints::Among{owner}}, vars_and_bounds_reason);
-                                }
-                    }
+                                    // now every other variable that contributes to the sum is
+                                    // capped at one — must_match vars (whose AM1 lines bound their
+                                    // contribution to the at-most-must_match_count tally) AND every
+                                    // other can_be_either var.
+                                    if (sum_line.second && values_of_interest.size() > 1) {
+                                        PolBuilder b;
+                                        b.add(*sum_line.second);
+                                        for (const auto & m : must_match_vars)
+                                            b.add(am1_lines->at(m));
+                                        for (const auto & other_var : can_be_either_vars)
+                                            if (var != other_var)
+                                                b.add(am1_lines->at(other_var));
+                                        b.emit(*logger, ProofLevel::Temporary);
+                                    }
+                                };
+                                inference.infer(
+                                    logger, var != val, JustifyExplicitly{emit, ThenRUP::Yes, hints::Among{owner}}, vars_and_bounds_reason);
+                            }
 
                     // now every variable is set in a way that either must
                     // match or must not match, and the count is fixed, so
-- 
2.43.0


From 8fabbc92b4c813db408243b2b5c173379670b65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:20 +0000
Subject: [PATCH 06/40] fix: use the value range of x, not its index range, in
 Inverse

x takes values indexing into y, so the all-different over x and its
at-most-one lines range over values from y_start. Using x_start removed every
solution when the two arrays started at different indices.
---
 gcs/constraints/inverse/inverse.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gcs/constraints/inverse/inverse.cc b/gcs/constraints/inverse/inverse.cc
index b732c7c..6c1f18b 100644
--- a/gcs/constraints/inverse/inverse.cc
+++ b/gcs/constraints/inverse/inverse.cc
@@ -115,7 +115,7 @@ auto Inverse::install_propagators(Propagators & propagators) -> void
     triggers.on_change.insert(triggers.on_change.end(), _y.begin(), _y.end());
 
     if (_x_value_am1s) {
-        auto build_am1s = [](const vector<IntegerVariableID> & x, Integer x_start, const State &, auto &, ProofLogger * const logger,
+        auto build_am1s = [](const vector<IntegerVariableID> & x, Integer y_start, const State &, auto &, ProofLogger * const logger,
                               const auto & map) {
             // recover_am1 requires at least two atoms; with one variable
             // the at-most-one is trivially true and the map is never read
@@ -123,7 +123,7 @@ auto Inverse::install_propagators(Propagators & propagators) -> void
             // single variable).
             if (x.size() < 2)
                 return;
-            for (Integer v = x_start; v < x_start + Integer(x.size()); ++v) {
+            for (Integer v = y_start; v < y_start + Integer(x.size()); ++v) {
                 // make an am1 for x[i] = v
                 vector<IntegerVariableCondition> xieqvs;
                 for (const auto & var : x)
@@ -136,11 +136,11 @@ auto Inverse::install_propagators(Propagators & propagators) -> void
             }
         };
 
-        propagators.install_initialiser([x = _x, x_start = _x_start, x_value_am1s = _x_value_am1s, build_am1s = build_am1s](
+        propagators.install_initialiser([x = _x, y_start = _y_start, x_value_am1s = _x_value_am1s, build_am1s = build_am1s](
                                             const State & state, auto & inference, ProofLogger * const logger) -> void {
             if (! logger || logger->get_assertion_level() > AssertionLevel::Off)
                 return;
-            build_am1s(x, x_start, state, inference, logger, x_value_am1s);
+            build_am1s(x, y_start, state, inference, logger, x_value_am1s);
         });
     }
     else {
@@ -150,7 +150,7 @@ auto Inverse::install_propagators(Propagators & propagators) -> void
 
     vector<Integer> x_values;
     for (const auto & [i, _] : enumerate(_x))
-        x_values.push_back(Integer(i) + _x_start);
+        x_values.push_back(Integer(i) + _y_start);
 
     propagators.install(
         constraint_id(),
-- 
2.43.0


From 5198a7312ecfc1a640e47a5d17cd6bd1102a43ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:40 +0000
Subject: [PATCH 07/40] fix: sort GlobalCardinality cover values for GAC too

---
 .../global_cardinality/global_cardinality.cc           |  7 +++----
 .../global_cardinality/global_cardinality.hh           | 10 +++++-----
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/gcs/constraints/global_cardinality/global_cardinality.cc b/gcs/constraints/global_cardinality/global_cardinality.cc
index 09e020b..2d030fb 100644
--- a/gcs/constraints/global_cardinality/global_cardinality.cc
+++ b/gcs/constraints/global_cardinality/global_cardinality.cc
@@ -70,8 +70,7 @@ auto GlobalCardinality::clone() const -> unique_ptr<Constraint>
 {
     auto cloned = make_unique<GlobalCardinality>(_vars, _values, _counts);
     cloned->with_consistency(_level).with_closed(_closed);
-    if (holds_alternative<consistency::BC>(_level))
-        cloned->sort_cover_values();
+    cloned->sort_cover_values();
     return cloned;
 }
 
@@ -121,8 +120,8 @@ auto GlobalCardinality::install_propagators(Propagators & propagators) -> void
     // the disjunction. This is also what lets the GAC propagator hand it the
     // no-cover-value-left case rather than raising an unjustified contradiction.
     if (_closed) {
-        // sort_cover_values() only runs on the BC path, so sort a copy rather
-        // than assume _values is ordered.
+        // sort_cover_values() only runs in clone(), so sort a copy rather than
+        // assume _values is ordered.
         auto sorted_cover = _values;
         sort(sorted_cover);
 
diff --git a/gcs/constraints/global_cardinality/global_cardinality.hh b/gcs/constraints/global_cardinality/global_cardinality.hh
index 0a3d34c..2b83c83 100644
--- a/gcs/constraints/global_cardinality/global_cardinality.hh
+++ b/gcs/constraints/global_cardinality/global_cardinality.hh
@@ -55,11 +55,11 @@ namespace gcs
         virtual auto install_propagators(innards::Propagators &) -> void override;
 
         // The bounds propagator's Hall-interval reasoning ranges over contiguous
-        // runs of the cover values, so under consistency::BC they (and their count
-        // variables) must be in ascending order. Done in clone() rather than a
-        // constructor because the level is chosen post-construction, and both the
-        // stored constraint (which s_expr reads) and its install-time clone (which
-        // define_proof_model reads) must agree.
+        // runs of the cover values, and the GAC propagator looks cover values up
+        // by binary search, so they (and their count variables) must be in
+        // ascending order. Done in clone(), so that the stored constraint (which
+        // s_expr reads) and its install-time clone (which define_proof_model
+        // reads) agree.
         auto sort_cover_values() -> void;
 
     public:
-- 
2.43.0


From af73e03a8696d3024ebb8af96591459fdb4dfeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:38 +0000
Subject: [PATCH 08/40] fix: reject the empty sequence in an MDD whose root is
 not accepting

---
 gcs/constraints/mdd/mdd.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/gcs/constraints/mdd/mdd.cc b/gcs/constraints/mdd/mdd.cc
index b2a8e58..d23c90f 100644
--- a/gcs/constraints/mdd/mdd.cc
+++ b/gcs/constraints/mdd/mdd.cc
@@ -17,6 +17,7 @@
 #include <fmt/core.h>
 #endif
 
+#include <algorithm>
 #include <any>
 #include <memory>
 #include <set>
@@ -42,6 +43,7 @@ using std::unique_ptr;
 using std::unordered_map;
 using std::unordered_set;
 using std::vector;
+using std::ranges::find;
 using std::ranges::sort;
 
 #if defined(__cpp_lib_print) && defined(__cpp_lib_format)
@@ -239,6 +241,15 @@ namespace
         const vector<vector<ProofFlag>> & state_at_pos_flags, const ConstraintStateHandle & graph_handle, const ConstraintStateHandle & cache_handle,
         const State & state, auto & inference, ProofLogger * const logger, const ConstraintID & owner) -> void
     {
+        // Degenerate empty sequence, as in Regular: with no variables there is
+        // nothing to propagate over, but the empty path ends at the root, so it
+        // is accepted only if the root is itself an accepting terminal.
+        if (vars.empty()) {
+            if (find(accepting_terminals, 0L) == accepting_terminals.end())
+                inference.contradiction(logger, JustifyUsingRUP{hints::MDD{owner}}, NoReason{});
+            return;
+        }
+
         auto & graph = any_cast<MDDGraph &>(state.get_constraint_state(graph_handle));
         auto & cache = any_cast<DeadCache &>(state.get_constraint_state(cache_handle));
         auto reason = eager_reason(generic_reason(vars), state);
-- 
2.43.0


From 52b75c1e30913eb91447db6d8cf27247c0ed687f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:54 +0000
Subject: [PATCH 09/40] fix: fire refined watches even when a propagator
 claimed idempotence in the round

---
 gcs/innards/propagators.cc | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/gcs/innards/propagators.cc b/gcs/innards/propagators.cc
index ad66471..d2c38f3 100644
--- a/gcs/innards/propagators.cc
+++ b/gcs/innards/propagators.cc
@@ -622,19 +622,14 @@ auto Propagators::propagate(const Literals & guesses, State & state, ProofLogger
         }
     };
 
-    auto requeue = [&](const SimpleIntegerVariableID & v, const Inference inf) {
-        if (v.index < _imp->iv_triggers.size())
-            for (auto & [p, mask] : _imp->iv_triggers[v.index].ids_and_masks)
-                if (mask & (1 << to_underlying(inf)))
-                    enqueue_if_idle(p);
-
-        // Refined watches: fire any whose literal is now entailed, delivering the
-        // payload to its owner and consuming the watch. A watch is only tested when
-        // the current inference granularity is in its trigger_mask -- e.g. an `x==v`
-        // watch is skipped on a mere bound move, since x==v can only become true when
-        // x is instantiated. This gates the expensive test_literal; the firing of a
-        // watch outside its mask would be a no-op anyway (the literal cannot have
-        // changed status), so this is semantics-preserving.
+    // Refined watches: fire any whose literal is now entailed, delivering the
+    // payload to its owner and consuming the watch. A watch is only tested when
+    // the current inference granularity is in its trigger_mask -- e.g. an `x==v`
+    // watch is skipped on a mere bound move, since x==v can only become true when
+    // x is instantiated. This gates the expensive test_literal; the firing of a
+    // watch outside its mask would be a no-op anyway (the literal cannot have
+    // changed status), so this is semantics-preserving.
+    auto fire_refined_watches = [&](const SimpleIntegerVariableID & v, const Inference inf) {
         if (v.index < _imp->refined_watches_by_var.size()) {
             const auto inf_bit = 1u << to_underlying(inf);
             auto & watches = _imp->refined_watches_by_var[v.index];
@@ -655,19 +650,30 @@ auto Propagators::propagate(const Literals & guesses, State & state, ProofLogger
         }
     };
 
+    auto requeue = [&](const SimpleIntegerVariableID & v, const Inference inf) {
+        if (v.index < _imp->iv_triggers.size())
+            for (auto & [p, mask] : _imp->iv_triggers[v.index].ids_and_masks)
+                if (mask & (1 << to_underlying(inf)))
+                    enqueue_if_idle(p);
+
+        fire_refined_watches(v, inf);
+    };
+
     // A run that claimed idempotence must not be re-woken by any inference it
     // had already seen (everything recorded up to its run's end, its own
     // inferences included): the round-boundary replay uses this variant, with
     // claim_protected flagging the claimants whose runs ended after the
     // inference being replayed, when (and only when) the round produced
     // claims -- the plain requeue above keeps the claim-free hot path free of
-    // the extra load. Refined watches are consumed on their first fire in the
-    // requeue above, so this coarse-only replay does not re-fire them.
+    // the extra load. A claim never withholds a refined watch: a watch is consumed
+    // when it fires, and its owner only acts upon the payloads it is given.
     auto requeue_unless_already_seen = [&](const SimpleIntegerVariableID & v, const Inference inf) {
         if (v.index < _imp->iv_triggers.size())
             for (auto & [p, mask] : _imp->iv_triggers[v.index].ids_and_masks)
                 if ((mask & (1 << to_underlying(inf))) && ! _imp->claim_protected[p])
                     enqueue_if_idle(p);
+
+        fire_refined_watches(v, inf);
     };
 
     // A contradiction or an abort ends a round without replaying it, so a
-- 
2.43.0


From b034efacea0c9a8294b378b9cc31f8b0cdc18b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:00 +0000
Subject: [PATCH 10/40] fix: define the declared with_largest_value variable
 orders

---
 gcs/search_heuristics.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/gcs/search_heuristics.cc b/gcs/search_heuristics.cc
index bcf9c0e..211167c 100644
--- a/gcs/search_heuristics.cc
+++ b/gcs/search_heuristics.cc
@@ -284,6 +284,19 @@ auto gcs::variable_order::with_smallest_value(vector<IntegerVariableID> vars) ->
         });
 }
 
+auto gcs::variable_order::with_largest_value(const Problem & problem) -> BranchVariableHeuristic
+{
+    return with_largest_value(problem.all_normal_variables());
+}
+
+auto gcs::variable_order::with_largest_value(vector<IntegerVariableID> vars) -> BranchVariableHeuristic
+{
+    return variable_order::in_order_of(
+        vars, [](const CurrentState & state, const innards::Propagators &, const IntegerVariableID & a, const IntegerVariableID & b) {
+            return state.upper_bound(a) > state.upper_bound(b);
+        });
+}
+
 namespace
 {
     auto random_value_generator(shared_ptr<mt19937> rand) -> BranchValueGenerator
-- 
2.43.0


From df17af7d6101a3886642bbe142c796c70eb2306b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:33 +0000
Subject: [PATCH 11/40] fix: do not ask a wiped-out domain for its single value
 in RefinedWeighting

---
 gcs/variable_weighting.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gcs/variable_weighting.cc b/gcs/variable_weighting.cc
index d60fee1..2aec6a8 100644
--- a/gcs/variable_weighting.cc
+++ b/gcs/variable_weighting.cc
@@ -213,16 +213,20 @@ RefinedWeighting::RefinedWeighting(const Propagators & propagators, const State
 auto RefinedWeighting::note_conflict(
     int constraint_index, const vector<SimpleIntegerVariableID> & scope, const optional<Reason> &, const State & state) -> void
 {
+    // A conflict can leave one of these domains wiped out, so this must not ask
+    // whether the variable has a single value, which needs a non-empty domain.
+    auto is_future = [&](const SimpleIntegerVariableID & v) { return state.domain_size(v) != Integer{1}; };
+
     long long futures = 0;
     for (const auto & v : scope)
-        if (! state.has_single_value(v))
+        if (is_future(v))
             ++futures;
     if (futures == 0)
         return;
 
     auto & weights = _local_weights[constraint_index];
     for (const auto & x : scope) {
-        if (state.has_single_value(x))
+        if (! is_future(x))
             continue;
         double increment = 0.0;
         switch (_variant) {
-- 
2.43.0


From 90f68c4039946c28ef66e1556a365eb36f473ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:11 +0000
Subject: [PATCH 12/40] fix: find split points and smallest-first values in
 ascending order for negated views

---
 gcs/search_heuristics.cc | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/gcs/search_heuristics.cc b/gcs/search_heuristics.cc
index 211167c..13a280f 100644
--- a/gcs/search_heuristics.cc
+++ b/gcs/search_heuristics.cc
@@ -41,6 +41,19 @@ namespace
 
 using namespace gcs;
 
+namespace
+{
+    // The largest value in the lower half of a domain. CurrentState::each_value()
+    // follows the order of the underlying variable, which is descending for a
+    // negated view, so this must not be used to find the split point.
+    auto split_point(const CurrentState & s, const IntegerVariableID & var) -> Integer
+    {
+        auto values = s.copy_of_values(var);
+        auto mid = s.domain_size(var) / 2_i;
+        return *(values.each() | std::ranges::views::drop((mid - 1_i).as_index())).begin();
+    }
+}
+
 auto gcs::branch_with(BranchVariableHeuristic var, BranchValueGenerator val) -> BranchHeuristic
 {
     return [var = move(var), val = move(val)](const Problem & problem, innards::State & state, innards::Propagators & propagators) -> BranchCallback {
@@ -420,7 +433,8 @@ auto gcs::value_order::smallest_first() -> BranchValueGenerator
 {
     return [](const CurrentState & s, const innards::Propagators &, const IntegerVariableID & var) -> generator<IntegerVariableCondition> {
         return [](const CurrentState & s, IntegerVariableID var) -> generator<IntegerVariableCondition> {
-            for (auto v : s.each_value(var))
+            auto values = s.copy_of_values(var);
+            for (auto v : values.each())
                 co_yield var == v;
         }(s, var);
     };
@@ -430,8 +444,7 @@ auto gcs::value_order::split_smallest_first() -> BranchValueGenerator
 {
     return [](const CurrentState & s, const innards::Propagators &, const IntegerVariableID & var) -> generator<IntegerVariableCondition> {
         return [](const CurrentState & s, IntegerVariableID var) -> generator<IntegerVariableCondition> {
-            auto mid = s.domain_size(var) / 2_i;
-            auto v = *(s.each_value(var) | std::ranges::views::drop((mid - 1_i).as_index())).begin();
+            auto v = split_point(s, var);
             co_yield var <= v;
             co_yield var > v;
         }(s, var);
@@ -442,8 +455,7 @@ auto gcs::value_order::split_largest_first() -> BranchValueGenerator
 {
     return [](const CurrentState & s, const innards::Propagators &, const IntegerVariableID & var) -> generator<IntegerVariableCondition> {
         return [](const CurrentState & s, IntegerVariableID var) -> generator<IntegerVariableCondition> {
-            auto mid = s.domain_size(var) / 2_i;
-            auto v = *(s.each_value(var) | std::ranges::views::drop((mid - 1_i).as_index())).begin();
+            auto v = split_point(s, var);
             co_yield var > v;
             co_yield var <= v;
         }(s, var);
@@ -457,8 +469,7 @@ namespace
         return [rand = move(rand)](
                    const CurrentState & s, const innards::Propagators &, const IntegerVariableID & var) -> generator<IntegerVariableCondition> {
             return [](shared_ptr<mt19937> rand, const CurrentState & s, IntegerVariableID var) -> generator<IntegerVariableCondition> {
-                auto mid = s.domain_size(var) / 2_i;
-                auto v = *(s.each_value(var) | std::ranges::views::drop((mid - 1_i).as_index())).begin();
+                auto v = split_point(s, var);
                 if (uniform_int_distribution(0, 1)(*rand) == 0) {
                     co_yield var <= v;
                     co_yield var > v;
-- 
2.43.0


From 5eb6df65b3abdadfea0af4b3f846d25ff9db4929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:26 +0000
Subject: [PATCH 13/40] fix: leave the left operand alone when += or -=
 overflows

---
 gcs/integer.hh | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gcs/integer.hh b/gcs/integer.hh
index bd9d5a3..760fff6 100644
--- a/gcs/integer.hh
+++ b/gcs/integer.hh
@@ -128,8 +128,10 @@ namespace gcs
 
     constexpr inline auto operator+=(Integer & a, Integer b) -> Integer &
     {
-        if (innards::add_overflows(a.raw_value, b.raw_value, &a.raw_value))
+        long long r;
+        if (innards::add_overflows(a.raw_value, b.raw_value, &r))
             innards::throw_integer_overflow("+=", a.raw_value, b.raw_value);
+        a.raw_value = r;
         return a;
     }
 
@@ -143,8 +145,10 @@ namespace gcs
 
     constexpr inline auto operator-=(Integer & a, Integer b) -> Integer &
     {
-        if (innards::sub_overflows(a.raw_value, b.raw_value, &a.raw_value))
+        long long r;
+        if (innards::sub_overflows(a.raw_value, b.raw_value, &r))
             innards::throw_integer_overflow("-=", a.raw_value, b.raw_value);
+        a.raw_value = r;
         return a;
     }
 
-- 
2.43.0


From 02aea514486c61784fcd533d87c6494a80aef622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:26 +0000
Subject: [PATCH 14/40] fix: keep IntervalSet normalised when upper() is
 inserted at the end again

---
 gcs/interval_set.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gcs/interval_set.hh b/gcs/interval_set.hh
index 42e32df..68045f2 100644
--- a/gcs/interval_set.hh
+++ b/gcs/interval_set.hh
@@ -352,6 +352,8 @@ namespace gcs
         {
             if (intervals.empty())
                 intervals.emplace_back(value, value);
+            else if (intervals.back().second == value)
+                return;
             else if (intervals.back().second == value - Int_(1))
                 intervals.back().second++;
             else
@@ -372,7 +374,7 @@ namespace gcs
         {
             if (intervals.empty())
                 intervals.emplace_back(lower, upper);
-            else if (intervals.back().second == lower - Int_(1))
+            else if (intervals.back().second == lower || intervals.back().second == lower - Int_(1))
                 intervals.back().second = upper;
             else
                 intervals.emplace_back(lower, upper);
-- 
2.43.0


From 5ca9856f87f9dcd7cf89881f65bbf4f1ce96c999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:26 +0000
Subject: [PATCH 15/40] fix: do not overflow in isqrt of the largest Integer

---
 gcs/constraints/innards/product_bounds.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcs/constraints/innards/product_bounds.hh b/gcs/constraints/innards/product_bounds.hh
index 04108bd..c0f91c5 100644
--- a/gcs/constraints/innards/product_bounds.hh
+++ b/gcs/constraints/innards/product_bounds.hh
@@ -42,7 +42,7 @@ namespace gcs::innards
         if (n < 2_i)
             return n;
         // Newton's method on integers: converges for any positive start >= isqrt(n).
-        auto x = n, y = (x + 1_i) / 2_i;
+        auto x = n, y = x - x / 2_i;
         while (y < x) {
             x = y;
             y = (x + n / x) / 2_i;
-- 
2.43.0


From 51a9d978e2aade70ecb18e18a55ca7ca372b913b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:26 +0000
Subject: [PATCH 16/40] fix: reject integers too large to represent in regular
 expressions

---
 gcs/constraints/regular/regex.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gcs/constraints/regular/regex.cc b/gcs/constraints/regular/regex.cc
index 75d057f..1adb79b 100644
--- a/gcs/constraints/regular/regex.cc
+++ b/gcs/constraints/regular/regex.cc
@@ -13,6 +13,8 @@
 
 using gcs::Integer;
 using gcs::InvalidProblemDefinitionException;
+using gcs::innards::add_overflows;
+using gcs::innards::mul_overflows;
 
 using std::make_unique;
 using std::map;
@@ -72,7 +74,8 @@ namespace
             if (c >= '0' && c <= '9') {
                 long long value = 0;
                 while (i < s.size() && s[i] >= '0' && s[i] <= '9') {
-                    value = value * 10 + (s[i] - '0');
+                    if (mul_overflows(value, 10LL, &value) || add_overflows(value, static_cast<long long>(s[i] - '0'), &value))
+                        throw InvalidProblemDefinitionException("Integer too large in regular expression");
                     ++i;
                 }
                 tokens.push_back({Tok::Integer, Integer{value}});
-- 
2.43.0


From 39c0c1bc6c942275f91a7cf431f58c4699dc0dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:55 +0000
Subject: [PATCH 17/40] fix: evaluate explicit justifications and lazy reasons
 before the inference they explain

---
 gcs/innards/inference_tracker.hh | 54 +++++++++++++++++++-------------
 1 file changed, 32 insertions(+), 22 deletions(-)

diff --git a/gcs/innards/inference_tracker.hh b/gcs/innards/inference_tracker.hh
index 1c31e5c..4ca1e45 100644
--- a/gcs/innards/inference_tracker.hh
+++ b/gcs/innards/inference_tracker.hh
@@ -201,6 +201,27 @@ namespace gcs::innards
             }
         }
 
+        // Infer lit (by calling do_infer) with a JustifyExplicitly. If there is a
+        // proof to write, the steps and a lazy reason are evaluated *before* the
+        // domain changes, as infer_all does: they explain the inference in terms of
+        // the domains it was made from, and an emit callable which reads a variable
+        // that is also the one being inferred upon -- the same variable used twice in
+        // a constraint's scope, or two views of it -- would otherwise see the
+        // conclusion, or an emptied domain.
+        template <typename Infer_, typename Emit_, typename Hint_>
+        auto infer_and_track_explicit(ProofLogger * const logger, const Infer_ & do_infer, const Literal & lit,
+            const JustifyExplicitly<Emit_, Hint_> & why, const Reason & reason, const std::optional<AssertionAnnotation> & fallback,
+            bool do_throw = true) -> void
+        {
+            if constexpr (Actual_::materialises_reasons) {
+                if (logger && _state.test_literal(lit) != LiteralIs::DefinitelyTrue)
+                    infer_explicitly(*logger, lit, why.emit, why.then_rup, materialise(reason, _state), why.hint, fallback);
+                track_explicit(nullptr, do_infer(), lit, why, SnapshottedReason{.original = &reason}, fallback, do_throw);
+            }
+            else
+                track_explicit(logger, do_infer(), lit, why, snapshot_reason(logger, reason, _state), fallback, do_throw);
+        }
+
     public:
         explicit InferenceTrackerBase(State & s) :
             _state(s), _did_anything_since_last_call_by_propagation_queue(false), _made_progress_since_last_check(false)
@@ -257,8 +278,7 @@ namespace gcs::innards
         auto infer(ProofLogger * const logger, const Literal & lit, const JustifyExplicitly<Emit_, Hint_> & why, const Reason & reason,
             const std::optional<AssertionAnnotation> & fallback = std::nullopt) -> void
         {
-            auto snapshotted = snapshot_reason(logger, reason, _state);
-            track_explicit(logger, _state.infer(lit), lit, why, snapshotted, fallback);
+            infer_and_track_explicit(logger, [&] { return _state.infer(lit); }, lit, why, reason, fallback);
         }
 
         // Visit a variant of justifications and dispatch each alternative to its
@@ -280,8 +300,7 @@ namespace gcs::innards
         auto infer(ProofLogger * const logger, const VariableConditionFrom<VarType_> & lit, const JustifyExplicitly<Emit_, Hint_> & why,
             const Reason & reason, const std::optional<AssertionAnnotation> & fallback = std::nullopt) -> void
         {
-            auto snapshotted = snapshot_reason(logger, reason, _state);
-            track_explicit(logger, _state.infer(lit), lit, why, snapshotted, fallback);
+            infer_and_track_explicit(logger, [&] { return _state.infer(lit); }, lit, why, reason, fallback);
         }
 
         template <typename Emit_, typename Hint_>
@@ -299,16 +318,14 @@ namespace gcs::innards
         auto infer_equal(ProofLogger * const logger, const VarType_ & var, Integer value, const JustifyExplicitly<Emit_, Hint_> & why,
             const Reason & reason, const std::optional<AssertionAnnotation> & fallback = std::nullopt) -> void
         {
-            auto snapshotted = snapshot_reason(logger, reason, _state);
-            track_explicit(logger, _state.infer_equal(var, value), var == value, why, snapshotted, fallback);
+            infer_and_track_explicit(logger, [&] { return _state.infer_equal(var, value); }, var == value, why, reason, fallback);
         }
 
         template <IntegerVariableIDLike VarType_, typename Emit_, typename Hint_>
         auto infer_not_equal(ProofLogger * const logger, const VarType_ & var, Integer value, const JustifyExplicitly<Emit_, Hint_> & why,
             const Reason & reason, const std::optional<AssertionAnnotation> & fallback = std::nullopt) -> void
         {
-            auto snapshotted = snapshot_reason(logger, reason, _state);
-            track_explicit(logger, _state.infer_not_equal(var, value), var != value, why, snapshotted, fallback);
+            infer_and_track_explicit(logger, [&] { return _state.infer_not_equal(var, value); }, var != value, why, reason, fallback);
         }
 
         // A JustifyUsingRUP carrying a typed hint is a RUP inference (no explicit
@@ -393,16 +410,14 @@ namespace gcs::innards
         auto infer_less_than(ProofLogger * const logger, const VarType_ & var, Integer value, const JustifyExplicitly<Emit_, Hint_> & why,
             const Reason & reason, const std::optional<AssertionAnnotation> & fallback = std::nullopt) -> void
         {
-            auto snapshotted = snapshot_reason(logger, reason, _state);
-            track_explicit(logger, _state.infer_less_than(var, value), var < value, why, snapshotted, fallback);
+            infer_and_track_explicit(logger, [&] { return _state.infer_less_than(var, value); }, var < value, why, reason, fallback);
         }
 
         template <IntegerVariableIDLike VarType_, typename Emit_, typename Hint_>
         auto infer_greater_than_or_equal(ProofLogger * const logger, const VarType_ & var, Integer value, const JustifyExplicitly<Emit_, Hint_> & why,
             const Reason & reason, const std::optional<AssertionAnnotation> & fallback = std::nullopt) -> void
         {
-            auto snapshotted = snapshot_reason(logger, reason, _state);
-            track_explicit(logger, _state.infer_greater_than_or_equal(var, value), var >= value, why, snapshotted, fallback);
+            infer_and_track_explicit(logger, [&] { return _state.infer_greater_than_or_equal(var, value); }, var >= value, why, reason, fallback);
         }
 
         // Non-throwing counterparts of the JustifyExplicitly infer_less_than /
@@ -417,8 +432,7 @@ namespace gcs::innards
         {
             if (_contradicted) [[unlikely]]
                 return false;
-            auto snapshotted = snapshot_reason(logger, reason, _state);
-            track_explicit(logger, _state.infer_less_than(var, value), var < value, why, snapshotted, fallback, false);
+            infer_and_track_explicit(logger, [&] { return _state.infer_less_than(var, value); }, var < value, why, reason, fallback, false);
             return ! _contradicted;
         }
 
@@ -429,8 +443,7 @@ namespace gcs::innards
         {
             if (_contradicted) [[unlikely]]
                 return false;
-            auto snapshotted = snapshot_reason(logger, reason, _state);
-            track_explicit(logger, _state.infer_greater_than_or_equal(var, value), var >= value, why, snapshotted, fallback, false);
+            infer_and_track_explicit(logger, [&] { return _state.infer_greater_than_or_equal(var, value); }, var >= value, why, reason, fallback, false);
             return ! _contradicted;
         }
 
@@ -450,8 +463,7 @@ namespace gcs::innards
         {
             if (_contradicted) [[unlikely]]
                 return std::nullopt;
-            auto snapshotted = snapshot_reason(logger, reason, _state);
-            track_explicit(logger, _state.infer_less_than(var, value), var < value, why, snapshotted, fallback, false);
+            infer_and_track_explicit(logger, [&] { return _state.infer_less_than(var, value); }, var < value, why, reason, fallback, false);
             if (_contradicted) [[unlikely]]
                 return std::nullopt;
             return _state.upper_bound(var);
@@ -464,8 +476,7 @@ namespace gcs::innards
         {
             if (_contradicted) [[unlikely]]
                 return std::nullopt;
-            auto snapshotted = snapshot_reason(logger, reason, _state);
-            track_explicit(logger, _state.infer_greater_than_or_equal(var, value), var >= value, why, snapshotted, fallback, false);
+            infer_and_track_explicit(logger, [&] { return _state.infer_greater_than_or_equal(var, value); }, var >= value, why, reason, fallback, false);
             if (_contradicted) [[unlikely]]
                 return std::nullopt;
             return _state.lower_bound(var);
@@ -520,8 +531,7 @@ namespace gcs::innards
         {
             if (lo > hi)
                 return;
-            auto snapshotted = snapshot_reason(logger, reason, _state);
-            track_explicit(logger, _state.infer_not_in_range(var, lo, hi), not_in_range(var, lo, hi), why, snapshotted, fallback);
+            infer_and_track_explicit(logger, [&] { return _state.infer_not_in_range(var, lo, hi); }, not_in_range(var, lo, hi), why, reason, fallback);
         }
 
         [[noreturn]] auto contradiction(ProofLogger * const logger, const Justification & why, const Reason & reason,
-- 
2.43.0


From 580ec09aef8604f4b5c1c94c13b5130ea4c1fe56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:55 +0000
Subject: [PATCH 18/40] fix: Element bound reasons hold for entries on the far
 side of the bound

---
 gcs/constraints/element/element.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/gcs/constraints/element/element.cc b/gcs/constraints/element/element.cc
index 0d7ac26..2c14307 100644
--- a/gcs/constraints/element/element.cc
+++ b/gcs/constraints/element/element.cc
@@ -515,8 +515,17 @@ auto NDimensionalElement<EntryType_, dimensions_>::install_propagators_impl(Prop
                     Reason reason;
                     if (inference.want_reasons()) {
                         ReasonLiterals extra;
-                        for (const auto & var : considered_vars)
-                            extra.push_back(ge ? (var >= relevant_bound) : (var <= relevant_bound));
+                        // An entry that cannot meet result's range at all did not
+                        // contribute to the bound, and may lie on its far side.
+                        for (const auto & var : considered_vars) {
+                            auto [var_lower, var_upper] = state.bounds(var);
+                            if (var_upper < current_bounds.first)
+                                extra.push_back(var < current_bounds.first);
+                            else if (var_lower > current_bounds.second)
+                                extra.push_back(var > current_bounds.second);
+                            else
+                                extra.push_back(ge ? (var >= relevant_bound) : (var <= relevant_bound));
+                        }
                         extra.push_back(result_var >= current_bounds.first);
                         extra.push_back(result_var <= current_bounds.second);
                         reason = with_extra(generic_reason(vector<IntegerVariableID>{index_vars.begin(), index_vars.end()}), std::move(extra));
-- 
2.43.0


From f878982a011ed75179ccab3f1694ce8d97fb7890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:55 +0000
Subject: [PATCH 19/40] fix: emit the empty at-least-one lines of the Bacchus
 regular encoding

---
 gcs/constraints/regular/regular_bacchus.cc | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/gcs/constraints/regular/regular_bacchus.cc b/gcs/constraints/regular/regular_bacchus.cc
index 1715480..0589a42 100644
--- a/gcs/constraints/regular/regular_bacchus.cc
+++ b/gcs/constraints/regular/regular_bacchus.cc
@@ -380,11 +380,12 @@ auto RegularBacchus::install_propagators(Propagators & propagators) -> void
             }
         }
 
+        // Any of these sums may be empty, and the line is needed then too: it says
+        // the state or the value is impossible.
+
         // Outgoing AL1: state[i][q] -> sum_{v: delta(q,v) def} t[i][q][v] >= 1.
         for (size_t i = 0; i < vars.size(); ++i) {
             for (long q = 0; q < ns; ++q) {
-                if (ts[i][q].empty())
-                    continue;
                 WPBSum sum;
                 sum += 1_i * ! flags[i][q];
                 for (const auto & [val, tf] : ts[i][q])
@@ -398,17 +399,13 @@ auto RegularBacchus::install_propagators(Propagators & propagators) -> void
             for (long next_q = 0; next_q < ns; ++next_q) {
                 WPBSum sum;
                 sum += 1_i * ! flags[i + 1][next_q];
-                bool any = false;
                 for (long p = 0; p < ns; ++p) {
                     for (const auto & [val, tf] : ts[i][p]) {
-                        if (find_transition(t[p], val) == next_q) {
+                        if (find_transition(t[p], val) == next_q)
                             sum += 1_i * tf;
-                            any = true;
-                        }
                     }
                 }
-                if (any)
-                    logger->emit_rup_proof_line(move(sum) >= 1_i, ProofLevel::Top);
+                logger->emit_rup_proof_line(move(sum) >= 1_i, ProofLevel::Top);
             }
         }
 
@@ -417,16 +414,12 @@ auto RegularBacchus::install_propagators(Propagators & propagators) -> void
             for (const auto & val : alphabet) {
                 WPBSum sum;
                 sum += 1_i * (vars[i] != val);
-                bool any = false;
                 for (long q = 0; q < ns; ++q) {
                     auto it = ts[i][q].find(val);
-                    if (it != ts[i][q].end()) {
+                    if (it != ts[i][q].end())
                         sum += 1_i * it->second;
-                        any = true;
-                    }
                 }
-                if (any)
-                    logger->emit_rup_proof_line(move(sum) >= 1_i, ProofLevel::Top);
+                logger->emit_rup_proof_line(move(sum) >= 1_i, ProofLevel::Top);
             }
         }
     });
-- 
2.43.0


From 6cfb6701071d191b76542b617388bb9d137dcf82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:55 +0000
Subject: [PATCH 20/40] fix: Cumulative elastic rules stand aside once the
 sweep has pushed a bound

---
 gcs/constraints/cumulative/cumulative.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gcs/constraints/cumulative/cumulative.cc b/gcs/constraints/cumulative/cumulative.cc
index a90bfaa..dcd0fe5 100644
--- a/gcs/constraints/cumulative/cumulative.cc
+++ b/gcs/constraints/cumulative/cumulative.cc
@@ -1575,6 +1575,11 @@ auto gcs::innards::propagate_cumulative(const CumulativeInputs & inputs, const S
             return cap;
         };
 
+        // The elastic rules compare totals over the bounds this sweep started from,
+        // but are certified from the live ones, so they stand aside once a push
+        // above them has landed. That push wakes this propagator again.
+        auto inferences_before_sweep = inference.count_inferences();
+
         for (size_t w = 0; w < window_starts.size(); ++w) {
             if (w > 0 && window_starts[w] == window_starts[w - 1])
                 continue;
@@ -1927,7 +1932,8 @@ auto gcs::innards::propagate_cumulative(const CumulativeInputs & inputs, const S
                 // because it dominates neither: whatever (TTOC) detects, this
                 // detects too. What that buys is the cheaper certificate
                 // wherever the cheaper rule was enough.
-                if (elastic_rules && ! inside_tasks.empty() && energy + outside_profile <= supply) {
+                if (elastic_rules && ! inside_tasks.empty() && energy + outside_profile <= supply &&
+                    inference.count_inferences() == inferences_before_sweep) {
                     auto required = energy - inside_mandatory;
 
                     // What each time point supplies with and without the
-- 
2.43.0


From b42fe2d903a07eca9499d1a200290f3946cc4698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:55 +0000
Subject: [PATCH 21/40] fix: Disjunctive edge-finding can be justified for
 starts that are views

---
 gcs/constraints/disjunctive/disjunctive.cc |  5 +----
 gcs/constraints/innards/window_energy.cc   | 21 ++++++++++++++++++---
 gcs/constraints/innards/window_energy.hh   |  2 +-
 3 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/gcs/constraints/disjunctive/disjunctive.cc b/gcs/constraints/disjunctive/disjunctive.cc
index 2bb7112..e3844d5 100644
--- a/gcs/constraints/disjunctive/disjunctive.cc
+++ b/gcs/constraints/disjunctive/disjunctive.cc
@@ -691,12 +691,9 @@ auto Disjunctive::install_propagators(Propagators & propagators) -> void
                 auto key = make_tuple(i, lo.raw_value, hi.raw_value, low_guard.raw_value, high_guard.raw_value, energy_len(i).raw_value);
                 if (auto found = guarded->find(key); found != guarded->end())
                     return found->second;
-                const auto * simple = std::get_if<SimpleIntegerVariableID>(&starts[i]);
-                if (! simple)
-                    throw ProofError{"disjunctive edge-finding wants a simple start variable for task " + std::to_string(i)};
                 std::function<auto(Integer)->ProofLine> row = [&](Integer t) -> ProofLine { return activity_flag(i, t).backward; };
                 auto derived = window_energy::derive_guarded_window_energy(*logger,
-                    window_energy::WindowRows{*simple, energy_len(i), lo, static_cast<size_t>((hi - lo).raw_value), row}, lo, hi, low_guard,
+                    window_energy::WindowRows{starts[i], energy_len(i), lo, static_cast<size_t>((hi - lo).raw_value), row}, lo, hi, low_guard,
                     high_guard, rules.overload_vocabulary_at);
                 if (! derived)
                     throw ProofError{"disjunctive edge-finding: task " + std::to_string(i) + " has no derivable window energy over [" +
diff --git a/gcs/constraints/innards/window_energy.cc b/gcs/constraints/innards/window_energy.cc
index 5b6e8d2..85343af 100644
--- a/gcs/constraints/innards/window_energy.cc
+++ b/gcs/constraints/innards/window_energy.cc
@@ -3,6 +3,9 @@
 #include <gcs/innards/proofs/pol_builder.hh>
 #include <gcs/innards/proofs/proof_error.hh>
 #include <gcs/innards/proofs/proof_logger.hh>
+#include <gcs/innards/proofs/simplify_literal.hh>
+
+#include <util/overloaded.hh>
 
 #include <algorithm>
 #include <string>
@@ -247,7 +250,7 @@ namespace
     // which differ only in where that row comes from --- three bridges over
     // Cumulative's fully reified flags, or the reverse half of a Disjunctive
     // activity flag reified straight onto the two order literals.
-    auto guarded_from_rows(ProofLogger & logger, SimpleIntegerVariableID start, const Shape & shape, const vector<ProofLine> & per_time,
+    auto guarded_from_rows(ProofLogger & logger, IntegerVariableID start, const Shape & shape, const vector<ProofLine> & per_time,
         Integer low_guard, Integer high_guard, Integer length_guard, Integer length_coeff, ProofLevel level) -> optional<GuardedWindowEnergy>
     {
         auto & tracker = logger.names_and_ids_tracker();
@@ -256,6 +259,18 @@ namespace
         for (const auto & line : per_time)
             sum.add(line);
 
+        // The literal axiom for an order literal of a start that need not be a
+        // simple variable: a view has atoms of its own.
+        auto add_literal_axiom = [&](const IntegerVariableCondition & cond) -> void {
+            overloaded{
+                [&](const VariableConditionFrom<SimpleIntegerVariableID> & c) { sum.add(tracker.xliteral_for_ensuring(c), tracker); }, //
+                [&](const ProofVariableCondition & c) { sum.add(tracker.xliteral_for_ensuring(c), tracker); },                         //
+                [&](const TrueLiteral &) {},                                                                                           //
+                [&](const FalseLiteral &) {}                                                                                           //
+            }
+                .visit(simplify_literal(tracker, cond));
+        };
+
         // Each ~[s >= u] is cancelled by the order encoding's own monotonicity
         // rather than by a bound: `[s >= u] \/ ~[s >= low_guard]` turns it into
         // ~[s >= low_guard], so the survivors collapse onto one literal carrying
@@ -265,7 +280,7 @@ namespace
         auto low_coeff = 0_i, kept_u = 0_i;
         for (Integer u = shape.u_lo; u <= shape.u_hi; ++u) {
             if (u > low_guard)
-                sum.add(tracker.xliteral_for_ensuring(start >= u), tracker);
+                add_literal_axiom(start >= u);
             else {
                 // The survivor that *is* the guard needs no implication of its
                 // own, and adding one would discharge it at a unit's cost
@@ -283,7 +298,7 @@ namespace
         auto lost_v = 0_i;
         for (Integer v = shape.v_lo; v <= shape.v_hi; ++v) {
             if (v < high_guard) {
-                sum.add(! tracker.xliteral_for_ensuring(start >= v), tracker);
+                add_literal_axiom(start < v);
                 ++lost_v;
             }
             else if (v != high_guard)
diff --git a/gcs/constraints/innards/window_energy.hh b/gcs/constraints/innards/window_energy.hh
index 2de4b56..62d1454 100644
--- a/gcs/constraints/innards/window_energy.hh
+++ b/gcs/constraints/innards/window_energy.hh
@@ -98,7 +98,7 @@ namespace gcs::innards::window_energy
      */
     struct WindowRows
     {
-        SimpleIntegerVariableID start;
+        IntegerVariableID start;
         Integer length;
         Integer rows_t_lo;
         std::size_t rows_size;
-- 
2.43.0


From b7599fbaa9cf5fc2e5bf83c8d4f52f315a3c613d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:55 +0000
Subject: [PATCH 22/40] fix: Disjunctive overload justifications account for
 optional tasks

---
 gcs/constraints/disjunctive/disjunctive.cc | 40 +++++++++++++++++-----
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/gcs/constraints/disjunctive/disjunctive.cc b/gcs/constraints/disjunctive/disjunctive.cc
index e3844d5..c05bd76 100644
--- a/gcs/constraints/disjunctive/disjunctive.cc
+++ b/gcs/constraints/disjunctive/disjunctive.cc
@@ -122,7 +122,9 @@ namespace
         /// cancels exactly one literal per operand, so a row carrying both
         /// would leave the other behind and the pol would not close.
         ProofLine implies_starts_by, implies_started;
-        /// The two of them implying the flag: what the energy sum telescopes.
+        /// ... and, for an optional task, its being present.
+        optional<ProofLine> implies_present;
+        /// The two (or three) of them implying the flag: what the energy sum telescopes.
         ProofLine backward;
     };
 }
@@ -547,14 +549,25 @@ auto Disjunctive::install_propagators(Propagators & propagators) -> void
                 if (auto found = activity->find(key); found != activity->end())
                     return found->second;
                 auto started = starts[i] >= t - energy_len(i) + 1_i, starts_by = starts[i] < t + 1_i;
-                auto both = WPBSum{} + 1_i * started + 1_i * starts_by >= 2_i;
+                auto both = WPBSum{} + 1_i * started + 1_i * starts_by;
+                auto degree = 2_i;
+                // An optional task only occupies a time point if it is here:
+                // its separation clauses let it off otherwise.
+                if (presence[i]) {
+                    both += 1_i * (*presence[i] != 0_i);
+                    ++degree;
+                }
                 auto flag = logger->create_proof_flag("dovl");
                 auto implies_started =
                     logger->emit_red_proof_lines_forward_reifying(WPBSum{} + 1_i * started >= 1_i, flag, rules.overload_vocabulary_at);
                 auto implies_starts_by =
                     logger->emit_red_proof_lines_forward_reifying(WPBSum{} + 1_i * starts_by >= 1_i, flag, rules.overload_vocabulary_at);
-                auto backward = logger->emit_red_proof_lines_reverse_reifying(both, flag, rules.overload_vocabulary_at);
-                return activity->emplace(key, ActivityFlag{flag, implies_starts_by, implies_started, backward}).first->second;
+                optional<ProofLine> implies_present;
+                if (presence[i])
+                    implies_present = logger->emit_red_proof_lines_forward_reifying(
+                        WPBSum{} + 1_i * (*presence[i] != 0_i) >= 1_i, flag, rules.overload_vocabulary_at);
+                auto backward = logger->emit_red_proof_lines_reverse_reifying(move(both) >= degree, flag, rules.overload_vocabulary_at);
+                return activity->emplace(key, ActivityFlag{flag, implies_starts_by, implies_started, implies_present, backward}).first->second;
             };
 
             // Two tasks cannot both occupy time t. This is the step
@@ -602,12 +615,20 @@ auto Disjunctive::install_propagators(Propagators & propagators) -> void
                 for (auto r : {i, j})
                     if (auto row = escape_is_false(r))
                         pol.add(*row);
+                // Nor for the disjuncts that let an absent task off, which the
+                // task's own activity flag refutes.
+                auto any_optional = false;
+                for (auto r : {i, j})
+                    if (auto row = activity_flag(r, t).implies_present) {
+                        pol.add(*row);
+                        any_optional = true;
+                    }
                 // Kept at the vocabulary's level rather than Temporary when it
                 // is to be reused. The rows it was derived from may be deleted
                 // out from under it; a derivation that has already happened
                 // does not need its premises to stay.
                 ++overload_instrumentation.bridge_derived;
-                auto line = pol.divide_by(2_i).emit(*logger, rules.overload_cache_bridge ? rules.overload_vocabulary_at : ProofLevel::Temporary);
+                auto line = pol.divide_by(any_optional ? 3_i : 2_i).emit(*logger, rules.overload_cache_bridge ? rules.overload_vocabulary_at : ProofLevel::Temporary);
                 if (rules.overload_cache_bridge)
                     bridge->emplace(key, line);
                 return line;
@@ -713,11 +734,12 @@ auto Disjunctive::install_propagators(Propagators & propagators) -> void
             //
             // Not every window can take it. A wire reads a start variable's own
             // bit encoding, which has to be a simple variable's and has to read
-            // as an unsigned magnitude, and the durations have to be constants
-            // for the separation rows to be duration-relative. A window failing
-            // any of that falls back rather than declining the conflict.
+            // as an unsigned magnitude, the durations have to be constants for
+            // the separation rows to be duration-relative, and the separation
+            // clauses have to hold outright, which an optional task's do not. A
+            // window failing any of that falls back rather than declining the conflict.
             auto sorting_network_bits = [&](size_t i) -> optional<vector<ProofLiteralOrFlag>> {
-                if (is_var_len(i))
+                if (is_var_len(i) || presence[i])
                     return nullopt;
                 const auto * simple = std::get_if<SimpleIntegerVariableID>(&starts[i]);
                 if (! simple)
-- 
2.43.0


From fa1e4f331e186b832fa7c24bdd0873989a86bda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:55 +0000
Subject: [PATCH 23/40] fix: Disjunctive set precedences use declared
 durations, as their certificates do

---
 gcs/constraints/disjunctive/disjunctive.cc | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/gcs/constraints/disjunctive/disjunctive.cc b/gcs/constraints/disjunctive/disjunctive.cc
index c05bd76..bab51a5 100644
--- a/gcs/constraints/disjunctive/disjunctive.cc
+++ b/gcs/constraints/disjunctive/disjunctive.cc
@@ -971,8 +971,11 @@ auto Disjunctive::install_propagators(Propagators & propagators) -> void
                 if (degree <= 0_i)
                     throw ProofError{"disjunctive set-based precedence: the ordering is not detectable"};
                 PolBuilder refute;
-                refute.add(
-                    emit_before_pol(refuted_from, refuted_to, starts[refuted_from] >= from_lb, starts[refuted_to] < to_ub + 1_i, nullopt, degree));
+                // The cut's durations are declared ones, so it is the declared
+                // floor that is cited for k; j's is the live one.
+                auto k_floor = duration_floor(k.task);
+                refute.add(emit_before_pol(refuted_from, refuted_to, starts[refuted_from] >= from_lb, starts[refuted_to] < to_ub + 1_i,
+                    lb_push ? nullopt : k_floor, degree));
                 // What the divided row still carries is the two bounds the
                 // reason holds, one on each task.
                 if (! is_constant_variable(starts[refuted_from]))
@@ -1000,7 +1003,7 @@ auto Disjunctive::install_propagators(Propagators & propagators) -> void
                 // two-literal clause the guarded row wants.
                 PolBuilder clause;
                 if (lb_push)
-                    clause.add(emit_before_pol(k.task, j, starts[k.task] >= threshold - k.duration, starts[j] < threshold));
+                    clause.add(emit_before_pol(k.task, j, starts[k.task] >= threshold - k.duration, starts[j] < threshold, k_floor));
                 else
                     clause.add(emit_before_pol(j, k.task, starts[j] >= threshold - p_j + 1_i, starts[k.task] < threshold + 1_i));
                 clause.add(ordering);
@@ -1813,7 +1816,9 @@ auto Disjunctive::install_propagators(Propagators & propagators) -> void
                         // bounds are captured here rather than read back out of
                         // `state` in the justification, since by then an earlier
                         // push has landed and the state holds a bound the reason
-                        // does not support.
+                        // does not support. The durations are the declared
+                        // ones, those being all the energy rows that certify a
+                        // set push will count.
                         vector<SetTask> predecessors, successors;
                         for (auto k : active_tasks) {
                             if (k == j || min_len(k) == 0_i || ! is_present(k))
@@ -1825,16 +1830,16 @@ auto Disjunctive::install_propagators(Propagators & propagators) -> void
                                     predecessor = k;
                                     predecessor_eet = eet_k;
                                 }
-                                if (rules.detectable_precedences_set)
-                                    predecessors.push_back(SetTask{k, k_lb, min_len(k), k_lb, k_ub});
+                                if (rules.detectable_precedences_set && energy_len(k) > 0_i)
+                                    predecessors.push_back(SetTask{k, k_lb, energy_len(k), k_lb, k_ub});
                             }
                             if (eet_k > cur_ub) {
                                 if (! successor || k_ub < successor_lst) {
                                     successor = k;
                                     successor_lst = k_ub;
                                 }
-                                if (rules.detectable_precedences_set)
-                                    successors.push_back(SetTask{k, k_ub + min_len(k), min_len(k), k_lb, k_ub});
+                                if (rules.detectable_precedences_set && energy_len(k) > 0_i && k_lb + energy_len(k) > cur_ub)
+                                    successors.push_back(SetTask{k, k_ub + energy_len(k), energy_len(k), k_lb, k_ub});
                             }
                         }
 
-- 
2.43.0


From c1209f3d6c0b43fcab3c64a191eae3c32ed9a4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:55 +0000
Subject: [PATCH 24/40] fix: restate the objective in a proof the way the model
 states it

---
 gcs/innards/proofs/proof_logger.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/gcs/innards/proofs/proof_logger.cc b/gcs/innards/proofs/proof_logger.cc
index f9d4520..2d6acfc 100644
--- a/gcs/innards/proofs/proof_logger.cc
+++ b/gcs/innards/proofs/proof_logger.cc
@@ -309,8 +309,18 @@ auto ProofLogger::solution(const vector<pair<IntegerVariableID, Integer>> & all_
         // normal soli, emit e line for trimmer
         visit(
             [&](const auto & id) {
+                // This has to restate the objective as `min:' has it, and that
+                // is written over the underlying for a plain negation, even
+                // if a constraint has since given the view its own bits.
+                WPBSum objective;
+                auto view = std::get_if<ViewOfIntegerVariableID>(&optional_minimise_variable_and_value->first);
+                if (view && view->negate_first && view->then_add == 0_i)
+                    objective += -1_i * view->actual_variable;
+                else
+                    objective += 1_i * id;
+
                 _imp->proof << "e ";
-                emit_inequality_to(names_and_ids_tracker(), WPBSum{} + 1_i * id <= optional_minimise_variable_and_value->second - 1_i, _imp->proof);
+                emit_inequality_to(names_and_ids_tracker(), move(objective) <= optional_minimise_variable_and_value->second - 1_i, _imp->proof);
                 _imp->proof << ":" << relative_proof_line(_imp->proof_line, _imp->proof_line.number) << ";\n";
 
                 emit_rup_proof_line(WPBSum{} + 1_i * (id < optional_minimise_variable_and_value->second) >= 1_i, ProofLevel::Top);
-- 
2.43.0


From 745e56e0d023f8b68f7a982ed3ffe785462aba77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:24 +0000
Subject: [PATCH 25/40] fix: reject GlobalCardinality whose values and counts
 differ in number

---
 gcs/constraints/global_cardinality/global_cardinality.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gcs/constraints/global_cardinality/global_cardinality.cc b/gcs/constraints/global_cardinality/global_cardinality.cc
index 2d030fb..9b3f6c3 100644
--- a/gcs/constraints/global_cardinality/global_cardinality.cc
+++ b/gcs/constraints/global_cardinality/global_cardinality.cc
@@ -1,6 +1,7 @@
 #include <gcs/constraint.hh>
 #include <gcs/constraints/global_cardinality/global_cardinality.hh>
 #include <gcs/constraints/global_cardinality/hints.hh>
+#include <gcs/exception.hh>
 #include <gcs/expression.hh>
 #include <gcs/innards/inference_tracker.hh>
 #include <gcs/innards/proofs/names_and_ids_tracker.hh>
@@ -34,6 +35,8 @@ using std::ranges::sort;
 GlobalCardinality::GlobalCardinality(vector<IntegerVariableID> vars, vector<Integer> values, vector<IntegerVariableID> counts) :
     _vars(move(vars)), _values(move(values)), _counts(move(counts))
 {
+    if (_values.size() != _counts.size())
+        throw InvalidProblemDefinitionException{"GlobalCardinality: values.size() must equal counts.size()"};
 }
 
 auto GlobalCardinality::with_consistency(GlobalCardinalityConsistency level) -> GlobalCardinality &
-- 
2.43.0


From 492ad09b871ba4f16b2e94f581081f7ac80be214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:24 +0000
Subject: [PATCH 26/40] fix: reject Regular automata whose transitions or
 states are out of range

---
 gcs/constraints/regular/regular.cc | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/gcs/constraints/regular/regular.cc b/gcs/constraints/regular/regular.cc
index dc9b600..078df17 100644
--- a/gcs/constraints/regular/regular.cc
+++ b/gcs/constraints/regular/regular.cc
@@ -39,6 +39,7 @@ using namespace gcs;
 using namespace gcs::innards;
 
 using std::any_cast;
+using std::cmp_equal;
 using std::cmp_less;
 using std::make_shared;
 using std::max;
@@ -463,6 +464,23 @@ struct Regular::Bridge
     vector<set<long>> static_dead;
 };
 
+namespace
+{
+    auto check_automaton(long num_states, const vector<unordered_map<Integer, set<long>>> & transitions, const vector<long> & final_states) -> void
+    {
+        if (num_states < 1 || ! cmp_equal(transitions.size(), num_states))
+            throw InvalidProblemDefinitionException{"Regular: there must be at least one state, and transitions must have one entry per state"};
+        for (const auto & by_symbol : transitions)
+            for (const auto & [_, targets] : by_symbol)
+                for (const auto & target : targets)
+                    if (target < 0 || target >= num_states)
+                        throw InvalidProblemDefinitionException{"Regular: transitions must lead to states from 0 up to num_states - 1"};
+        for (const auto & f : final_states)
+            if (f < 0 || f >= num_states)
+                throw InvalidProblemDefinitionException{"Regular: final_states must be states from 0 up to num_states - 1"};
+    }
+}
+
 Regular::Regular(vector<IntegerVariableID> v, long n, vector<unordered_map<Integer, long>> t, vector<long> f) :
     _vars(move(v)), _num_states(n), _transitions(t.size()), _final_states(move(f)), _regex(nullopt)
 {
@@ -470,16 +488,18 @@ Regular::Regular(vector<IntegerVariableID> v, long n, vector<unordered_map<Integ
         for (const auto & [val, target] : t[q])
             if (target != -1L)
                 _transitions[q][val].insert(target);
+    check_automaton(_num_states, _transitions, _final_states);
     _symbols = symbols_of(_transitions);
 }
 
 Regular::Regular(vector<IntegerVariableID> v, long n, vector<vector<long>> transitions, vector<long> f) :
-    _vars(move(v)), _num_states(n), _transitions(n), _final_states(move(f)), _regex(nullopt)
+    _vars(move(v)), _num_states(n), _transitions(transitions.size()), _final_states(move(f)), _regex(nullopt)
 {
     for (size_t i = 0; i < transitions.size(); ++i)
         for (size_t j = 0; j < transitions[i].size(); ++j)
             if (transitions[i][j] != -1L)
                 _transitions[i][Integer(j)].insert(transitions[i][j]);
+    check_automaton(_num_states, _transitions, _final_states);
     _symbols = symbols_of(_transitions);
 }
 
-- 
2.43.0


From 27098b13d2d506a679cd29a23808561b56cac00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:24 +0000
Subject: [PATCH 27/40] fix: reject MDDs whose layers, edges or terminals are
 out of range

---
 gcs/constraints/mdd/mdd.cc | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/gcs/constraints/mdd/mdd.cc b/gcs/constraints/mdd/mdd.cc
index d23c90f..00a08a0 100644
--- a/gcs/constraints/mdd/mdd.cc
+++ b/gcs/constraints/mdd/mdd.cc
@@ -31,6 +31,7 @@ using namespace gcs;
 using namespace gcs::innards;
 
 using std::any_cast;
+using std::cmp_equal;
 using std::cmp_less;
 using std::make_shared;
 using std::make_unique;
@@ -454,9 +455,19 @@ MDD::MDD(vector<IntegerVariableID> v, vector<vector<unordered_map<Integer, long>
         throw InvalidProblemDefinitionException{"MDD: layer_transitions.size() must equal vars.size()"};
     if (_nodes_per_layer.empty() || _nodes_per_layer.front() != 1)
         throw InvalidProblemDefinitionException{"MDD: layer 0 must contain exactly one (root) node"};
-    for (size_t i = 0; i < _vars.size(); ++i)
-        if (cmp_less(_layer_transitions[i].size(), _nodes_per_layer[i]))
+    for (size_t i = 0; i < _vars.size(); ++i) {
+        if (! cmp_equal(_layer_transitions[i].size(), _nodes_per_layer[i]))
             throw InvalidProblemDefinitionException{format("MDD: layer_transitions[{}] must have one entry per node in layer {}", i, i)};
+        for (const auto & node_map : _layer_transitions[i])
+            for (const auto & [_, target] : node_map)
+                if (target < -1 || target >= _nodes_per_layer[i + 1])
+                    throw InvalidProblemDefinitionException{format("MDD: layer_transitions[{}] leads to a node that is not in layer {}", i, i + 1)};
+    }
+    if (_nodes_per_layer.back() < 0)
+        throw InvalidProblemDefinitionException{"MDD: nodes_per_layer must not be negative"};
+    for (const auto & f : _accepting_terminals)
+        if (f < 0 || f >= _nodes_per_layer.back())
+            throw InvalidProblemDefinitionException{"MDD: accepting_terminals must be nodes of the final layer"};
 }
 
 auto MDD::clone() const -> unique_ptr<Constraint>
-- 
2.43.0


From ceaa4259f393dd2f3ad300e9d01d46b2cff47038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:14 +0000
Subject: [PATCH 28/40] fix: reject Knapsack coefficient rows of the wrong
 length whatever the proof strategy

---
 gcs/constraints/knapsack/knapsack.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gcs/constraints/knapsack/knapsack.cc b/gcs/constraints/knapsack/knapsack.cc
index a6b9246..9fe6abb 100644
--- a/gcs/constraints/knapsack/knapsack.cc
+++ b/gcs/constraints/knapsack/knapsack.cc
@@ -598,6 +598,9 @@ auto Knapsack::prepare(Propagators &, State & initial_state, ProofModel * const)
         if (c.size() != n_vars)
             throw InvalidProblemDefinitionException{"not sure what to do about different coefficient array sizes for knapsack"};
 
+    if (_vars.size() != n_vars)
+        throw InvalidProblemDefinitionException{"mismatch between coefficients and variables sizes for knapsack"};
+
     for (auto & cc : _coeffs)
         for (auto & c : cc)
             if (c < 0_i)
-- 
2.43.0


From 7d04d458fd51504139583ed0c037fa530f2a282a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:14 +0000
Subject: [PATCH 29/40] fix: accept Circuit over no nodes

---
 gcs/constraints/circuit/circuit.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gcs/constraints/circuit/circuit.cc b/gcs/constraints/circuit/circuit.cc
index e4bb6e7..2906dd2 100644
--- a/gcs/constraints/circuit/circuit.cc
+++ b/gcs/constraints/circuit/circuit.cc
@@ -121,6 +121,10 @@ auto Circuit::with_short_reasons(optional<bool> enable) -> Circuit &
 
 auto Circuit::prepare(Propagators & propagators, State & initial_state, ProofModel * const model) -> bool
 {
+    // No nodes, so nothing to visit: trivially satisfied
+    if (_succ.empty())
+        return false;
+
     // Can't have negative values
     for (const auto & s : _succ)
         propagators.define_bound(initial_state, model, s, Bound::Lower, 0_i);
-- 
2.43.0


From e8df876f8eba7232505667649d1d299678c5ad42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:14 +0000
Subject: [PATCH 30/40] fix: reject the empty sequence in a Bacchus Regular
 whose start state is not final

---
 gcs/constraints/regular/regular_bacchus.cc | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/gcs/constraints/regular/regular_bacchus.cc b/gcs/constraints/regular/regular_bacchus.cc
index 0589a42..7f69f2a 100644
--- a/gcs/constraints/regular/regular_bacchus.cc
+++ b/gcs/constraints/regular/regular_bacchus.cc
@@ -1,3 +1,4 @@
+#include <gcs/constraints/regular/hints.hh>
 #include <gcs/constraints/regular/regular_bacchus.hh>
 #include <gcs/exception.hh>
 #include <gcs/innards/inference_tracker.hh>
@@ -43,6 +44,7 @@ using std::unique_ptr;
 using std::unordered_map;
 using std::unordered_set;
 using std::vector;
+using std::ranges::find;
 using std::ranges::sort;
 
 #if defined(__cpp_lib_print) && defined(__cpp_lib_format)
@@ -171,8 +173,16 @@ namespace
 
     auto propagate_regular(const vector<IntegerVariableID> & vars, const long num_states, const vector<unordered_map<Integer, long>> & transitions,
         const vector<long> & final_states, const ConstraintStateHandle & graph_handle, const State & state, auto & inference,
-        ProofLogger * const logger) -> void
+        ProofLogger * const logger, const ConstraintID & owner) -> void
     {
+        // Degenerate empty sequence, as in Regular: the empty word is accepted
+        // only if the initial state (0) is itself a final state.
+        if (vars.empty()) {
+            if (find(final_states, 0L) == final_states.end())
+                inference.contradiction(logger, JustifyUsingRUP{hints::Regular{owner}}, NoReason{});
+            return;
+        }
+
         auto & graph = any_cast<RegularGraph &>(state.get_constraint_state(graph_handle));
 
         if (! graph.initialised)
@@ -426,9 +436,9 @@ auto RegularBacchus::install_propagators(Propagators & propagators) -> void
 
     propagators.install(
         constraint_id(),
-        [v = _vars, ns = _num_states, t = _transitions, fs = _final_states, g = _graph_idx](
+        [v = _vars, ns = _num_states, t = _transitions, fs = _final_states, g = _graph_idx, owner = constraint_id()](
             const State & state, auto & inference, ProofLogger * const logger) -> PropagatorState {
-            propagate_regular(v, ns, t, fs, g, state, inference, logger);
+            propagate_regular(v, ns, t, fs, g, state, inference, logger, owner);
             return PropagatorState::Enable;
         },
         triggers);
-- 
2.43.0


From fb7179193ed8b913e5397668ea6fec1c9cf90ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:14 +0000
Subject: [PATCH 31/40] fix: report a failed final write of the .scp file

---
 gcs/innards/proofs/scp_writer.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gcs/innards/proofs/scp_writer.cc b/gcs/innards/proofs/scp_writer.cc
index 82a3851..b49a4ca 100644
--- a/gcs/innards/proofs/scp_writer.cc
+++ b/gcs/innards/proofs/scp_writer.cc
@@ -63,6 +63,9 @@ auto gcs::innards::write_scp(const string & file_name, const Problem & problem,
         else
             println(s_expr, "    (prob_type enumerate)");
         println(s_expr, ")");
+        // Closing is what hands the last of the buffer over, and the destructor
+        // would keep a failure to itself.
+        s_expr.close();
     }
     catch (const ios_base::failure &) {
         throw ProofError{"Error writing proof s-expr file to '" + file_name + "'"};
-- 
2.43.0


From 5d5963bfe15f3239f92254b66b562635ea82b584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:14 +0000
Subject: [PATCH 32/40] fix: report a failed final write of the .varmap file

---
 gcs/innards/proofs/names_and_ids_tracker.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gcs/innards/proofs/names_and_ids_tracker.cc b/gcs/innards/proofs/names_and_ids_tracker.cc
index 1cc4e07..0063acf 100644
--- a/gcs/innards/proofs/names_and_ids_tracker.cc
+++ b/gcs/innards/proofs/names_and_ids_tracker.cc
@@ -420,6 +420,9 @@ auto NamesAndIDsTracker::finalise() -> void
     if (_imp->variables_map_file) {
         try {
             *_imp->variables_map_file << "\n}\n";
+            // Closing is what hands the last of the buffer over, and the
+            // destructor would keep a failure to itself.
+            _imp->variables_map_file->close();
         }
         catch (const ios_base::failure &) {
             throw ProofError{"Error writing proof variables mapping file to '" + _imp->variables_map_file_name + "'"};
-- 
2.43.0


From c8cd727dc25fd55895484b109424f7012d1c07f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:14 +0000
Subject: [PATCH 33/40] fix: AutoTable propagates to the root fixpoint before
 opening its subsearch

---
 gcs/presolvers/auto_table/auto_table.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/gcs/presolvers/auto_table/auto_table.cc b/gcs/presolvers/auto_table/auto_table.cc
index d0d1041..e3aa9f7 100644
--- a/gcs/presolvers/auto_table/auto_table.cc
+++ b/gcs/presolvers/auto_table/auto_table.cc
@@ -115,6 +115,16 @@ auto AutoTable::run(Problem & problem, Propagators & propagators, State & initia
     _stats->ran = true;
     _stats->variables = _vars.size();
 
+    // Propagate to the root fixpoint before opening the subsearch's epoch. Some
+    // propagators set themselves up in their first run (arming watches, or building
+    // incremental state) on the grounds that it happens at the root and is never
+    // undone, so that run must not be one which the subsearch will backtrack over.
+    if (! propagators.propagate({}, initial_state, logger)) {
+        if (logger)
+            logger->backtrack({});
+        return false;
+    }
+
     SimpleTuples tuples;
 
     // dom_then_deg is stateless, so its setup is a no-op; build the per-node
-- 
2.43.0


From 3e829afad818d2e20d4b6fa0bd780d63bb9a39f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:14 +0000
Subject: [PATCH 34/40] fix: cite a bridged flag's halves by the labels the
 model gave them

---
 gcs/innards/proofs/flag_bridge.cc           | 11 ++++++-----
 gcs/innards/proofs/names_and_ids_tracker.cc |  5 +++++
 gcs/innards/proofs/names_and_ids_tracker.hh |  6 ++++++
 3 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/gcs/innards/proofs/flag_bridge.cc b/gcs/innards/proofs/flag_bridge.cc
index d69fa0e..8955d52 100644
--- a/gcs/innards/proofs/flag_bridge.cc
+++ b/gcs/innards/proofs/flag_bridge.cc
@@ -25,15 +25,16 @@ namespace
     // them: `[r]` is `flag -> ineq` and `[f]` is `ineq -> flag`. The names read
     // backwards, which is ProofModel's doing and not worth diverging from here.
     //
-    // Built from the flag's full PB rendering rather than from name_of, which
-    // for a flag made from a plain stem returns just that stem and would name
-    // the wrong row --- or none. ProofModel labels these halves the same way,
-    // and says so where it does it.
+    // A flag keyed by a ConstraintID has its halves labelled under its tracked
+    // name, and any other flag under its full PB rendering, since for one of
+    // those name_of is just its stem. With verbose names the two are the same
+    // for a keyed flag, but without them the rendering is only `xN`, which is
+    // not what ProofModel labelled the halves with.
     [[nodiscard]] auto label_base(const NamesAndIDsTracker & tracker, const ProofFlag & flag) -> string
     {
         if (! flag.positive)
             throw ProofError{"flag bridge: bridging a negated flag, whose reification halves are labelled under the positive one"};
-        return tracker.pb_file_string_for(flag);
+        return tracker.is_constraint_keyed(flag) ? tracker.name_of(flag) : tracker.pb_file_string_for(flag);
     }
 
     [[nodiscard]] auto implies_condition(const NamesAndIDsTracker & tracker, const ProofFlag & flag) -> ProofLineLabel
diff --git a/gcs/innards/proofs/names_and_ids_tracker.cc b/gcs/innards/proofs/names_and_ids_tracker.cc
index 0063acf..b00e60a 100644
--- a/gcs/innards/proofs/names_and_ids_tracker.cc
+++ b/gcs/innards/proofs/names_and_ids_tracker.cc
@@ -1715,6 +1715,11 @@ auto NamesAndIDsTracker::find_proof_flag_values(const ConstraintID & id, const P
     return found->second;
 }
 
+auto NamesAndIDsTracker::is_constraint_keyed(const ProofFlag & flag) const -> bool
+{
+    return _imp->constraint_keyed_flags.contains(name_of(flag));
+}
+
 namespace
 {
     [[nodiscard]] auto derived_line_key(const ConstraintID & id, const string & role) -> string
diff --git a/gcs/innards/proofs/names_and_ids_tracker.hh b/gcs/innards/proofs/names_and_ids_tracker.hh
index 8b2b30c..78de91c 100644
--- a/gcs/innards/proofs/names_and_ids_tracker.hh
+++ b/gcs/innards/proofs/names_and_ids_tracker.hh
@@ -586,6 +586,12 @@ namespace gcs::innards
          */
         [[nodiscard]] auto find_proof_flag_values(const ConstraintID & id, const ProofFlagKey & key) const -> std::optional<ProofFlag>;
 
+        /**
+         * \brief Was this flag created under a ConstraintID, so that its name
+         * is the whole of its verbose rendering, rather than being a stem?
+         */
+        [[nodiscard]] auto is_constraint_keyed(const ProofFlag &) const -> bool;
+
         /**
          * \brief Record a line this constraint established *inside the proof*,
          * under a role, so that another constraint may build on it.
-- 
2.43.0


From a61506f169295d6d131eaa155fd8d7caee76fedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:10 +0000
Subject: [PATCH 35/40] fix: do not read the objective's bound when
 initialisation has wiped its domain out

---
 gcs/solve.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcs/solve.cc b/gcs/solve.cc
index 756cfec..5cf67d2 100644
--- a/gcs/solve.cc
+++ b/gcs/solve.cc
@@ -372,7 +372,7 @@ auto gcs::solve_with(
     }
 
     Integer objective_lower_bound_for_proof = 0_i;
-    if (optional_proof && problem.optional_minimise_variable())
+    if (initialisation_success && presolve_success && optional_proof && problem.optional_minimise_variable())
         objective_lower_bound_for_proof = state.lower_bound(*problem.optional_minimise_variable());
 
     if (initialisation_success && presolve_success) {
-- 
2.43.0


From 11390c83ce041407847d3478de4a495489a5bad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:10 +0000
Subject: [PATCH 36/40] fix: report an empty domain in a FlatZinc file as an
 error

---
 minizinc/fzn_glasgow.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/minizinc/fzn_glasgow.cc b/minizinc/fzn_glasgow.cc
index 67ce3da..f973821 100644
--- a/minizinc/fzn_glasgow.cc
+++ b/minizinc/fzn_glasgow.cc
@@ -413,6 +413,8 @@ auto main(int argc, char * argv[]) -> int
                 }
                 else {
                     auto size = vardata["domain"].size();
+                    if (0 == size)
+                        throw FlatZincInterfaceError{format("Empty domain for variable {} in {}", name, fznname)};
                     auto var = problem.create_integer_variable(                   //
                         Integer{vardata["domain"][0][0].get<long long>()},        //
                         Integer{vardata["domain"][size - 1][1].get<long long>()}, //
-- 
2.43.0


From a19db9c15d4a440d57024550eb582ef1ed14284b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:10 +0000
Subject: [PATCH 37/40] fix: honour the right hand sides of FlatZinc variables

---
 minizinc/fzn_glasgow.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/minizinc/fzn_glasgow.cc b/minizinc/fzn_glasgow.cc
index f973821..862f519 100644
--- a/minizinc/fzn_glasgow.cc
+++ b/minizinc/fzn_glasgow.cc
@@ -434,6 +434,12 @@ auto main(int argc, char * argv[]) -> int
                 throw FlatZincInterfaceError{format("Unknown flatzinc variable type {} for variable {} in {}", var_type, name, fznname)};
         }
 
+        // A variable with a right hand side is equal to it. That can be another
+        // variable, perhaps a later one, so these wait until they all exist.
+        for (auto v = fzn["variables"].begin(), v_end = fzn["variables"].end(); v != v_end; ++v)
+            if (v.value().contains("rhs"))
+                problem.post(Equals{data.integer_variables.at(v.key()).first, arg_as_var(data, nlohmann::json::array({v.value()["rhs"]}), 0)});
+
         for (auto a = fzn["arrays"].begin(), a_end = fzn["arrays"].end(); a != a_end; ++a) {
             auto name = a.key();
             auto arraydata = a.value();
-- 
2.43.0


From db1495d1355f9d40ac17e3ddc3178acb6b510424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:10 +0000
Subject: [PATCH 38/40] fix: write FlatZinc arrays of Boolean constants as
 Booleans

---
 minizinc/fzn_glasgow.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/minizinc/fzn_glasgow.cc b/minizinc/fzn_glasgow.cc
index 862f519..377c55a 100644
--- a/minizinc/fzn_glasgow.cc
+++ b/minizinc/fzn_glasgow.cc
@@ -473,6 +473,7 @@ auto main(int argc, char * argv[]) -> int
                     Integer val = v.is_boolean() ? (static_cast<bool>(v) ? 1_i : 0_i) : Integer{v.get<long long>()};
                     values.push_back(val);
                     variables.push_back(ConstantIntegerVariableID{val});
+                    seen_a_bool = seen_a_bool || v.is_boolean();
                 }
             }
 
-- 
2.43.0


From 623f8d06856cf43d4f52093bed34209ba0ae1b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:10 +0000
Subject: [PATCH 39/40] fix: reject glasgow_mdd whose arrays are not of the
 sizes it gives

---
 minizinc/fzn_glasgow.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/minizinc/fzn_glasgow.cc b/minizinc/fzn_glasgow.cc
index 377c55a..e99f3fa 100644
--- a/minizinc/fzn_glasgow.cc
+++ b/minizinc/fzn_glasgow.cc
@@ -892,6 +892,10 @@ auto main(int argc, char * argv[]) -> int
                 auto label = arg_as_array_of_set_of_integer(data, args, 5);
                 auto to = arg_as_array_of_integer(data, args, 6);
 
+                if (N < 1 || E < 0 || level->size() != static_cast<size_t>(N) || from->size() != static_cast<size_t>(E) ||
+                    label.size() != static_cast<size_t>(E) || to->size() != static_cast<size_t>(E))
+                    throw FlatZincInterfaceError{"glasgow_mdd: numbers of nodes and edges do not match the sizes of the arrays"};
+
                 auto L = static_cast<long>(vars.size());
 
                 // MiniZinc's mdd: nodes 1..N are user-supplied; node 0 is the
-- 
2.43.0


From 65446aa38f759e742544a87c9bf4c45b84d7fcf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:10 +0000
Subject: [PATCH 40/40] fix: renumber the rows and final states of
 glasgow_regular along with its start state

---
 minizinc/fzn_glasgow.cc | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/minizinc/fzn_glasgow.cc b/minizinc/fzn_glasgow.cc
index e99f3fa..748e179 100644
--- a/minizinc/fzn_glasgow.cc
+++ b/minizinc/fzn_glasgow.cc
@@ -970,28 +970,29 @@ auto main(int argc, char * argv[]) -> int
                 const auto & raw_transitions = arg_as_array_of_integer(data, args, 3);
                 const auto & start_state = static_cast<long long>(args.at(4));
 
-                vector<vector<long>> transitions;
-                for (int i = 0; i < num_states; i++) {
-                    transitions.emplace_back();
-                    for (int j = 0; j < num_symbols; j++) {
-                        // Swap 0 and start state to ensure start state is always 0 for gcs::regular
-                        auto t_value = raw_transitions->at(i * num_symbols + j).raw_value;
-                        if (t_value == start_state) {
-                            transitions[i].emplace_back(0);
-                        }
-                        else if (t_value == 1) {
-                            transitions[i].emplace_back(start_state - 1);
-                        }
-                        else
-                            transitions[i].emplace_back(t_value - 1);
-                    }
-                }
+                if (start_state < 1 || start_state > num_states)
+                    throw FlatZincInterfaceError{format("glasgow_regular: start state {} is not one of {} states", start_state, num_states)};
+
+                // Swap 0 and start state to ensure start state is always 0 for gcs::regular
+                auto renumber = [&](long long state) -> long {
+                    if (state == start_state)
+                        return 0;
+                    else if (state == 1)
+                        return start_state - 1;
+                    else
+                        return state - 1;
+                };
+
+                vector<vector<long>> transitions(num_states);
+                for (int i = 0; i < num_states; i++)
+                    for (int j = 0; j < num_symbols; j++)
+                        transitions[renumber(i + 1)].emplace_back(renumber(raw_transitions->at(i * num_symbols + j).raw_value));
 
                 const auto & final_states = arg_as_set_of_integer(data, args, 5);
                 vector<long> final_states_raw{};
                 for (long i = 1; i < num_states + 1; i++) {
                     if (final_states.contains(Integer{i})) {
-                        final_states_raw.emplace_back(i - 1);
+                        final_states_raw.emplace_back(renumber(i));
                     }
                 }
 
-- 
2.43.0

