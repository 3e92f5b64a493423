From aa3114843caa5337d75c79581c739f15a8fec4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:22 +0000
Subject: [PATCH 01/28] fix: substitute arguments in bodies of defined
 functions

---
 src/terms/Term_rewriter.h | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/src/terms/Term_rewriter.h b/src/terms/Term_rewriter.h
index 930d1d3..8fdede3 100644
--- a/src/terms/Term_rewriter.h
+++ b/src/terms/Term_rewriter.h
@@ -5,6 +5,7 @@
 #include <unordered_map>
 
 #include "Term_manager.h"
+#include "Terms.h"
 
 namespace yaga::terms {
 
@@ -30,29 +31,43 @@ public:
         std::vector<term_t> aux_args;
         auto is_processed = [&processed](term_t term) { return processed.find(term) != processed.end(); };
 
-        toProcess.emplace_back(root);
+        // Only positive terms are traversed. Polarity is a part of the handle and it has to be
+        // preserved when a (negated) term is replaced.
+        auto substitute = [&substitutions](term_t term) {
+            auto it = substitutions.find(positive_term(term));
+            if (it == substitutions.end()) { return term; }
+            return is_negated(term) ? opposite_term(it->second) : it->second;
+        };
+
+        toProcess.emplace_back(positive_term(root));
         while (not toProcess.empty())
         {
             auto & current_entry = toProcess.back();
             term_t current_term = current_entry.term;
-            assert(not is_processed(current_term));
+            if (is_processed(current_term)) // shared subterm which has been processed in the meantime
+            {
+                toProcess.pop_back();
+                continue;
+            }
             auto children = tm.get_args(current_term);
             if (current_entry.next_child < children.size())
             {
-                term_t next_child = children[current_entry.next_child];
+                term_t next_child = positive_term(children[current_entry.next_child]);
                 ++current_entry.next_child;
-                if (is_processed(next_child)) { toProcess.emplace_back(next_child); }
+                if (not is_processed(next_child)) { toProcess.emplace_back(next_child); }
                 continue;
             }
             // If we are here, we have already processed all children
             assert(substitutions.count(current_term) == 0);
             bool needs_change = false;
+            if (tm.is_app(current_term)) // function symbol is not listed among the arguments
+            {
+                aux_args.push_back(tm.get_fnc_symbol(current_term));
+            }
             for (term_t child : children)
             {
-                auto it = substitutions.find(child);
-                bool child_changed = it != substitutions.end();
-                needs_change |= child_changed;
-                term_t newChild = child_changed ? it->second : child;
+                term_t newChild = substitute(child);
+                needs_change |= newChild != child;
                 assert(tm.get_type(child) == tm.get_type(newChild));
                 aux_args.push_back(newChild);
             }
@@ -67,8 +82,7 @@ public:
             toProcess.pop_back();
         }
 
-        auto it = substitutions.find(root);
-        return it == substitutions.end() ? root : it->second;
+        return substitute(root);
     }
 };
 
@@ -101,7 +115,7 @@ public:
     }
 };
 
-term_t simultaneous_variable_substitution(Term_manager& tm, subst_map_t const& map, term_t term)
+inline term_t simultaneous_variable_substitution(Term_manager& tm, subst_map_t const& map, term_t term)
 {
     VarSubstituteConfig config(tm, map);
     Rewriter<VarSubstituteConfig> rewriter(tm, config);
-- 
2.43.0


From 87691eba07b5ef78f3bdc49a2fddfa2c07875011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:38 +0000
Subject: [PATCH 02/28] fix: invert rationals which do not fit in a machine
 word

---
 src/lra/Long_fraction.h | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/lra/Long_fraction.h b/src/lra/Long_fraction.h
index 6025818..19b7232 100644
--- a/src/lra/Long_fraction.h
+++ b/src/lra/Long_fraction.h
@@ -418,13 +418,7 @@ public:
         return r;
     }
 
-    inline Long_fraction inv() const {
-        if (sign() >= 0) {
-            return {static_cast<word>(den), static_cast<uword>(num)};
-        } else {
-            return {static_cast<word>(-den), static_cast<uword>(-num)};
-        }
-    }
+    inline Long_fraction inv() const { return inverse(); }
 };
 
 Long_fraction fastrat_fdiv_q(Long_fraction const & n, Long_fraction const & d);
-- 
2.43.0


From 1e00b1a647d1392a903d3f187670cd4b4e26667d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:38 +0000
Subject: [PATCH 03/28] fix: construct rationals from negative numerators which
 need reduction

---
 src/lra/Long_fraction.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lra/Long_fraction.h b/src/lra/Long_fraction.h
index 19b7232..fad3be2 100644
--- a/src/lra/Long_fraction.h
+++ b/src/lra/Long_fraction.h
@@ -644,7 +644,7 @@ inline Long_fraction::Long_fraction(word n, uword d) : state{State::WORD_VALID}
     } else {
         uword common = gcd<uword>(absVal(n), d);
         if (common > 1) {
-            num = n / common;
+            num = static_cast<word>(lword(n) / lword(common));
             den = d / common;
         } else {
             num = n;
-- 
2.43.0


From c5df8807000d3de0d988a79974cd0aa869d25a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:52 +0000
Subject: [PATCH 04/28] fix: represent the product 1 * x as x

---
 src/terms/Term_manager.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/terms/Term_manager.cpp b/src/terms/Term_manager.cpp
index 293e60a..a5c9cc4 100644
--- a/src/terms/Term_manager.cpp
+++ b/src/terms/Term_manager.cpp
@@ -647,8 +647,8 @@ term_t Term_manager::mk_arithmetic_times(std::span<term_t> args)
         return term_table->arithmetic_product(val, *pit);
     case Kind::ARITH_PRODUCT: {
         term_t var = term_table->var_of_product(poly_term);
-        auto const& coeff = term_table->coeff_of_product(poly_term);
-        return term_table->arithmetic_product(coeff * val, var);
+        Rational const coeff = term_table->coeff_of_product(poly_term) * val;
+        return coeff == 1 ? var : term_table->arithmetic_product(coeff, var);
     }
     case Kind::ARITH_POLY:
     {
-- 
2.43.0


From 8c2488c3c10d45d58fb9128ecae8d7c86598077b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:00 +0000
Subject: [PATCH 05/28] fix: drop the previous assignment and reset all
 statistics in a new check

---
 src/Solver.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Solver.cpp b/src/Solver.cpp
index bb7efde..13586df 100644
--- a/src/Solver.cpp
+++ b/src/Solver.cpp
@@ -168,8 +168,16 @@ void Solver::init()
         dispatcher.on_variable_resize(type, model->num_vars());
     }
 
+    // forget the assignment found by the previous check()
+    if (!trail().empty())
+    {
+        restart();
+    }
+
     // reset solver state
     total_conflicts = 0;
+    total_conflict_clauses = 0;
+    total_learned_clauses = 0;
     total_decisions = 0;
     total_restarts = 0;
     dispatcher.on_init(db(), trail());
-- 
2.43.0


From 9e2cd208443fe5939833ae011abd2a416c671ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:01 +0000
Subject: [PATCH 06/28] fix: answer repeated check-sat commands from all
 asserted formulas

---
 src/Yaga.cpp                  | 1 +
 src/parser/Solver_wrapper.cpp | 7 ++++++-
 src/parser/Solver_wrapper.h   | 9 +++++++++
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/Yaga.cpp b/src/Yaga.cpp
index bb7edbe..f4f2c1d 100644
--- a/src/Yaga.cpp
+++ b/src/Yaga.cpp
@@ -62,6 +62,7 @@ Yaga::Yaga(terms::Term_manager const& tm,
 
 void Yaga::init()
 {
+    smt.trail().clear();
     smt.db().learned().clear();
     smt.db().asserted().clear();
 }
diff --git a/src/parser/Solver_wrapper.cpp b/src/parser/Solver_wrapper.cpp
index 08a1f76..7d201f8 100644
--- a/src/parser/Solver_wrapper.cpp
+++ b/src/parser/Solver_wrapper.cpp
@@ -13,6 +13,7 @@ Solver_wrapper::Solver_wrapper(terms::Term_manager& term_manager, Options const&
       solver(term_manager, internalizer_config.rational_vars(), internalizer_config.bool_vars()) {}
 
 void Solver_wrapper::set_logic(Initializer const& init) {
+    initializer = &init;
     solver.set_logic(init, options);
 }
 
@@ -27,9 +28,13 @@ Solver_answer Solver_wrapper::check(std::vector<term_t> const& assertions)
         return Solver_answer::UNSAT;
     }
 
-    // Cnfize and assert clauses to the solver
+    // Start from a clean solver. All clauses and variables of the previous check are dropped,
+    // including definitions of terms which have been internalized already.
+    internalizer.reset();
     solver.init();
+    solver.set_logic(*initializer, options);
 
+    // Cnfize and assert clauses to the solver
     internalizer.visit(assertions);
 
     // add top level assertions to the solver
diff --git a/src/parser/Solver_wrapper.h b/src/parser/Solver_wrapper.h
index fce7583..a4bf197 100644
--- a/src/parser/Solver_wrapper.h
+++ b/src/parser/Solver_wrapper.h
@@ -81,6 +81,12 @@ public:
 
     void visit(terms::term_t) override;
 
+    void reset() override
+    {
+        internal_rational_vars.clear();
+        internal_bool_vars.clear();
+    }
+
     std::optional<Literal> get_literal_for(terms::term_t t) const;
 
     /** Get a range of boolean variables (pairs of `term_t` and `Literal`)
@@ -131,6 +137,9 @@ class Solver_wrapper
 
     Yaga solver;
 
+    // logic used in the `check()` method
+    Initializer const* initializer = nullptr;
+
 public:
     Solver_wrapper(terms::Term_manager& term_manager, Options const& options);
 
-- 
2.43.0


From 70a84f8d303f567bf67d5b517faf28631fa10113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:23 +0000
Subject: [PATCH 07/28] fix: do not add a variable to the queue of effectively
 decided variables twice

---
 src/variable_order/Generalized_vsids.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/variable_order/Generalized_vsids.cpp b/src/variable_order/Generalized_vsids.cpp
index df10383..1de3a4a 100644
--- a/src/variable_order/Generalized_vsids.cpp
+++ b/src/variable_order/Generalized_vsids.cpp
@@ -82,7 +82,10 @@ std::optional<Variable> Generalized_vsids::pick_effectively_decided(Trail& trail
     for (int var_ord : lra->effectively_decided())
     {
         Variable var{var_ord, Variable::rational};
-        effectively_decided.push(var, score(var));
+        if (!effectively_decided.contains(var)) // it may be there since an earlier propagation
+        {
+            effectively_decided.push(var, score(var));
+        }
     }
 
     // decide effectively decided variables first
-- 
2.43.0


From 322ecccf5bf3ed9b2da30c6e15fe36b36f6a9fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:06 +0000
Subject: [PATCH 08/28] fix: propagate function argument equalities at the
 level of their variables

---
 src/uf/Uninterpreted_functions.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/uf/Uninterpreted_functions.cpp b/src/uf/Uninterpreted_functions.cpp
index 83008c5..6fd2fc8 100644
--- a/src/uf/Uninterpreted_functions.cpp
+++ b/src/uf/Uninterpreted_functions.cpp
@@ -305,7 +305,11 @@ void Uninterpreted_functions::assert_equality(terms::term_t t, terms::term_t u,
             Term_evaluation u_eval = evaluate(u, trail);
             assert(are_equal == (t_eval.value == u_eval.value));
 
-            int propagation_level = std::max<int>(t_eval.decision_level, u_eval.decision_level);
+            // some variables of t and u might not be in the constraint (e.g., if t is y and u is x + y)
+            int propagation_level = 0;
+            for (int var_ord : p.vars) {
+                propagation_level = std::max<int>(propagation_level, trail.decision_level(Variable{var_ord, Variable::rational}).value());
+            }
             trail.propagate(lit.var(), nullptr, propagation_level);
             trail_model.set_value(lit.var().ord(), are_equal);
         }
-- 
2.43.0


From 3a32abb0913539fa9b895f93d8cd961828af7adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:33 +0000
Subject: [PATCH 09/28] fix: support Boolean arguments and results of
 uninterpreted functions

---
 src/parser/Solver_wrapper.cpp      |  3 ++-
 src/uf/Uninterpreted_functions.cpp | 33 ++++++++++++++++++++++++------
 src/uf/Uninterpreted_functions.h   |  7 +++++++
 3 files changed, 36 insertions(+), 7 deletions(-)

diff --git a/src/parser/Solver_wrapper.cpp b/src/parser/Solver_wrapper.cpp
index 7d201f8..b8853d8 100644
--- a/src/parser/Solver_wrapper.cpp
+++ b/src/parser/Solver_wrapper.cpp
@@ -239,6 +239,7 @@ void Internalizer_config::visit(term_t t)
             break;
         }
 
+        t = term_manager.positive_term(t);
         Variable var = solver.make_function_application(var_type, t);
 
         switch (term_type) {
@@ -330,7 +331,7 @@ void Internalizer_config::visit(term_t t)
 
     case terms::Kind::CONSTANT_TERM:
     {
-        if (t != terms::true_term)
+        if (term_manager.positive_term(t) != terms::true_term)
         {
             throw std::logic_error("Unhandled internalize case!");
         }
diff --git a/src/uf/Uninterpreted_functions.cpp b/src/uf/Uninterpreted_functions.cpp
index 6fd2fc8..ff02346 100644
--- a/src/uf/Uninterpreted_functions.cpp
+++ b/src/uf/Uninterpreted_functions.cpp
@@ -74,11 +74,9 @@ std::optional<Variable> Uninterpreted_functions::term_to_var(terms::term_t t) {
         break;
     }
     case terms::types::bool_type: {
-        auto key_equal = [=](std::pair<terms::term_t, Literal> p) { return p.first == t; };
-        auto found = std::ranges::find_if(bool_vars, key_equal);
-        if (found != bool_vars.end())
+        if (auto lit = term_to_literal(t))
         {
-            return found->second.var();
+            return lit->var();
         }
         break;
     }
@@ -87,6 +85,18 @@ std::optional<Variable> Uninterpreted_functions::term_to_var(terms::term_t t) {
     return std::nullopt;
 }
 
+std::optional<Literal> Uninterpreted_functions::term_to_literal(terms::term_t t) {
+    assert(term_manager.get_type(t) == terms::types::bool_type);
+
+    // only positive terms are mapped to literals
+    auto found = bool_vars.base().find(term_manager.positive_term(t));
+    if (found == bool_vars.base().end())
+    {
+        return std::nullopt;
+    }
+    return term_manager.is_negated(t) ? ~found->second : found->second;
+}
+
 std::vector<Variable> Uninterpreted_functions::vars_to_watch(terms::term_t t) {
     std::vector<Variable> result;
 
@@ -167,8 +177,7 @@ Uninterpreted_functions::Term_evaluation Uninterpreted_functions::evaluate(const
         }
         case terms::types::bool_type: {
             Model<bool> const& b_model = trail.model<bool>(Variable::boolean);
-            bool bool_model_value = b_model.value(maybe_var.value().ord());
-            result.value = bool_model_value;
+            result.value = yaga::eval(b_model, term_to_literal(t).value()).value();
             break;
         }
         }
@@ -270,6 +279,18 @@ utils::Linear_polynomial Uninterpreted_functions::term_to_poly(terms::term_t t)
 void Uninterpreted_functions::assert_equality(terms::term_t t, terms::term_t u, Trail& trail, Clause& result_clause, bool make_equal) {
     assert(term_manager.get_type(t) == term_manager.get_type(u));
     switch(term_manager.get_type(t)) {
+    case terms::types::bool_type:
+        // t and u are not literals if they are constants
+        for (auto term : {t, u}) {
+            if (auto lit = term_to_literal(term)) {
+                // add the negation of the current value
+                Literal false_lit = std::get<bool>(evaluate(term, trail).value) ? ~*lit : *lit;
+                if (std::ranges::find(result_clause, false_lit) == result_clause.end()) {
+                    result_clause.push_back(false_lit);
+                }
+            }
+        }
+        break;
     case terms::types::real_type:
         // polynomial p == (t - u)
         utils::Linear_polynomial p = term_to_poly(t);
diff --git a/src/uf/Uninterpreted_functions.h b/src/uf/Uninterpreted_functions.h
index 5b604f9..ef6f863 100644
--- a/src/uf/Uninterpreted_functions.h
+++ b/src/uf/Uninterpreted_functions.h
@@ -152,6 +152,13 @@ private:
      */
     std::optional<Variable> term_to_var(terms::term_t t);
 
+    /** Check if there is a Literal directly mapped to a boolean term @p t
+     *
+     * @param t boolean term to check
+     * @return Literal equivalent to @p t or std::nullopt if there is none
+     */
+    std::optional<Literal> term_to_literal(terms::term_t t);
+
     /** Store the value of the application term @p t and check for potential function application
      * conflicts
      *
-- 
2.43.0


From 8b853d56220a23d8cc57d75cd006997d6ae93de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:32 +0000
Subject: [PATCH 10/28] fix: interpret applications of operators to more than
 two arguments

---
 src/terms/Term_manager.cpp | 78 ++++++++++++++++++++++++++------------
 1 file changed, 54 insertions(+), 24 deletions(-)

diff --git a/src/terms/Term_manager.cpp b/src/terms/Term_manager.cpp
index a5c9cc4..1f81976 100644
--- a/src/terms/Term_manager.cpp
+++ b/src/terms/Term_manager.cpp
@@ -1,6 +1,7 @@
 #include "Term_manager.h"
 
 #include <algorithm>
+#include <limits>
 #include <numeric>
 
 #include "Arithmetic_polynomial.h"
@@ -161,82 +162,112 @@ term_t Term_manager::mk_term(Kind kind, std::span<term_t> args)
 
 term_t Term_manager::mk_term(std::string const& op, std::span<term_t> args, bool not_app /* = false */)
 {
+    // check number of arguments of interpreted functions
+    auto expect = [&](std::size_t min_args, std::size_t max_args) {
+        if (args.size() < min_args or args.size() > max_args)
+        {
+            throw std::logic_error("wrong number of arguments of function: " + op);
+        }
+    };
+    constexpr auto unlimited = std::numeric_limits<std::size_t>::max();
+
+    // (op a b c) is (and (op a b) (op b c))
+    auto chain = [&](auto mk_binary) {
+        std::vector<term_t> links;
+        for (std::size_t i = 0; i + 1 < args.size(); ++i)
+        {
+            links.push_back(mk_binary(args[i], args[i + 1]));
+        }
+        return links.size() == 1 ? links.front() : mk_and(links);
+    };
+    // (op a b c) is (op (op a b) c)
+    auto fold_left = [&](auto mk_binary) {
+        return std::accumulate(args.begin() + 1, args.end(), args.front(), mk_binary);
+    };
+
     if (op == ">=")
     {
-        assert(args.size() == 2);
-        return mk_arithmetic_geq(args[0], args[1]);
+        expect(2, unlimited);
+        return chain([this](term_t x, term_t y) { return mk_arithmetic_geq(x, y); });
     }
     else if (op == "<=")
     {
-        assert(args.size() == 2);
-        return mk_arithmetic_leq(args[0], args[1]);
+        expect(2, unlimited);
+        return chain([this](term_t x, term_t y) { return mk_arithmetic_leq(x, y); });
     }
     else if (op == "<")
     {
-        assert(args.size() == 2);
-        return mk_arithmetic_lt(args[0], args[1]);
+        expect(2, unlimited);
+        return chain([this](term_t x, term_t y) { return mk_arithmetic_lt(x, y); });
     }
     else if (op == ">")
     {
-        assert(args.size() == 2);
-        return mk_arithmetic_gt(args[0], args[1]);
+        expect(2, unlimited);
+        return chain([this](term_t x, term_t y) { return mk_arithmetic_gt(x, y); });
     }
     else if (op == "=")
     {
-        return mk_eq(args);
+        expect(2, unlimited);
+        return chain([this](term_t x, term_t y) { return mk_binary_eq(x, y); });
     }
     else if (op == "or")
     {
+        expect(0, unlimited);
         return mk_or(args);
     }
     else if (op == "and")
     {
+        expect(0, unlimited);
         return mk_and(args);
     }
-    else if (op == "=>")
+    else if (op == "=>") // right associative
     {
-        assert(args.size() == 2);
-        return mk_implies(args[0], args[1]);
+        expect(2, unlimited);
+        term_t result = args.back();
+        for (std::size_t i = args.size() - 1; i > 0; --i)
+        {
+            result = mk_implies(args[i - 1], result);
+        }
+        return result;
     }
     else if (op == "not")
     {
-        assert(args.size() == 1);
+        expect(1, 1);
         return terms::opposite_term(args[0]);
     }
     else if (op == "-")
     {
+        expect(1, unlimited);
         if (args.size() == 1)
         {
             return mk_unary_minus(args[0]);
         }
-        else
-        {
-            assert(args.size() == 2);
-            return mk_arithmetic_minus(args[0], args[1]);
-        }
+        return fold_left([this](term_t x, term_t y) { return mk_arithmetic_minus(x, y); });
     }
     else if (op == "+")
     {
+        expect(0, unlimited);
         return mk_arithmetic_plus(args);
     }
     else if (op == "*")
     {
+        expect(0, unlimited);
         return mk_arithmetic_times(args);
     }
     else if (op == "/")
     {
-        assert(args.size() == 2);
-        return mk_divides(args[0], args[1]);
+        expect(2, unlimited);
+        return fold_left([this](term_t x, term_t y) { return mk_divides(x, y); });
     }
     else if (op == "ite")
     {
-        assert(args.size() == 3);
+        expect(3, 3);
         return mk_ite(args[0], args[1], args[2]);
     }
     else if (op == "xor")
     {
-        assert(args.size() == 2);
-        return mk_xor(args[0], args[1]);
+        expect(2, unlimited);
+        return fold_left([this](term_t x, term_t y) { return mk_xor(x, y); });
     }
     else if (op == "distinct")
     {
@@ -613,7 +644,6 @@ term_t Term_manager::mk_arithmetic_times(std::span<term_t> args)
     {
         return args[0];
     }
-    assert(args.size() == 2);
     auto pit = std::partition(args.begin(), args.end(),[this](term_t arg) { return this->term_table->is_arithmetic_constant(arg); });
     // constants are from begin to it, non-constants are from pit (included) until end
     assert(args.end() - pit <= 1);
-- 
2.43.0


From 683d79cdb10ef1cde8b141189e8e290fa79eff7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:30 +0000
Subject: [PATCH 11/28] fix: report ill-typed and nonlinear terms as errors

---
 src/terms/Term_manager.cpp | 51 ++++++++++++++++++++++++--------------
 1 file changed, 32 insertions(+), 19 deletions(-)

diff --git a/src/terms/Term_manager.cpp b/src/terms/Term_manager.cpp
index 1f81976..84cfc3e 100644
--- a/src/terms/Term_manager.cpp
+++ b/src/terms/Term_manager.cpp
@@ -162,12 +162,16 @@ term_t Term_manager::mk_term(Kind kind, std::span<term_t> args)
 
 term_t Term_manager::mk_term(std::string const& op, std::span<term_t> args, bool not_app /* = false */)
 {
-    // check number of arguments of interpreted functions
-    auto expect = [&](std::size_t min_args, std::size_t max_args) {
+    // check number and type of arguments of interpreted functions
+    auto expect = [&](type_t type, std::size_t min_args, std::size_t max_args) {
         if (args.size() < min_args or args.size() > max_args)
         {
             throw std::logic_error("wrong number of arguments of function: " + op);
         }
+        if (std::ranges::any_of(args, [&](term_t arg) { return get_type(arg) != type; }))
+        {
+            throw std::logic_error("wrong type of an argument of function: " + op);
+        }
     };
     constexpr auto unlimited = std::numeric_limits<std::size_t>::max();
 
@@ -187,42 +191,42 @@ term_t Term_manager::mk_term(std::string const& op, std::span<term_t> args, bool
 
     if (op == ">=")
     {
-        expect(2, unlimited);
+        expect(types::real_type, 2, unlimited);
         return chain([this](term_t x, term_t y) { return mk_arithmetic_geq(x, y); });
     }
     else if (op == "<=")
     {
-        expect(2, unlimited);
+        expect(types::real_type, 2, unlimited);
         return chain([this](term_t x, term_t y) { return mk_arithmetic_leq(x, y); });
     }
     else if (op == "<")
     {
-        expect(2, unlimited);
+        expect(types::real_type, 2, unlimited);
         return chain([this](term_t x, term_t y) { return mk_arithmetic_lt(x, y); });
     }
     else if (op == ">")
     {
-        expect(2, unlimited);
+        expect(types::real_type, 2, unlimited);
         return chain([this](term_t x, term_t y) { return mk_arithmetic_gt(x, y); });
     }
     else if (op == "=")
     {
-        expect(2, unlimited);
+        expect(args.empty() ? types::null_type : get_type(args[0]), 2, unlimited);
         return chain([this](term_t x, term_t y) { return mk_binary_eq(x, y); });
     }
     else if (op == "or")
     {
-        expect(0, unlimited);
+        expect(types::bool_type, 0, unlimited);
         return mk_or(args);
     }
     else if (op == "and")
     {
-        expect(0, unlimited);
+        expect(types::bool_type, 0, unlimited);
         return mk_and(args);
     }
     else if (op == "=>") // right associative
     {
-        expect(2, unlimited);
+        expect(types::bool_type, 2, unlimited);
         term_t result = args.back();
         for (std::size_t i = args.size() - 1; i > 0; --i)
         {
@@ -232,12 +236,12 @@ term_t Term_manager::mk_term(std::string const& op, std::span<term_t> args, bool
     }
     else if (op == "not")
     {
-        expect(1, 1);
+        expect(types::bool_type, 1, 1);
         return terms::opposite_term(args[0]);
     }
     else if (op == "-")
     {
-        expect(1, unlimited);
+        expect(types::real_type, 1, unlimited);
         if (args.size() == 1)
         {
             return mk_unary_minus(args[0]);
@@ -246,27 +250,30 @@ term_t Term_manager::mk_term(std::string const& op, std::span<term_t> args, bool
     }
     else if (op == "+")
     {
-        expect(0, unlimited);
+        expect(types::real_type, 0, unlimited);
         return mk_arithmetic_plus(args);
     }
     else if (op == "*")
     {
-        expect(0, unlimited);
+        expect(types::real_type, 0, unlimited);
         return mk_arithmetic_times(args);
     }
     else if (op == "/")
     {
-        expect(2, unlimited);
+        expect(types::real_type, 2, unlimited);
         return fold_left([this](term_t x, term_t y) { return mk_divides(x, y); });
     }
     else if (op == "ite")
     {
-        expect(3, 3);
+        if (args.size() != 3 or get_type(args[0]) != types::bool_type)
+        {
+            throw std::logic_error("wrong number or type of arguments of function: ite");
+        }
         return mk_ite(args[0], args[1], args[2]);
     }
     else if (op == "xor")
     {
-        expect(2, unlimited);
+        expect(types::bool_type, 2, unlimited);
         return fold_left([this](term_t x, term_t y) { return mk_xor(x, y); });
     }
     else if (op == "distinct")
@@ -646,7 +653,10 @@ term_t Term_manager::mk_arithmetic_times(std::span<term_t> args)
     }
     auto pit = std::partition(args.begin(), args.end(),[this](term_t arg) { return this->term_table->is_arithmetic_constant(arg); });
     // constants are from begin to it, non-constants are from pit (included) until end
-    assert(args.end() - pit <= 1);
+    if (args.end() - pit > 1)
+    {
+        throw std::logic_error("nonlinear multiplication is not supported");
+    }
 
     // fold all constants into a single value
     Rational val = 1;
@@ -695,7 +705,10 @@ term_t Term_manager::mk_arithmetic_times(std::span<term_t> args)
 
 term_t Term_manager::mk_divides(term_t t1, term_t t2)
 {
-    assert(term_table->is_arithmetic_constant(t2));
+    if (not term_table->is_arithmetic_constant(t2) or t2 == zero_term)
+    {
+        throw std::logic_error("division is only supported by a non-zero constant");
+    }
     Rational const& value = term_table->arithmetic_constant_value(t2);
     if (term_table->is_arithmetic_constant(t1))
     {
-- 
2.43.0


From 7ed733fcd54bbbeb3f2dbdcd4ab0286dabe58ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:30 +0000
Subject: [PATCH 12/28] fix: report an error if the logic is not set

---
 src/Yaga.h                    | 4 ++--
 src/parser/Solver_wrapper.cpp | 5 +++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/Yaga.h b/src/Yaga.h
index da2588c..29b556b 100644
--- a/src/Yaga.h
+++ b/src/Yaga.h
@@ -216,10 +216,10 @@ private:
     Solver smt;
 
     // pointer to the LRA plugin or nullptr if this solver does not support LRA
-    Linear_arithmetic* lra;
+    Linear_arithmetic* lra = nullptr;
 
     // pointer to the UF plugin or nullptr if this solver does not support UF
-    Uninterpreted_functions* uf;
+    Uninterpreted_functions* uf = nullptr;
     std::ranges::ref_view<std::unordered_map<yaga::terms::term_t, int> > real_mapping;
     std::ranges::ref_view<std::unordered_map<yaga::terms::term_t, Literal> > bool_mapping;
 };
diff --git a/src/parser/Solver_wrapper.cpp b/src/parser/Solver_wrapper.cpp
index b8853d8..ba9e8b4 100644
--- a/src/parser/Solver_wrapper.cpp
+++ b/src/parser/Solver_wrapper.cpp
@@ -23,6 +23,11 @@ bool Solver_wrapper::has_uf() {
 
 Solver_answer Solver_wrapper::check(std::vector<term_t> const& assertions)
 {
+    if (!initializer)
+    {
+        throw std::logic_error("logic has to be set before (check-sat)");
+    }
+
     if (std::ranges::any_of(assertions, [](term_t t) { return t == terms::false_term; }))
     {
         return Solver_answer::UNSAT;
-- 
2.43.0


From 94232077417c73e24099b7bd36a70f0bdc3b1791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:18 +0000
Subject: [PATCH 13/28] fix: report undeclared, redeclared and ill-typed
 symbols as errors

---
 src/parser/Parser_context.cpp   | 64 ++++++++++++++++++++++++++-------
 src/parser/Parser_context.h     |  9 +++++
 src/parser/Smt2_term_parser.cpp |  5 ++-
 3 files changed, 63 insertions(+), 15 deletions(-)

diff --git a/src/parser/Parser_context.cpp b/src/parser/Parser_context.cpp
index 9180c6a..940e3a7 100644
--- a/src/parser/Parser_context.cpp
+++ b/src/parser/Parser_context.cpp
@@ -37,12 +37,22 @@ term_t Parser_context::get_term_for_symbol(std::string const& symbol)
     }
     if (defined_functions.has(symbol))
     {
-        auto defined = defined_functions.get(symbol);
-        assert(defined.signature.args.empty());
+        auto const& defined = defined_functions.get(symbol);
+        if (not defined.signature.args.empty())
+        {
+            throw std::logic_error("missing arguments of function: " + symbol);
+        }
         return defined.body;
     }
     auto t = term_manager.get_term_by_name(symbol);
-    assert(t.has_value());
+    if (not t.has_value())
+    {
+        throw std::logic_error("unknown symbol: " + symbol);
+    }
+    if (declared_functions.has(symbol))
+    {
+        throw std::logic_error("missing arguments of function: " + symbol);
+    }
     return t.value();
 }
 
@@ -75,8 +85,19 @@ void Parser_context::model(Default_model_visitor& visitor)
     solver.model(visitor);
 }
 
+void Parser_context::check_is_new(std::string const& name)
+{
+    if (defined_functions.has(name) || term_manager.get_term_by_name(name).has_value())
+    {
+        throw std::logic_error("symbol is already declared: " + name);
+    }
+}
+
+void Parser_context::clear_bindings() { let_records = Let_records{}; }
+
 term_t Parser_context::declare_uninterpreted_constant(terms::type_t sort, std::string const& name)
 {
+    check_is_new(name);
     term_t term = term_manager.mk_uninterpreted_constant(sort);
     term_manager.set_term_name(term, name);
     return term;
@@ -84,6 +105,7 @@ term_t Parser_context::declare_uninterpreted_constant(terms::type_t sort, std::s
 
 void Parser_context::declare_uninterpreted_function(terms::type_t ret_type, std::vector<terms::type_t> && arg_sorts, std::string const& name)
 {
+    check_is_new(name);
     term_t fnc_term = term_manager.mk_uninterpreted_constant(ret_type);
     term_manager.set_term_name(fnc_term, name);
 
@@ -107,19 +129,26 @@ term_t Parser_context::resolve_term(std::string const& name, std::vector<term_t>
         return resolve_defined_function(name, args);
     } else if (declared_functions.has(name))
     {
-        auto declared_function = declared_functions.get(name);
-        auto expected_count = declared_function.arg_types.size();
-        assert(expected_count == args.size()); (void) expected_count;
+        auto const& declared_function = declared_functions.get(name);
+        check_args(name, declared_function.arg_types, args);
+        return term_manager.mk_app(name, declared_function.return_type, args);
+    }
+    return term_manager.mk_term(name, args, true);
+}
 
-        for (size_t i = 0; i < args.size(); ++i)
+void Parser_context::check_args(std::string const& name, std::span<type_t const> types, std::span<term_t const> args)
+{
+    if (types.size() != args.size())
+    {
+        throw std::logic_error("wrong number of arguments of function: " + name);
+    }
+    for (std::size_t i = 0; i < args.size(); ++i)
+    {
+        if (types[i] != term_manager.get_type(args[i]))
         {
-            type_t expected_type = declared_function.arg_types[i];
-            assert(expected_type == term_manager.get_type(args[i])); (void) expected_type;
+            throw std::logic_error("wrong type of an argument of function: " + name);
         }
-
-        return term_manager.mk_app(name, declared_function.return_type, args);
     }
-    return term_manager.mk_term(name, args, true);
 }
 
 std::vector<term_t> Parser_context::bind_vars(std::span<Sorted_var> sorted_vars)
@@ -137,6 +166,11 @@ std::vector<term_t> Parser_context::bind_vars(std::span<Sorted_var> sorted_vars)
 void Parser_context::store_defined_fun(std::string const& name, term_t definition,
                                        std::vector<term_t> && formal_args, type_t return_sort)
 {
+    check_is_new(name);
+    if (term_manager.get_type(definition) != return_sort)
+    {
+        throw std::logic_error("wrong type of the body of function: " + name);
+    }
     defined_functions.insert(name, Function_template(name, std::move(formal_args), return_sort, definition));
 }
 
@@ -155,6 +189,12 @@ term_t resolve(Function_template const& function_template, std::span<term_t> arg
 term_t Parser_context::resolve_defined_function(std::string const& name, std::span<term_t> args)
 {
     auto const& function_template = defined_functions.get(name);
+    std::vector<type_t> types;
+    for (term_t formal_arg : function_template.signature.args)
+    {
+        types.push_back(term_manager.get_type(formal_arg));
+    }
+    check_args(name, types, args);
     return resolve(function_template, args, term_manager);
 }
 
diff --git a/src/parser/Parser_context.h b/src/parser/Parser_context.h
index 4a11127..735cfd9 100644
--- a/src/parser/Parser_context.h
+++ b/src/parser/Parser_context.h
@@ -190,6 +190,9 @@ public:
     void push_binding_scope();
     void pop_binding_scope();
 
+    /// Remove all bindings (after an error in the middle of a term)
+    void clear_bindings();
+
     std::vector<term_t> bind_vars(std::span<Sorted_var> sorted_vars);
 
     void store_defined_fun(std::string const& name, term_t definition, std::vector<term_t> && formal_args, type_t ret_sort);
@@ -205,6 +208,12 @@ private:
 
     Solver_wrapper solver;
 
+    /// Check that @p name can be declared or defined
+    void check_is_new(std::string const& name);
+
+    /// Check number and types of arguments of a user-defined function @p name
+    void check_args(std::string const& name, std::span<type_t const> types, std::span<term_t const> args);
+
     term_t resolve_defined_function(std::string const& name, std::span<term_t> args);
 };
 
diff --git a/src/parser/Smt2_term_parser.cpp b/src/parser/Smt2_term_parser.cpp
index e8ca346..90f32bb 100644
--- a/src/parser/Smt2_term_parser.cpp
+++ b/src/parser/Smt2_term_parser.cpp
@@ -104,12 +104,11 @@ term_t Smt2_term_parser::parse_term() {
         break;
         case Token::RPAREN_TOK:
         {
-            if (ctx_stack.empty())
+            // should only be here if we are expecting arguments
+            if (ctx_stack.empty() || get<ParseCtx>(ctx_stack.back()) != ParseCtx::NEXT_ARG)
             {
                 lexer.unexpected_token_error(token);
             }
-            // should only be here if we are expecting arguments
-            assert(get<ParseCtx>(ctx_stack.back()) == ParseCtx::NEXT_ARG);
             // Construct the application term specified by ctx_stack.back()
             auto& op = get<OpInfo>(ctx_stack.back());
             ret = make_term(op, std::move(get<arg_list_t>(ctx_stack.back())));
-- 
2.43.0


From 022675b5bd7b52dc1cadea1aaba923aa7de80c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:18 +0000
Subject: [PATCH 14/28] fix: skip the rest of an assertion after an error

---
 src/parser/Flex_lexer.cpp  | 29 ++++++++++++++++++++++++++++-
 src/parser/Flex_lexer.h    |  9 +++++++++
 src/parser/Smt2_parser.cpp |  7 +++++++
 3 files changed, 44 insertions(+), 1 deletion(-)

diff --git a/src/parser/Flex_lexer.cpp b/src/parser/Flex_lexer.cpp
index 3d3c3e3..7e29974 100644
--- a/src/parser/Flex_lexer.cpp
+++ b/src/parser/Flex_lexer.cpp
@@ -28,7 +28,34 @@ void Flex_lexer::eat_token(Token t)
 
 Token Flex_lexer::next_token()
 {
-    return lex_scan();
+    Token token = lex_scan();
+    if (token == Token::LPAREN_TOK)
+    {
+        ++depth;
+    }
+    else if (token == Token::RPAREN_TOK)
+    {
+        --depth;
+    }
+    return token;
+}
+
+bool Flex_lexer::skip_to_depth(int target_depth)
+{
+    while (depth > target_depth)
+    {
+        try
+        {
+            if (next_token() == Token::EOF_TOK)
+            {
+                return false;
+            }
+        }
+        catch (std::logic_error const&) // unknown token
+        {
+        }
+    }
+    return true;
 }
 
 char const* Flex_lexer::token_string()
diff --git a/src/parser/Flex_lexer.h b/src/parser/Flex_lexer.h
index 912f340..4b501b1 100644
--- a/src/parser/Flex_lexer.h
+++ b/src/parser/Flex_lexer.h
@@ -13,6 +13,8 @@
 namespace yaga::parser {
 
 class Flex_lexer : public yyFlexLexer {
+    // number of open parentheses
+    int depth = 0;
 
 protected:
     virtual Token lex_scan() = 0;
@@ -42,6 +44,13 @@ public:
      */
     Token next_token();
 
+    /**
+     * Consumes all tokens until there are at most target_depth open parentheses
+     * @param target_depth number of open parentheses
+     * @return false if the end of file is reached
+     */
+    bool skip_to_depth(int target_depth);
+
     /**
      * Gets the string representation of the last consumed token
      */
diff --git a/src/parser/Smt2_parser.cpp b/src/parser/Smt2_parser.cpp
index c5c6c63..5af0b0f 100644
--- a/src/parser/Smt2_parser.cpp
+++ b/src/parser/Smt2_parser.cpp
@@ -198,9 +198,16 @@ bool Smt2_command_context::parse_command()
         try
         {
             term_t term = term_parser.parse_term();
+            if (term_manager.get_type(term) != terms::types::bool_type)
+            {
+                throw std::logic_error("assertion is not Boolean");
+            }
             assertions.push_back(term);
         } catch (std::logic_error const& e) {
             output << "(error \"" << e.what() << "\")" << std::endl;
+            // ignore the rest of the command
+            parser_context.clear_bindings();
+            return lexer.skip_to_depth(0);
         }
     }
     break;
-- 
2.43.0


From 0e1597e48361d9c4f40ec03dbb02a3283c0fc24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:04 +0000
Subject: [PATCH 15/28] fix: forget the number of old learned clauses in a new
 check

The index of the first new learned clause survived the removal of all
learned clauses between two check-sat commands, so that the next restart
read clauses which do not exist any more.
---
 src/Subsumption.cpp | 6 ++++++
 src/Subsumption.h   | 7 +++++++
 2 files changed, 13 insertions(+)

diff --git a/src/Subsumption.cpp b/src/Subsumption.cpp
index 79e3aa3..659fed9 100644
--- a/src/Subsumption.cpp
+++ b/src/Subsumption.cpp
@@ -18,6 +18,12 @@ void Subsumption::minimize(Trail const& trail, Clause& clause)
     clause.erase(std::remove_if(clause.begin(), clause.end(), is_redundant), clause.end());
 }
 
+void Subsumption::on_init(Database&, Trail&)
+{
+    // learned clauses of the previous check could have been dropped
+    old_size = 0;
+}
+
 void Subsumption::on_variable_resize(Variable::Type type, int num_vars)
 {
     if (type == Variable::boolean)
diff --git a/src/Subsumption.h b/src/Subsumption.h
index 2f932e4..3560b4e 100644
--- a/src/Subsumption.h
+++ b/src/Subsumption.h
@@ -25,6 +25,13 @@ namespace yaga {
  */
 class Subsumption final : public Event_listener {
 public:
+    /** Treat all clauses in @p db as new
+     *
+     * @param db clause database
+     * @param trail current solver trail
+     */
+    void on_init(Database& db, Trail& trail) override;
+
     /** Allocate memory for internal structures.
      *
      * @param type type of variables
-- 
2.43.0


From 243c6be356682789784cebe77f69c976e92230bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:44 +0000
Subject: [PATCH 16/28] fix: quote symbols in printed models

Names which are not simple symbols, and reserved words, were printed
without quotes, so that the model could not be read back.
---
 src/parser/Smt2_parser.cpp | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/src/parser/Smt2_parser.cpp b/src/parser/Smt2_parser.cpp
index 5af0b0f..c9e7b50 100644
--- a/src/parser/Smt2_parser.cpp
+++ b/src/parser/Smt2_parser.cpp
@@ -1,7 +1,11 @@
 #include "Smt2_parser.h"
 
+#include <algorithm>
+#include <cctype>
 #include <stdexcept>
 #include <fstream>
+#include <sstream>
+#include <string_view>
 #include <vector>
 
 #include "Smt2_term_parser.h"
@@ -30,6 +34,30 @@ class Print_model final : public Default_model_visitor {
             output << std::get<Rational>(var);
     }
 
+    // true iff name can be printed without quotes
+    bool is_simple_symbol(std::string_view name) {
+        auto is_symbol_char = [](unsigned char c) {
+            return std::isalnum(c) || std::string_view{"~!@$%^&*+=<>.?/_-"}.find(c) != std::string_view::npos;
+        };
+        if (name.empty() || std::isdigit(static_cast<unsigned char>(name[0])) ||
+            !std::all_of(name.begin(), name.end(), is_symbol_char))
+        {
+            return false;
+        }
+        // reserved words have to be quoted
+        std::istringstream input{std::string{name}};
+        smt2_lexer lexer;
+        lexer.yyrestart(input);
+        return lexer.next_token() == Token::SYMBOL;
+    }
+
+    void print_symbol(std::string_view name) {
+        if (is_simple_symbol(name))
+            output << name;
+        else
+            output << "|" << name << "|";
+    }
+
     void print_type(type_t type) {
         switch (type) {
         default:
@@ -73,7 +101,9 @@ public:
     {
         if (auto name = term_manager.get_term_name(term))
         {
-            output << "(define-fun " << *name << " () ";
+            output << "(define-fun ";
+            print_symbol(*name);
+            output << " () ";
             print_type((int) value.index());
             output << " ";
             print_variable(value);
@@ -92,7 +122,9 @@ public:
     {
         if (auto name = term_manager.get_term_name(term))
         {
-            output << "(define-fun " << *name << " (";
+            output << "(define-fun ";
+            print_symbol(*name);
+            output << " (";
 
             std::vector<std::string> arg_names;
             auto arg_vector = values.begin()->first;
-- 
2.43.0


From 62675078de531f596fa1449385a1310ccfd6ad91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:48 +0000
Subject: [PATCH 17/28] fix: forward resolved conflicts to the parts of a
 combined order

They were reported to the parts as learned clauses.
---
 src/variable_order/Combined_order.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/variable_order/Combined_order.h b/src/variable_order/Combined_order.h
index c493c08..63d1905 100644
--- a/src/variable_order/Combined_order.h
+++ b/src/variable_order/Combined_order.h
@@ -100,7 +100,7 @@ public:
     {
         for (auto& heuristic : heuristics)
         {
-            heuristic->on_learned_clause(db, trail, other);
+            heuristic->on_conflict_resolved(db, trail, other);
         }
     }
 
-- 
2.43.0


From f3efe08015c9681e8a33e08a5cf890c193da580d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:36 +0000
Subject: [PATCH 18/28] fix: update the queue of a bumped variable after
 rescaling scores

The variable kept its old score in the priority queue if its bump exceeded
the threshold.
---
 src/variable_order/Generalized_vsids.h | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/variable_order/Generalized_vsids.h b/src/variable_order/Generalized_vsids.h
index 5e3423a..d2eb3d8 100644
--- a/src/variable_order/Generalized_vsids.h
+++ b/src/variable_order/Generalized_vsids.h
@@ -165,11 +165,8 @@ private:
         {
             rescale();
         }
-        else
-        {
-            variables.update(var, score(var));
-            effectively_decided.update(var, score(var));
-        }
+        variables.update(var, score(var));
+        effectively_decided.update(var, score(var));
     }
 };
 
-- 
2.43.0


From bd5c7cc6e5e2b8b9867b85ddb8bcd02885fb2da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:36 +0000
Subject: [PATCH 19/28] fix: reset scores in the queue in a new check

The priority queue kept the scores of the previous check.
---
 src/variable_order/Generalized_vsids.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/variable_order/Generalized_vsids.cpp b/src/variable_order/Generalized_vsids.cpp
index 1de3a4a..80b1aa2 100644
--- a/src/variable_order/Generalized_vsids.cpp
+++ b/src/variable_order/Generalized_vsids.cpp
@@ -19,11 +19,14 @@ void Generalized_vsids::on_variable_resize(Variable::Type type, int num_vars)
 
 void Generalized_vsids::on_init(Database& db, Trail&)
 {
-    for (auto& scores : vsids)
+    for (std::size_t type = 0; type < vsids.size(); ++type)
     {
-        for (auto& score : scores)
+        for (std::size_t ord = 0; ord < vsids[type].size(); ++ord)
         {
-            score = 0.0f;
+            Variable var{static_cast<int>(ord), static_cast<Variable::Type>(type)};
+            score(var) = 0.0f;
+            variables.update(var, 0.0f);
+            effectively_decided.update(var, 0.0f);
         }
     }
 
-- 
2.43.0


From 28839155d88ad9bdf8bc356efb4e40dc65b4a401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:36 +0000
Subject: [PATCH 20/28] fix: implement is_before() in the combined order

The class was abstract, it could not be used at all.
---
 src/variable_order/Combined_order.h | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/variable_order/Combined_order.h b/src/variable_order/Combined_order.h
index 63d1905..7bd96f1 100644
--- a/src/variable_order/Combined_order.h
+++ b/src/variable_order/Combined_order.h
@@ -138,6 +138,28 @@ public:
         return {};
     }
 
+    /** Compare variables by the first heuristic added by `add()` which orders them
+     *
+     * @param lhs first variable
+     * @param rhs second variable
+     * @return true iff @p lhs should be decided before @p rhs
+     */
+    inline bool is_before(Variable lhs, Variable rhs) const override
+    {
+        for (auto const& heuristic : heuristics)
+        {
+            if (heuristic->is_before(lhs, rhs))
+            {
+                return true;
+            }
+            if (heuristic->is_before(rhs, lhs))
+            {
+                return false;
+            }
+        }
+        return false;
+    }
+
 private:
     // variable order heuristics
     std::deque<std::unique_ptr<Variable_order>> heuristics;
-- 
2.43.0


From 8d1fd96bcb4f08fbb8405af570f6d7368584dada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:14 +0000
Subject: [PATCH 21/28] fix: support linear constraints without variables

The facade created a variable of such a constraint without any meaning and
watched a variable of an empty list.
---
 src/Yaga.h                  | 9 +++++++--
 src/lra/Linear_arithmetic.h | 5 ++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/Yaga.h b/src/Yaga.h
index 29b556b..7127d18 100644
--- a/src/Yaga.h
+++ b/src/Yaga.h
@@ -188,8 +188,13 @@ public:
             }
         }
 
-        return lra->constraint(smt.trail(), std::forward<Var_range>(vars), 
-                               std::forward<Coef_range>(coef), pred, rhs).lit();
+        auto cons = lra->constraint(smt.trail(), std::forward<Var_range>(vars), 
+                                    std::forward<Coef_range>(coef), pred, rhs);
+        if (cons.empty()) // constraints without variables are represented by `0 = 0`
+        {
+            assert_clause(Literal{cons.lit().var().ord()});
+        }
+        return cons.lit();
     }
 
     std::ranges::ref_view<std::unordered_map<yaga::terms::term_t, int> > real_vars();
diff --git a/src/lra/Linear_arithmetic.h b/src/lra/Linear_arithmetic.h
index 7286aac..99c70f6 100644
--- a/src/lra/Linear_arithmetic.h
+++ b/src/lra/Linear_arithmetic.h
@@ -120,7 +120,10 @@ public:
                 }
             }
             add_variable(trail, models, cons.lit().var());
-            watch(cons, models.owned());
+            if (!cons.empty())
+            {
+                watch(cons, models.owned());
+            }
         }
         return cons;
     }
-- 
2.43.0


From 6e30aafd812b5bf30e0b4f44238c3f278f2a191c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:00 +0000
Subject: [PATCH 22/28] fix: reject negative numbers in the DIMACS problem line

---
 src/sat_solver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sat_solver.cpp b/src/sat_solver.cpp
index a7235bf..6b8c24d 100644
--- a/src/sat_solver.cpp
+++ b/src/sat_solver.cpp
@@ -64,7 +64,7 @@ int main(int argc, char** argv)
             }
             is_initialized = true;
             stream.seekg(5);
-            if (!(stream >> num_vars >> num_clauses))
+            if (!(stream >> num_vars >> num_clauses) || num_vars < 0 || num_clauses < 0)
             {
                 std::cerr << "Error: failed to parse the DIMACS problem line." 
                     << " Expected: 'p cnf [num_vars] [num_clauses]'\n";
-- 
2.43.0


From 19aaae0ce56862da63bf254d994975245f26794d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:54 +0000
Subject: [PATCH 23/28] fix: read symbols which contain a null character

---
 src/parser/Flex_lexer.cpp | 4 ++--
 src/parser/Flex_lexer.h   | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/parser/Flex_lexer.cpp b/src/parser/Flex_lexer.cpp
index 7e29974..c157621 100644
--- a/src/parser/Flex_lexer.cpp
+++ b/src/parser/Flex_lexer.cpp
@@ -58,9 +58,9 @@ bool Flex_lexer::skip_to_depth(int target_depth)
     return true;
 }
 
-char const* Flex_lexer::token_string()
+std::string Flex_lexer::token_string()
 {
-    return YYText();
+    return std::string(YYText(), YYLeng());
 }
 
 
diff --git a/src/parser/Flex_lexer.h b/src/parser/Flex_lexer.h
index 4b501b1..c02ef2f 100644
--- a/src/parser/Flex_lexer.h
+++ b/src/parser/Flex_lexer.h
@@ -8,6 +8,7 @@
 
 #include "smt2_tokens.h"
 
+#include <string>
 #include <string_view>
 
 namespace yaga::parser {
@@ -54,7 +55,7 @@ public:
     /**
      * Gets the string representation of the last consumed token
      */
-    char const* token_string();
+    std::string token_string();
 
 };
 
-- 
2.43.0


From 8199ed4430c875f8907d5a64b0798c1e7000323d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:07 +0000
Subject: [PATCH 24/28] fix: forget the last answer when the logic is set

---
 src/parser/Smt2_parser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/Smt2_parser.cpp b/src/parser/Smt2_parser.cpp
index c9e7b50..1bd30ea 100644
--- a/src/parser/Smt2_parser.cpp
+++ b/src/parser/Smt2_parser.cpp
@@ -419,6 +419,7 @@ bool Smt2_command_context::parse_command()
     case Token::SET_LOGIC_TOK:
     {
         std::string name = term_parser.parse_symbol();
+        last_answer.reset(); // the solver is reset, there is no model
         if (name == "QF_UFLRA") {
             parser_context.set_logic(logic::qf_uflra);
         } else if (name == "QF_LRA") {
-- 
2.43.0


From ed51540e75c5f7a589da0d5e59b3c588e88db8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:09 +0000
Subject: [PATCH 25/28] fix: do not substitute into the results of a
 substitution

---
 src/terms/Term_rewriter.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/terms/Term_rewriter.h b/src/terms/Term_rewriter.h
index 8fdede3..757ab53 100644
--- a/src/terms/Term_rewriter.h
+++ b/src/terms/Term_rewriter.h
@@ -73,7 +73,8 @@ public:
             }
             term_t newTerm = needs_change ? tm.mk_term(tm.get_kind(current_term), aux_args) : current_term;
             aux_args.clear();
-            term_t rewritten = cfg.rewrite(newTerm);
+            // A rebuilt term may simplify to a variable, which must not be rewritten again.
+            term_t rewritten = needs_change ? newTerm : cfg.rewrite(newTerm);
             if (rewritten != newTerm or needs_change) {
                 assert(tm.get_type(current_term) == tm.get_type(rewritten));
                 substitutions.insert({current_term, rewritten});
-- 
2.43.0


From 8c5b1d4b9ce4524320f93eab2b691c1142cf2402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:21 +0000
Subject: [PATCH 26/28] fix: remove the variables of all types when the solver
 is initialized again

---
 src/Yaga.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Yaga.cpp b/src/Yaga.cpp
index f4f2c1d..73a704b 100644
--- a/src/Yaga.cpp
+++ b/src/Yaga.cpp
@@ -63,6 +63,11 @@ Yaga::Yaga(terms::Term_manager const& tm,
 void Yaga::init()
 {
     smt.trail().clear();
+    // remove all variables (the next logic might not use all of their types)
+    for (auto [type, _] : smt.trail().models())
+    {
+        smt.trail().resize(type, 0);
+    }
     smt.db().learned().clear();
     smt.db().asserted().clear();
 }
-- 
2.43.0


From 0514c61e579f15f642566e7022eb6c1eb6871f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:23 +0000
Subject: [PATCH 27/28] fix: a moved solver used the event dispatcher of the
 solver it was moved from

---
 src/Solver.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Solver.h b/src/Solver.h
index 75f670a..0fe0e7e 100644
--- a/src/Solver.h
+++ b/src/Solver.h
@@ -175,7 +175,9 @@ public:
     inline Theory* theory() { return solver_theory.get(); }
 
 private:
-    Event_dispatcher dispatcher;
+    // the trail refers to the dispatcher, so the dispatcher has to stay in place if the solver is moved
+    std::unique_ptr<Event_dispatcher> own_dispatcher = std::make_unique<Event_dispatcher>();
+    Event_dispatcher& dispatcher = *own_dispatcher;
     Trail solver_trail;
     Database database;
     Conflict_analysis analysis;
-- 
2.43.0


From 966536342757e70a0e0b9094cc5fdfd02a1412a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:23 +0000
Subject: [PATCH 28/28] fix: a solver created without a term manager referred
 to a destroyed one

---
 src/Solver.cpp | 7 ++++++-
 src/Solver.h   | 4 ++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/Solver.cpp b/src/Solver.cpp
index 13586df..a7a82d1 100644
--- a/src/Solver.cpp
+++ b/src/Solver.cpp
@@ -8,7 +8,12 @@ Solver::Solver(const terms::Term_manager& tm) : solver_trail(dispatcher), term_m
     dispatcher.add(subsumption.get());
 }
 
-Solver::Solver() : Solver(terms::Term_manager()) {}
+Solver::Solver(std::unique_ptr<const terms::Term_manager> tm) : Solver(*tm)
+{
+    own_term_manager = std::move(tm);
+}
+
+Solver::Solver() : Solver(std::make_unique<const terms::Term_manager>()) {}
 
 std::vector<Clause> Solver::propagate() { return theory()->propagate(database, solver_trail); }
 
diff --git a/src/Solver.h b/src/Solver.h
index 0fe0e7e..39b1997 100644
--- a/src/Solver.h
+++ b/src/Solver.h
@@ -185,6 +185,8 @@ private:
     std::unique_ptr<Theory> solver_theory;
     std::unique_ptr<Restart> restart_policy;
     std::unique_ptr<Variable_order> variable_order;
+    // term manager of a solver which was created without one
+    std::unique_ptr<const terms::Term_manager> own_term_manager;
     const terms::Term_manager& term_manager;
     int num_bool_vars = 0;
 
@@ -198,6 +200,8 @@ private:
     int total_restarts = 0;
     int total_decisions = 0;
 
+    explicit Solver(std::unique_ptr<const terms::Term_manager> tm);
+
     // run propagate in theory
     [[nodiscard]] std::vector<Clause> propagate();
     // analyze conflict clauses
-- 
2.43.0

