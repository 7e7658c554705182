From 1fe6af2aba7721c07b9d56b0a1e8b773fda57315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:44 +0000
Subject: [PATCH 01/18] fix: x / 1.0 returned the divisor 1.0 instead of the
 dividend

---
 src/arithmetics/division.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arithmetics/division.rs b/src/arithmetics/division.rs
index d89d13f..de9dc52 100644
--- a/src/arithmetics/division.rs
+++ b/src/arithmetics/division.rs
@@ -71,7 +71,7 @@ impl Expression {
             }
             Expression::Real(real_divisor) => {
                 if real_divisor == &Symbol::real(1.0) {
-                    return divisor;
+                    return dividend;
                 }
                 if real_divisor == &Symbol::real(-1.0) {
                     return Expression::multiplication(vec![dividend, Symbol::real(-1.0).expr()]);
-- 
2.43.0


From f827b73bdc2de48eb5451c71e37ec0c88d1a9f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:11 +0000
Subject: [PATCH 02/18] fix: integer power to a negative integer multiple
 (2^(-x)) recursed until stack overflow

---
 src/exponential/power.rs | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/exponential/power.rs b/src/exponential/power.rs
index 10623f0..18470e1 100644
--- a/src/exponential/power.rs
+++ b/src/exponential/power.rs
@@ -159,13 +159,28 @@ impl Expression {
                                 _ => false,
                             })
                         {
-                            let other_factors = exponent_factors.get(&|factor| match factor {
-                                Expression::Integer(_) => false,
-                                _ => true,
-                            });
+                            let mut other_factors =
+                                exponent_factors.get(&|factor| match factor {
+                                    Expression::Integer(_) => false,
+                                    _ => true,
+                                });
+                            /* A negative integer to integer power is a power itself, which would
+                             * merge back into this same expression: the sign stays in the exponent */
+                            let base_exponent = match &integer_exponent_factor {
+                                Expression::Integer(n) if n.is_negative() => {
+                                    other_factors.push(Symbol::integer(-1).expr());
+                                    n.opposite()
+                                }
+                                Expression::Integer(n) => n.clone(),
+                                _ => Symbol::integer(1),
+                            };
+                            let exponent = Expression::multiplication(other_factors);
+                            if base_exponent == Symbol::integer(1) {
+                                return Expression::Power(AssociativeOperation::new(base, exponent));
+                            }
                             return Expression::power(
-                                Expression::power(base, integer_exponent_factor), /* Recursion: int to int */
-                                Expression::multiplication(other_factors),
+                                Expression::power(base, base_exponent.expr()), /* Recursion: int to int */
+                                exponent,
                             );
                         }
                     }
-- 
2.43.0


From 409d7267a9bc415ff918e8befddcbd86becb5152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:30 +0000
Subject: [PATCH 03/18] fix: power panicked for integers beyond the machine
 word with a real base or exponent

---
 src/exponential/power.rs | 8 ++++----
 src/symbols/integer.rs   | 6 ++++++
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/exponential/power.rs b/src/exponential/power.rs
index 18470e1..45eebed 100644
--- a/src/exponential/power.rs
+++ b/src/exponential/power.rs
@@ -131,8 +131,8 @@ impl Expression {
                         }
                     }
                     /* Simplification (Integer to Real) */
-                    Expression::Real(real_exponent) => {
-                        let base_value: f64 = integer_base.value().unwrap() as f64;
+                    Expression::Real(real_exponent) if integer_base.approximate().is_finite() => {
+                        let base_value: f64 = integer_base.approximate();
                         let exp_value: f64 = real_exponent.value().unwrap();
                         return Symbol::real(base_value.powf(exp_value)).expr();
                     }
@@ -140,7 +140,7 @@ impl Expression {
                     Expression::Multiplication(exponent_factors) => {
                         if let Some(real_exponent_factor) =
                             exponent_factors.get_one(&|factor| match factor {
-                                Expression::Real(_) => true,
+                                Expression::Real(_) => integer_base.approximate().is_finite(),
                                 _ => false,
                             })
                         {
@@ -203,7 +203,7 @@ impl Expression {
                     /* Simplification (Real to Integer) */
                     Expression::Integer(integer_exponent) => {
                         let base_value: f64 = real_base.value().unwrap();
-                        let exp_value: f64 = integer_exponent.value().unwrap() as f64;
+                        let exp_value: f64 = integer_exponent.approximate();
                         return Symbol::real(base_value.powf(exp_value)).expr();
                     }
                     /* Simplification (Real to multiplication with Integer or Real) */
diff --git a/src/symbols/integer.rs b/src/symbols/integer.rs
index 8d787b1..3145d8c 100644
--- a/src/symbols/integer.rs
+++ b/src/symbols/integer.rs
@@ -13,6 +13,12 @@ impl Symbol<BigInt> {
     pub fn value(&self) -> Option<isize> {
         num::traits::ToPrimitive::to_isize(&self.data)
     }
+    /**
+     * Nearest real value, infinite for an integer out of the real range
+     */
+    pub fn approximate(&self) -> f64 {
+        num::traits::ToPrimitive::to_f64(&self.data).unwrap()
+    }
     pub fn label(&self) -> String {
         format!("{}", self.data)
     }
-- 
2.43.0


From a9a5ac66ab2b1d317f62a2866fcc148285779e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:31 +0000
Subject: [PATCH 04/18] fix: a negative integer denominator stayed inside the
 power, so equal rationals differed

---
 src/exponential/power.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/exponential/power.rs b/src/exponential/power.rs
index 45eebed..848992b 100644
--- a/src/exponential/power.rs
+++ b/src/exponential/power.rs
@@ -118,12 +118,25 @@ impl Expression {
                     /* Simplification (Integer to Integer) */
                     Expression::Integer(integer_exponent) => {
                         if integer_exponent.is_negative() {
-                            /* Rational Denominator */
+                            /* Rational Denominator, keeps signal separated */
+                            let denominator =
+                                integer_base.pow(&integer_exponent.opposite()).unwrap();
+                            if denominator == Symbol::integer(1)
+                                || denominator == Symbol::integer(-1)
+                            {
+                                return denominator.expr();
+                            }
+                            if denominator.is_negative() {
+                                return Expression::multiplication(vec![
+                                    Symbol::integer(-1).expr(),
+                                    Expression::Power(AssociativeOperation::new(
+                                        denominator.opposite().expr(),
+                                        Symbol::integer(-1).expr(),
+                                    )),
+                                ]);
+                            }
                             return Expression::Power(AssociativeOperation::new(
-                                integer_base
-                                    .pow(&integer_exponent.opposite())
-                                    .unwrap()
-                                    .expr(),
+                                denominator.expr(),
                                 Symbol::integer(-1).expr(),
                             ));
                         } else {
-- 
2.43.0


From c55226ff9a6af65407ff2882a5f6447ea1fef595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:32 +0000
Subject: [PATCH 05/18] fix: multiplication panicked for a real times a
 negative integer beyond the machine word

---
 src/arithmetics/multiplication.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/arithmetics/multiplication.rs b/src/arithmetics/multiplication.rs
index 92d11cb..f8a2d69 100644
--- a/src/arithmetics/multiplication.rs
+++ b/src/arithmetics/multiplication.rs
@@ -59,10 +59,12 @@ impl Expression {
         }
 
         if integer < Symbol::integer(-1) && real != Symbol::real(1.0) {
-            let real_value = real.value().unwrap();
-            let integer_value = integer.value().unwrap();
-            real = Symbol::real(real_value * (integer_value * -1) as f64);
-            integer = Symbol::integer(-1);
+            let product = real.value().unwrap() * integer.opposite().approximate();
+            /* Both parts are kept when the integer is out of the real range */
+            if product.is_finite() {
+                real = Symbol::real(product);
+                integer = Symbol::integer(-1);
+            }
         }
 
         if integer != Symbol::integer(1) {
-- 
2.43.0


From 5a0d550130a24ee47e3d06c9c1cfa8a664fe5265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:54 +0000
Subject: [PATCH 06/18] fix: integer logarithm was folded from a rounded
 quotient (log(2^62+1, 2) gave 62) and panicked beyond the machine word

---
 src/exponential/logarithm.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/exponential/logarithm.rs b/src/exponential/logarithm.rs
index c228335..f246ca1 100644
--- a/src/exponential/logarithm.rs
+++ b/src/exponential/logarithm.rs
@@ -12,10 +12,17 @@ impl Expression {
             }
             Expression::Integer(integer_argument) => match &base {
                 Expression::Integer(integer_base) => {
-                    let log_result: f64 =
-                        (integer_argument.value().unwrap() as f64).log(integer_base.value().unwrap() as f64);
-                    if (log_result as isize) as f64 == log_result {
-                        return Symbol::integer(log_result as isize).expr();
+                    /* Folds exact powers of the base only */
+                    if integer_base > &Symbol::integer(1) && integer_argument > &Symbol::integer(0) {
+                        let mut exponent = Symbol::integer(0);
+                        let mut remaining = integer_argument.clone();
+                        while &remaining % integer_base == Symbol::integer(0) {
+                            remaining = &remaining / integer_base;
+                            exponent = exponent + Symbol::integer(1);
+                        }
+                        if remaining == Symbol::integer(1) {
+                            return exponent.expr();
+                        }
                     }
                 }
                 _ => {}
-- 
2.43.0


From 425c6dd652c52f8f18b63d1c1740af071189b6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:05 +0000
Subject: [PATCH 07/18] fix: simplify panicked on integer coefficients beyond
 the machine word

---
 .../factoring/additive_common_addend.rs         | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/manipulation/simplification_rules/factoring/additive_common_addend.rs b/src/manipulation/simplification_rules/factoring/additive_common_addend.rs
index 1c54e1e..0f2a403 100644
--- a/src/manipulation/simplification_rules/factoring/additive_common_addend.rs
+++ b/src/manipulation/simplification_rules/factoring/additive_common_addend.rs
@@ -2,6 +2,7 @@ use crate::base::expression::Expression;
 use crate::base::symbol::Symbol;
 use crate::manipulation::simplification_rules::rule::Rule;
 
+use num::bigint::BigInt;
 use std::collections::HashMap;
 
 pub struct AdditiveCommonAddend {}
@@ -9,12 +10,12 @@ impl Rule for AdditiveCommonAddend {
     fn apply(expression: &Expression) -> Expression {
         match expression {
             Expression::Addition(addends) => {
-                let mut addend_count_list: HashMap<Expression, isize> = HashMap::new();
+                let mut addend_count_list: HashMap<Expression, Symbol<BigInt>> = HashMap::new();
 
                 fn update_addend_list(
-                    mapping: &mut HashMap<Expression, isize>,
+                    mapping: &mut HashMap<Expression, Symbol<BigInt>>,
                     addend: &Expression,
-                    counter: isize,
+                    counter: Symbol<BigInt>,
                 ) {
                     let opposite = &-addend;
 
@@ -45,26 +46,26 @@ impl Rule for AdditiveCommonAddend {
                                     update_addend_list(
                                         &mut addend_count_list,
                                         &Expression::multiplication(remaining_factors),
-                                        integer.value().unwrap(),
+                                        integer,
                                     );
                                 }
 
                                 /* No Integer factor in multiplication */
                                 _ => {
-                                    update_addend_list(&mut addend_count_list, addend, 1);
+                                    update_addend_list(&mut addend_count_list, addend, Symbol::integer(1));
                                 }
                             };
                         }
                         /* Not multiplication */
                         _ => {
-                            update_addend_list(&mut addend_count_list, addend, 1);
+                            update_addend_list(&mut addend_count_list, addend, Symbol::integer(1));
                         }
                     }
                 }
                 let addends: Vec<Expression> = addend_count_list
                     .iter()
-                    .filter(|&(_, counter)| counter != &0)
-                    .map(|(expression, counter)| Symbol::integer(*counter).expr() * expression)
+                    .filter(|&(_, counter)| counter != &Symbol::integer(0))
+                    .map(|(expression, counter)| counter.clone().expr() * expression)
                     .collect();
 
                 return Expression::addition(addends);
-- 
2.43.0


From 5b5f55f67bc892bad505c5567e8843a7111995bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:17 +0000
Subject: [PATCH 08/18] fix: simplify turned a^(-n*b) into 1/(a^n*b)

---
 .../factoring/single_algebraic_denominator.rs        | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/manipulation/simplification_rules/factoring/single_algebraic_denominator.rs b/src/manipulation/simplification_rules/factoring/single_algebraic_denominator.rs
index 2aea09d..1010447 100644
--- a/src/manipulation/simplification_rules/factoring/single_algebraic_denominator.rs
+++ b/src/manipulation/simplification_rules/factoring/single_algebraic_denominator.rs
@@ -31,16 +31,14 @@ impl Rule for SingleAlgebraicDenominator {
                                 return power.argument().pow((n * Symbol::integer(-1)).expr())
                             }
                             Expression::Multiplication(power_factors) => {
-                                return Expression::multiplication(power_factors.map(&|factor| {
-                                    match factor {
+                                return power.argument().pow(Expression::multiplication(
+                                    power_factors.map(&|factor| match factor {
                                         Expression::Integer(n) => {
-                                            return power
-                                                .argument()
-                                                .pow((n * Symbol::integer(-1)).expr())
+                                            return (n * Symbol::integer(-1)).expr()
                                         }
                                         _ => return factor.clone(),
-                                    }
-                                }))
+                                    }),
+                                ))
                             }
                             _ => return denominator.clone(),
                         },
-- 
2.43.0


From 4b4f7ce71f780a5fc84933ab76cc237f210d93fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:36 +0000
Subject: [PATCH 09/18] fix: reals were not totally ordered (inf < 1.0, NaN)
 and -0.0 == 0.0 hashed differently

---
 src/symbols/real.rs | 43 +++++++++++--------------------------------
 1 file changed, 11 insertions(+), 32 deletions(-)

diff --git a/src/symbols/real.rs b/src/symbols/real.rs
index 1a90303..33b647f 100644
--- a/src/symbols/real.rs
+++ b/src/symbols/real.rs
@@ -21,7 +21,12 @@ impl Symbol<f64> {
 use std::hash::{Hash, Hasher};
 impl Hash for Symbol<f64> {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        let (m, e, s) = num::Float::integer_decode(self.data);
+        /* Equal values have the same hash: a single NaN, no negative zero */
+        let value = match self.data {
+            data if data.is_nan() => f64::NAN,
+            data => data + 0.0,
+        };
+        let (m, e, s) = num::Float::integer_decode(value);
         m.hash(state);
         e.hash(state);
         s.hash(state);
@@ -34,46 +39,20 @@ impl Hash for Symbol<f64> {
 impl Eq for Symbol<f64> {}
 impl PartialEq for Symbol<f64> {
     fn eq(&self, other: &Self) -> bool {
-        self.data == other.data
+        self.cmp(other) == std::cmp::Ordering::Equal
     }
 }
 impl Ord for Symbol<f64> {
     fn cmp(&self, other: &Self) -> std::cmp::Ordering {
-        if self.data > other.data {
-            return std::cmp::Ordering::Greater;
-        } else if self.data < other.data {
-            return std::cmp::Ordering::Less;
-        } else {
-            return std::cmp::Ordering::Equal;
+        /* Total order: NaN is equal to itself and greater than every other value */
+        match self.data.partial_cmp(&other.data) {
+            Some(ordering) => return ordering,
+            None => return self.data.is_nan().cmp(&other.data.is_nan()),
         }
     }
 }
 impl PartialOrd for Symbol<f64> {
     fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
-        let both_nan = self.data == std::f64::NAN || other.data == std::f64::NAN;
-        let both_ninf = self.data == std::f64::NEG_INFINITY && other.data == std::f64::NEG_INFINITY;
-        let both_inf = self.data == std::f64::INFINITY && other.data == std::f64::INFINITY;
-
-        let first_ninf =
-            self.data == std::f64::NEG_INFINITY && other.data != std::f64::NEG_INFINITY;
-        let second_ninf =
-            other.data == std::f64::NEG_INFINITY && self.data != std::f64::NEG_INFINITY;
-
-        let first_inf = self.data == std::f64::INFINITY && other.data != std::f64::INFINITY;
-        let second_inf = other.data == std::f64::INFINITY && self.data != std::f64::INFINITY;
-
-        if both_nan || both_inf || both_ninf {
-            return None;
-        }
-
-        if first_ninf || second_inf {
-            return Some(std::cmp::Ordering::Less);
-        }
-
-        if first_inf || second_ninf {
-            return Some(std::cmp::Ordering::Less);
-        }
-
         Some(self.cmp(other))
     }
 }
-- 
2.43.0


From 6265b30f8c6dc33632c28d34035d6c4ee152d771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:45 +0000
Subject: [PATCH 10/18] fix: comparisons gave no verdict when the difference is
 a rational number

---
 src/manipulation/expression_comparison.rs | 96 ++++++++++++++---------
 1 file changed, 61 insertions(+), 35 deletions(-)

diff --git a/src/manipulation/expression_comparison.rs b/src/manipulation/expression_comparison.rs
index 6e3d833..dd3fb86 100644
--- a/src/manipulation/expression_comparison.rs
+++ b/src/manipulation/expression_comparison.rs
@@ -1,65 +1,91 @@
 use crate::base::expression::Expression;
 use crate::base::symbol::Symbol;
+use num::rational::BigRational;
+use num::traits::{One, Signed, Zero};
+
+/**
+ * Exact value of an expression composed of numbers only
+ */
+fn numeric_value(expression: &Expression) -> Option<BigRational> {
+    match expression {
+        Expression::Integer(n) => return Some(BigRational::from_integer(n.data.clone())),
+        Expression::Real(r) => return BigRational::from_float(r.data),
+        Expression::Power(power) => match (power.argument(), power.modifier()) {
+            (Expression::Integer(n), Expression::Integer(exponent))
+                if exponent == Symbol::integer(-1) && n != Symbol::integer(0) =>
+            {
+                return Some(BigRational::new(One::one(), n.data));
+            }
+            _ => return None,
+        },
+        Expression::Multiplication(factors) => factors
+            .items()
+            .iter()
+            .map(|factor| numeric_value(factor))
+            .fold(Some(One::one()), |acc: Option<BigRational>, value| {
+                Some(acc? * value?)
+            }),
+        Expression::Addition(addends) => addends
+            .items()
+            .iter()
+            .map(|addend| numeric_value(addend))
+            .fold(Some(Zero::zero()), |acc: Option<BigRational>, value| {
+                Some(acc? + value?)
+            }),
+        _ => return None,
+    }
+}
 
 impl Expression {
+    /**
+     * Difference to other, when it is a known number
+     */
+    fn numeric_difference(&self, other: &Expression) -> Option<BigRational> {
+        numeric_value(&(self - other).simplify())
+    }
+
     pub fn comparable(&self, other: &Expression) -> bool {
-        match (self - other).simplify() {
-            Expression::Integer(_) => return true,
-            Expression::Real(_) => return true,
-            _ => return false,
-        }
+        self.numeric_difference(other).is_some()
     }
 
     pub fn equal(&self, other: &Self) -> bool {
-        let simplified_difference = (self - other).simplify();
-        match simplified_difference {
-            Expression::Integer(n) => return n == Symbol::integer(0),
-            Expression::Real(r) => return r == Symbol::real(0.0),
-            _ => return false,
+        match self.numeric_difference(other) {
+            Some(difference) => return difference.is_zero(),
+            None => return false,
         }
     }
 
     pub fn not_equal(&self, other: &Self) -> bool {
-        let simplified_difference = (self - other).simplify();
-        match simplified_difference {
-            Expression::Integer(n) => return n != Symbol::integer(0),
-            Expression::Real(r) => return r != Symbol::real(0.0),
-            _ => return false,
+        match self.numeric_difference(other) {
+            Some(difference) => return !difference.is_zero(),
+            None => return false,
         }
     }
 
     pub fn greater(&self, other: &Self) -> bool {
-        let simplified_difference = (self - other).simplify();
-        match simplified_difference {
-            Expression::Integer(n) => return n > Symbol::integer(0),
-            Expression::Real(r) => return r > Symbol::real(0.0),
-            _ => return false,
+        match self.numeric_difference(other) {
+            Some(difference) => return difference.is_positive(),
+            None => return false,
         }
     }
 
     pub fn lesser(&self, other: &Self) -> bool {
-        let simplified_difference = (self - other).simplify();
-        match simplified_difference {
-            Expression::Integer(n) => return n < Symbol::integer(0),
-            Expression::Real(r) => return r < Symbol::real(0.0),
-            _ => return false,
+        match self.numeric_difference(other) {
+            Some(difference) => return difference.is_negative(),
+            None => return false,
         }
     }
 
     pub fn greater_equal(&self, other: &Self) -> bool {
-        let simplified_difference = (self - other).simplify();
-        match simplified_difference {
-            Expression::Integer(n) => return n == Symbol::integer(0) || n > Symbol::integer(0),
-            Expression::Real(r) => return r == Symbol::real(0.0) || r > Symbol::real(0.0),
-            _ => return false,
+        match self.numeric_difference(other) {
+            Some(difference) => return !difference.is_negative(),
+            None => return false,
         }
     }
     pub fn lesser_equal(&self, other: &Self) -> bool {
-        let simplified_difference = (self - other).simplify();
-        match simplified_difference {
-            Expression::Integer(n) => return n == Symbol::integer(0) || n < Symbol::integer(0),
-            Expression::Real(r) => return r == Symbol::real(0.0) || r < Symbol::real(0.0),
-            _ => return false,
+        match self.numeric_difference(other) {
+            Some(difference) => return !difference.is_positive(),
+            None => return false,
         }
     }
 }
-- 
2.43.0


From 00d93f3a6566648d49f9687ddb074f796a793342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:46 +0000
Subject: [PATCH 11/18] fix: an expression with a real coefficient was not
 equal to itself

---
 src/manipulation/expression_comparison.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/manipulation/expression_comparison.rs b/src/manipulation/expression_comparison.rs
index dd3fb86..49213d2 100644
--- a/src/manipulation/expression_comparison.rs
+++ b/src/manipulation/expression_comparison.rs
@@ -41,6 +41,10 @@ impl Expression {
      * Difference to other, when it is a known number
      */
     fn numeric_difference(&self, other: &Expression) -> Option<BigRational> {
+        /* Reals keep a difference of identical expressions from cancelling out */
+        if self == other {
+            return Some(Zero::zero());
+        }
         numeric_value(&(self - other).simplify())
     }
 
-- 
2.43.0


From 8cfd9ec52cba91a2960ae5a677b1d0d682f078ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:47 +0000
Subject: [PATCH 12/18] fix: rationals kept a negative denominator

---
 src/manipulation/simplification_rules/rational/rationals.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/manipulation/simplification_rules/rational/rationals.rs b/src/manipulation/simplification_rules/rational/rationals.rs
index 8b4d7ff..ce3c9f2 100644
--- a/src/manipulation/simplification_rules/rational/rationals.rs
+++ b/src/manipulation/simplification_rules/rational/rationals.rs
@@ -62,7 +62,11 @@ impl Rational {
             };
         }
 
-        let gcd: &Symbol<BigInt> = &Symbol::gcd(&numerator, &denominator);
+        /* The denominator is kept positive */
+        let gcd: &Symbol<BigInt> = &match Symbol::gcd(&numerator, &denominator) {
+            gcd if denominator.is_negative() => gcd.opposite(),
+            gcd => gcd,
+        };
 
         return Self {
             numerator: numerator / gcd,
-- 
2.43.0


From d5ffd23bc46b2e28244569d9dfcd5b631260035e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:07 +0000
Subject: [PATCH 13/18] fix: expand and simplify left an integer power of a
 product, so (a*b)^2 - a*a*b*b did not cancel

---
 src/manipulation/expand.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/manipulation/expand.rs b/src/manipulation/expand.rs
index 5e313d4..118ee2c 100644
--- a/src/manipulation/expand.rs
+++ b/src/manipulation/expand.rs
@@ -5,7 +5,8 @@ use crate::{
     base::expression::Expression,
     manipulation::expansion_rules::{
         multiplicative_distributive::MultiplicativeDistributive,
-        power_distributive_addition::PowerDistributiveAddition, rule::Rule,
+        power_distributive_addition::PowerDistributiveAddition,
+        power_distributive_multiplication::PowerDistributiveMultiplication, rule::Rule,
     },
 };
 
@@ -23,10 +24,20 @@ impl Expression {
             }
 
             Expression::Power(power) => {
-                return PowerDistributiveAddition::apply(&Expression::power(
-                    power.argument().expand(),
-                    power.modifier().expand(),
-                ));
+                let expanded_power =
+                    Expression::power(power.argument().expand(), power.modifier().expand());
+
+                match &expanded_power {
+                    Expression::Power(power) => match (power.argument(), power.modifier()) {
+                        /* Integer exponents distribute on factors */
+                        (Expression::Multiplication(_), Expression::Integer(_)) => {
+                            return PowerDistributiveMultiplication::apply(&expanded_power).expand()
+                        }
+                        _ => {}
+                    },
+                    _ => {}
+                }
+                return PowerDistributiveAddition::apply(&expanded_power);
             }
             Expression::Logarithm(log) => {
                 return Expression::logarithm(log.argument().expand(), log.modifier().expand())
-- 
2.43.0


From 584407108b3c1c36fe59efdc1d49cb60e3a2492b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:43 +0000
Subject: [PATCH 14/18] fix: simplify returned its input unsimplified when it
 expands to a single symbol (1 - (1 - a))

---
 src/manipulation/simplifiable.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/manipulation/simplifiable.rs b/src/manipulation/simplifiable.rs
index 6422a0d..4496fae 100644
--- a/src/manipulation/simplifiable.rs
+++ b/src/manipulation/simplifiable.rs
@@ -19,7 +19,7 @@ use crate::{
 impl Expression {
     pub fn simplify(self) -> Expression {
         /* recursive expansion */
-        match self.clone().expand() {
+        match self.expand() {
             Expression::Multiplication(factors) => {
                 let simplified_inner_factors =
                     Expression::multiplication(factors.map(&|factor| factor.clone().simplify()));
@@ -50,7 +50,7 @@ impl Expression {
                 return Expression::logarithm(log.argument().simplify(), log.modifier().simplify())
             }
 
-            _ => return self,
+            expanded => return expanded,
         }
     }
 }
-- 
2.43.0


From 27ed3a33d18ab0f08dd24dbf07b82dc0849bf789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:08 +0000
Subject: [PATCH 15/18] fix: a sum with the real -1.0 kept two integers apart
 (1 + a - 1.0)

---
 src/arithmetics/addition.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/arithmetics/addition.rs b/src/arithmetics/addition.rs
index 62e070b..60c6089 100644
--- a/src/arithmetics/addition.rs
+++ b/src/arithmetics/addition.rs
@@ -45,6 +45,12 @@ impl Expression {
             }
         }
 
+        /* Separating its sign leaves no real part of -1.0, only an integer */
+        if real == Symbol::real(-1.0) {
+            integer = integer - Symbol::integer(1);
+            real = Symbol::real(0.0);
+        }
+
         if integer < Symbol::integer(0) {
             items_vec.push(Expression::multiplication(vec![
                 Symbol::integer(-1).expr(),
-- 
2.43.0


From be52c14d46547e3290c0d505d7d8a254117924e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:36 +0000
Subject: [PATCH 16/18] fix: a product of reals that underflows to zero
 vanishes instead of keeping a factor 0

---
 src/arithmetics/multiplication.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/arithmetics/multiplication.rs b/src/arithmetics/multiplication.rs
index f8a2d69..b5bdb37 100644
--- a/src/arithmetics/multiplication.rs
+++ b/src/arithmetics/multiplication.rs
@@ -58,6 +58,11 @@ impl Expression {
             }
         }
 
+        /* Small reals may underflow to zero together */
+        if real == Symbol::real(0.0) {
+            return Symbol::integer(0).expr();
+        }
+
         if integer < Symbol::integer(-1) && real != Symbol::real(1.0) {
             let product = real.value().unwrap() * integer.opposite().approximate();
             /* Both parts are kept when the integer is out of the real range */
-- 
2.43.0


From b91210f0faae374d3efe2eb07e7f7335551c7f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:34 +0000
Subject: [PATCH 17/18] fix: the sign of a negative real to a large integer
 power was that of the rounded exponent

---
 src/exponential/power.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/exponential/power.rs b/src/exponential/power.rs
index 848992b..5419a55 100644
--- a/src/exponential/power.rs
+++ b/src/exponential/power.rs
@@ -217,7 +217,13 @@ impl Expression {
                     Expression::Integer(integer_exponent) => {
                         let base_value: f64 = real_base.value().unwrap();
                         let exp_value: f64 = integer_exponent.approximate();
-                        return Symbol::real(base_value.powf(exp_value)).expr();
+                        /* The parity of a large exponent is lost in its approximation */
+                        let is_odd = integer_exponent % Symbol::integer(2) != Symbol::integer(0);
+                        let power_value = base_value.abs().powf(exp_value);
+                        if base_value < 0.0 && is_odd {
+                            return Symbol::real(-power_value).expr();
+                        }
+                        return Symbol::real(power_value).expr();
                     }
                     /* Simplification (Real to multiplication with Integer or Real) */
                     Expression::Multiplication(exponent_factors) => {
-- 
2.43.0


From 5cfb20a5cf30db185527c1eceb670a1dc51b425c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:35 +0000
Subject: [PATCH 18/18] fix: verdicts of a comparison could depend on which
 side was asked

---
 src/manipulation/expression_comparison.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/manipulation/expression_comparison.rs b/src/manipulation/expression_comparison.rs
index 49213d2..5910578 100644
--- a/src/manipulation/expression_comparison.rs
+++ b/src/manipulation/expression_comparison.rs
@@ -45,7 +45,9 @@ impl Expression {
         if self == other {
             return Some(Zero::zero());
         }
+        /* Either side may be the one whose simplification cancels the other */
         numeric_value(&(self - other).simplify())
+            .or_else(|| numeric_value(&(other - self).simplify()).map(|difference| -difference))
     }
 
     pub fn comparable(&self, other: &Expression) -> bool {
-- 
2.43.0

