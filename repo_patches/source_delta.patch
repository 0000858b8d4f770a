From 55eabf0128540c89c1cc92c9352f3051c231b0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:31 +0000
Subject: [PATCH 01/49] fix: compare FLOAT with DECIMAL in f64 for <= and >= as
 the other operators do

---
 src/types_db/value.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/types_db/value.rs b/src/types_db/value.rs
index 66ea03f..418a9e7 100644
--- a/src/types_db/value.rs
+++ b/src/types_db/value.rs
@@ -1503,7 +1503,7 @@ impl Type for Value {
             (Val::Float(a), Val::SmallInt(b)) => CmpBool::from(*a <= *b as f32),
             (Val::Float(a), Val::Integer(b)) => CmpBool::from(*a <= *b as f32),
             (Val::Float(a), Val::BigInt(b)) => CmpBool::from(*a <= *b as f32),
-            (Val::Float(a), Val::Decimal(b)) => CmpBool::from(*a <= *b as f32),
+            (Val::Float(a), Val::Decimal(b)) => CmpBool::from((*a as f64) <= *b),
             (Val::Decimal(a), Val::Integer(b)) => CmpBool::from(*a <= *b as f64),
             (Val::Decimal(a), Val::BigInt(b)) => CmpBool::from(*a <= *b as f64),
             (Val::Decimal(a), Val::Float(b)) => CmpBool::from(*a <= *b as f64),
@@ -1616,7 +1616,7 @@ impl Type for Value {
             (Val::Float(a), Val::SmallInt(b)) => CmpBool::from(*a >= *b as f32),
             (Val::Float(a), Val::Integer(b)) => CmpBool::from(*a >= *b as f32),
             (Val::Float(a), Val::BigInt(b)) => CmpBool::from(*a >= *b as f32),
-            (Val::Float(a), Val::Decimal(b)) => CmpBool::from(*a >= *b as f32),
+            (Val::Float(a), Val::Decimal(b)) => CmpBool::from((*a as f64) >= *b),
             (Val::Float(a), Val::Float(b)) => CmpBool::from(*a >= *b),
             _ => {
                 // Check if types match before comparing values
-- 
2.43.0


From a2530ec68a9dbba470f2b2f5e276ed011d0f4f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:37 +0000
Subject: [PATCH 02/49] fix: compare numeric operands of different types by
 value, not after a truncating cast

---
 src/sql/execution/expressions/comparison_expression.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sql/execution/expressions/comparison_expression.rs b/src/sql/execution/expressions/comparison_expression.rs
index 4d1c9be..87617c6 100644
--- a/src/sql/execution/expressions/comparison_expression.rs
+++ b/src/sql/execution/expressions/comparison_expression.rs
@@ -92,8 +92,10 @@ impl ComparisonExpression {
             return Ok(CmpBool::CmpNull);
         }
 
-        // If types are different, try casting to make them comparable
-        if lhs.get_type_id() != rhs.get_type_id() {
+        // If types are different, try casting to make them comparable. Numeric operands are
+        // compared directly: a cast to the narrower type would truncate (1.5 > 1).
+        let both_numeric = lhs.is_numeric() && rhs.is_numeric();
+        if lhs.get_type_id() != rhs.get_type_id() && !both_numeric {
             // Try casting left to right type first
             if let Ok(cast_lhs) = lhs.cast_to(rhs.get_type_id()) {
                 let cast_result = match self.comp_type {
-- 
2.43.0


From 35e0e72f7b568c8b1e906e4eab3f1440d5d32cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:20 +0000
Subject: [PATCH 03/49] fix: casting a floating point value outside the integer
 type's range is an error

---
 src/types_db/value.rs | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/types_db/value.rs b/src/types_db/value.rs
index 418a9e7..bb133eb 100644
--- a/src/types_db/value.rs
+++ b/src/types_db/value.rs
@@ -246,6 +246,23 @@ impl Value {
         self.type_id_
     }
 
+    /// Returns true if this floating point value, truncated, is in the range of the integer type.
+    fn float_fits_integer(&self, target_type: TypeId) -> bool {
+        let f = match &self.value_ {
+            Val::Decimal(f) => f.trunc(),
+            Val::Float(f) => f64::from(*f).trunc(),
+            _ => return false,
+        };
+        match target_type {
+            TypeId::TinyInt => f >= i8::MIN as f64 && f <= i8::MAX as f64,
+            TypeId::SmallInt => f >= i16::MIN as f64 && f <= i16::MAX as f64,
+            TypeId::Integer => f >= i32::MIN as f64 && f <= i32::MAX as f64,
+            // i64::MAX is not representable; the next f64 up is out of range
+            TypeId::BigInt => f >= i64::MIN as f64 && f < i64::MAX as f64,
+            _ => false,
+        }
+    }
+
     fn is_zero(&self, val: &Value) -> bool {
         match val.get_val() {
             Val::Integer(i) => *i == 0,
@@ -605,6 +622,15 @@ impl Value {
                 target_type,
             )),
 
+            // A floating point value outside the target's range cannot be represented.
+            (
+                Val::Decimal(_) | Val::Float(_),
+                TypeId::TinyInt | TypeId::SmallInt | TypeId::Integer | TypeId::BigInt,
+            ) if !self.float_fits_integer(target_type) => Err(format!(
+                "{:?} value {} out of range for {:?}",
+                self.type_id_, self, target_type
+            )),
+
             // Decimal conversions
             (Val::Decimal(f), TypeId::Boolean) => {
                 Ok(Value::new_with_type(Val::Boolean(*f != 0.0), target_type))
-- 
2.43.0


From 6d9fadaf44cac57aaf83e4dc0f7f09cdd1c7c4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:56 +0000
Subject: [PATCH 04/49] fix: report integer overflow in Value arithmetic
 instead of panicking or wrapping

---
 src/types_db/value.rs | 115 +++++++++++++++++++++++++++++-------------
 1 file changed, 80 insertions(+), 35 deletions(-)

diff --git a/src/types_db/value.rs b/src/types_db/value.rs
index bb133eb..0a9cb5c 100644
--- a/src/types_db/value.rs
+++ b/src/types_db/value.rs
@@ -1330,6 +1330,10 @@ impl Value {
     }
 }
 
+fn overflow() -> String {
+    "Integer overflow".to_string()
+}
+
 impl Type for Value {
     fn get_type_id(&self) -> TypeId {
         self.type_id_
@@ -1661,44 +1665,48 @@ impl Type for Value {
         }
 
         match (&self.value_, &other.value_) {
-            (Val::Integer(a), Val::Integer(b)) => {
-                Ok(Value::new_with_type(Val::Integer(a + b), TypeId::Integer))
-            },
-            (Val::BigInt(a), Val::BigInt(b)) => {
-                Ok(Value::new_with_type(Val::BigInt(a + b), TypeId::BigInt))
-            },
+            (Val::Integer(a), Val::Integer(b)) => Ok(Value::new_with_type(
+                Val::Integer(a.checked_add(*b).ok_or_else(overflow)?),
+                TypeId::Integer,
+            )),
+            (Val::BigInt(a), Val::BigInt(b)) => Ok(Value::new_with_type(
+                Val::BigInt(a.checked_add(*b).ok_or_else(overflow)?),
+                TypeId::BigInt,
+            )),
             (Val::Integer(a), Val::BigInt(b)) => Ok(Value::new_with_type(
-                Val::BigInt(*a as i64 + b),
+                Val::BigInt((*a as i64).checked_add(*b).ok_or_else(overflow)?),
                 TypeId::BigInt,
             )),
             (Val::BigInt(a), Val::Integer(b)) => Ok(Value::new_with_type(
-                Val::BigInt(a + *b as i64),
+                Val::BigInt(a.checked_add(*b as i64).ok_or_else(overflow)?),
                 TypeId::BigInt,
             )),
             (Val::Decimal(a), Val::Decimal(b)) => {
                 Ok(Value::new_with_type(Val::Decimal(a + b), TypeId::Decimal))
             },
-            (Val::SmallInt(a), Val::SmallInt(b)) => {
-                Ok(Value::new_with_type(Val::SmallInt(a + b), TypeId::SmallInt))
-            },
-            (Val::TinyInt(a), Val::TinyInt(b)) => {
-                Ok(Value::new_with_type(Val::TinyInt(a + b), TypeId::TinyInt))
-            },
+            (Val::SmallInt(a), Val::SmallInt(b)) => Ok(Value::new_with_type(
+                Val::SmallInt(a.checked_add(*b).ok_or_else(overflow)?),
+                TypeId::SmallInt,
+            )),
+            (Val::TinyInt(a), Val::TinyInt(b)) => Ok(Value::new_with_type(
+                Val::TinyInt(a.checked_add(*b).ok_or_else(overflow)?),
+                TypeId::TinyInt,
+            )),
             // Promote smaller types to larger ones
             (Val::TinyInt(a), Val::Integer(b)) => Ok(Value::new_with_type(
-                Val::Integer(*a as i32 + b),
+                Val::Integer((*a as i32).checked_add(*b).ok_or_else(overflow)?),
                 TypeId::Integer,
             )),
             (Val::Integer(a), Val::TinyInt(b)) => Ok(Value::new_with_type(
-                Val::Integer(a + *b as i32),
+                Val::Integer(a.checked_add(*b as i32).ok_or_else(overflow)?),
                 TypeId::Integer,
             )),
             (Val::SmallInt(a), Val::Integer(b)) => Ok(Value::new_with_type(
-                Val::Integer(*a as i32 + b),
+                Val::Integer((*a as i32).checked_add(*b).ok_or_else(overflow)?),
                 TypeId::Integer,
             )),
             (Val::Integer(a), Val::SmallInt(b)) => Ok(Value::new_with_type(
-                Val::Integer(a + *b as i32),
+                Val::Integer(a.checked_add(*b as i32).ok_or_else(overflow)?),
                 TypeId::Integer,
             )),
 
@@ -1709,9 +1717,10 @@ impl Type for Value {
             (Val::Timestamp(_), _) => Err("Cannot add Timestamp values".to_string()),
             (Val::Date(_), _) => Err("Cannot add Date values".to_string()),
             (Val::Time(_), _) => Err("Cannot add Time values".to_string()),
-            (Val::Interval(a), Val::Interval(b)) => {
-                Ok(Value::new_with_type(Val::Interval(a + b), TypeId::Interval))
-            },
+            (Val::Interval(a), Val::Interval(b)) => Ok(Value::new_with_type(
+                Val::Interval(a.checked_add(*b).ok_or_else(overflow)?),
+                TypeId::Interval,
+            )),
             (Val::VarLen(a), Val::VarLen(b)) => Ok(Value::new_with_type(
                 Val::VarLen(a.clone() + b),
                 TypeId::VarChar,
@@ -1752,22 +1761,34 @@ impl Type for Value {
             (TypeId::Integer, TypeId::Integer) => {
                 let a = self.as_integer()?;
                 let b = other.as_integer()?;
-                Ok(Value::new_with_type(Val::Integer(a - b), TypeId::Integer))
+                Ok(Value::new_with_type(
+                    Val::Integer(a.checked_sub(b).ok_or_else(overflow)?),
+                    TypeId::Integer,
+                ))
             },
             (TypeId::BigInt, TypeId::BigInt) => {
                 let a = self.as_bigint()?;
                 let b = other.as_bigint()?;
-                Ok(Value::new_with_type(Val::BigInt(a - b), TypeId::BigInt))
+                Ok(Value::new_with_type(
+                    Val::BigInt(a.checked_sub(b).ok_or_else(overflow)?),
+                    TypeId::BigInt,
+                ))
             },
             (TypeId::SmallInt, TypeId::SmallInt) => {
                 let a = self.as_smallint()?;
                 let b = other.as_smallint()?;
-                Ok(Value::new_with_type(Val::SmallInt(a - b), TypeId::SmallInt))
+                Ok(Value::new_with_type(
+                    Val::SmallInt(a.checked_sub(b).ok_or_else(overflow)?),
+                    TypeId::SmallInt,
+                ))
             },
             (TypeId::TinyInt, TypeId::TinyInt) => {
                 let a = self.as_tinyint()?;
                 let b = other.as_tinyint()?;
-                Ok(Value::new_with_type(Val::TinyInt(a - b), TypeId::TinyInt))
+                Ok(Value::new_with_type(
+                    Val::TinyInt(a.checked_sub(b).ok_or_else(overflow)?),
+                    TypeId::TinyInt,
+                ))
             },
             (TypeId::Decimal, TypeId::Decimal) => {
                 let a = self.as_decimal()?;
@@ -1795,7 +1816,7 @@ impl Type for Value {
                 let b = other.get_val();
                 if let (Val::Interval(a_val), Val::Interval(b_val)) = (a, b) {
                     Ok(Value::new_with_type(
-                        Val::Interval(a_val - b_val),
+                        Val::Interval(a_val.checked_sub(*b_val).ok_or_else(overflow)?),
                         TypeId::Interval,
                     ))
                 } else {
@@ -1826,22 +1847,34 @@ impl Type for Value {
             (TypeId::Integer, TypeId::Integer) => {
                 let a = self.as_integer()?;
                 let b = other.as_integer()?;
-                Ok(Value::new_with_type(Val::Integer(a * b), TypeId::Integer))
+                Ok(Value::new_with_type(
+                    Val::Integer(a.checked_mul(b).ok_or_else(overflow)?),
+                    TypeId::Integer,
+                ))
             },
             (TypeId::BigInt, TypeId::BigInt) => {
                 let a = self.as_bigint()?;
                 let b = other.as_bigint()?;
-                Ok(Value::new_with_type(Val::BigInt(a * b), TypeId::BigInt))
+                Ok(Value::new_with_type(
+                    Val::BigInt(a.checked_mul(b).ok_or_else(overflow)?),
+                    TypeId::BigInt,
+                ))
             },
             (TypeId::SmallInt, TypeId::SmallInt) => {
                 let a = self.as_smallint()?;
                 let b = other.as_smallint()?;
-                Ok(Value::new_with_type(Val::SmallInt(a * b), TypeId::SmallInt))
+                Ok(Value::new_with_type(
+                    Val::SmallInt(a.checked_mul(b).ok_or_else(overflow)?),
+                    TypeId::SmallInt,
+                ))
             },
             (TypeId::TinyInt, TypeId::TinyInt) => {
                 let a = self.as_tinyint()?;
                 let b = other.as_tinyint()?;
-                Ok(Value::new_with_type(Val::TinyInt(a * b), TypeId::TinyInt))
+                Ok(Value::new_with_type(
+                    Val::TinyInt(a.checked_mul(b).ok_or_else(overflow)?),
+                    TypeId::TinyInt,
+                ))
             },
             (TypeId::Decimal, TypeId::Decimal) => {
                 let a = self.as_decimal()?;
@@ -1892,22 +1925,34 @@ impl Type for Value {
             (TypeId::Integer, TypeId::Integer) => {
                 let a = self.as_integer()?;
                 let b = other.as_integer()?;
-                Ok(Value::new_with_type(Val::Integer(a / b), TypeId::Integer))
+                Ok(Value::new_with_type(
+                    Val::Integer(a.checked_div(b).ok_or_else(overflow)?),
+                    TypeId::Integer,
+                ))
             },
             (TypeId::BigInt, TypeId::BigInt) => {
                 let a = self.as_bigint()?;
                 let b = other.as_bigint()?;
-                Ok(Value::new_with_type(Val::BigInt(a / b), TypeId::BigInt))
+                Ok(Value::new_with_type(
+                    Val::BigInt(a.checked_div(b).ok_or_else(overflow)?),
+                    TypeId::BigInt,
+                ))
             },
             (TypeId::SmallInt, TypeId::SmallInt) => {
                 let a = self.as_smallint()?;
                 let b = other.as_smallint()?;
-                Ok(Value::new_with_type(Val::SmallInt(a / b), TypeId::SmallInt))
+                Ok(Value::new_with_type(
+                    Val::SmallInt(a.checked_div(b).ok_or_else(overflow)?),
+                    TypeId::SmallInt,
+                ))
             },
             (TypeId::TinyInt, TypeId::TinyInt) => {
                 let a = self.as_tinyint()?;
                 let b = other.as_tinyint()?;
-                Ok(Value::new_with_type(Val::TinyInt(a / b), TypeId::TinyInt))
+                Ok(Value::new_with_type(
+                    Val::TinyInt(a.checked_div(b).ok_or_else(overflow)?),
+                    TypeId::TinyInt,
+                ))
             },
             (TypeId::Decimal, TypeId::Decimal) => {
                 let a = self.as_decimal()?;
@@ -1960,7 +2005,7 @@ impl Type for Value {
         match (self.get_type_id(), other.get_type_id()) {
             (TypeId::Integer, TypeId::Integer) => {
                 if let (Ok(a), Ok(b)) = (self.as_integer(), other.as_integer()) {
-                    Value::new_with_type(Val::Integer(a % b), TypeId::Integer)
+                    Value::new_with_type(Val::Integer(a.wrapping_rem(b)), TypeId::Integer)
                 } else {
                     Value::new(Val::Null)
                 }
-- 
2.43.0


From d15ef5c94c2123e0d44dc795c76d5aa41c0a83c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:33 +0000
Subject: [PATCH 05/49] fix: arithmetic in join predicates computes like
 arithmetic elsewhere (operand order, all numeric types)

---
 .../expressions/arithmetic_expression.rs      | 123 ++----------------
 1 file changed, 11 insertions(+), 112 deletions(-)

diff --git a/src/sql/execution/expressions/arithmetic_expression.rs b/src/sql/execution/expressions/arithmetic_expression.rs
index db6e53e..39e0e57 100644
--- a/src/sql/execution/expressions/arithmetic_expression.rs
+++ b/src/sql/execution/expressions/arithmetic_expression.rs
@@ -133,13 +133,8 @@ impl ArithmeticExpression {
             )),
         }
     }
-}
-
-impl ExpressionOps for ArithmeticExpression {
-    fn evaluate(&self, tuple: &Tuple, schema: &Schema) -> Result<Value, ExpressionError> {
-        let left_value = self.get_left().evaluate(tuple, schema)?;
-        let right_value = self.get_right().evaluate(tuple, schema)?;
 
+    fn apply(&self, left_value: &Value, right_value: &Value) -> Result<Value, ExpressionError> {
         match (left_value.get_val(), right_value.get_val()) {
             // TinyInt operations
             (Val::TinyInt(l), Val::TinyInt(r)) => {
@@ -748,6 +743,15 @@ impl ExpressionOps for ArithmeticExpression {
             _ => Err(ExpressionError::ArithmeticError(Unknown)),
         }
     }
+}
+
+impl ExpressionOps for ArithmeticExpression {
+    fn evaluate(&self, tuple: &Tuple, schema: &Schema) -> Result<Value, ExpressionError> {
+        let left_value = self.get_left().evaluate(tuple, schema)?;
+        let right_value = self.get_right().evaluate(tuple, schema)?;
+
+        self.apply(&left_value, &right_value)
+    }
 
     fn evaluate_join(
         &self,
@@ -763,112 +767,7 @@ impl ExpressionOps for ArithmeticExpression {
             self.get_right()
                 .evaluate_join(left_tuple, left_schema, right_tuple, right_schema)?;
 
-        match (left_value.get_val(), right_value.get_val()) {
-            (Val::Integer(l), Val::Integer(r)) => {
-                let result = match self.op {
-                    ArithmeticOp::Add => l.checked_add(*r),
-                    ArithmeticOp::Subtract => l.checked_sub(*r),
-                    ArithmeticOp::Multiply => l.checked_mul(*r),
-                    ArithmeticOp::Divide => l.checked_div(*r),
-                };
-                result
-                    .map(Value::from)
-                    .ok_or(ExpressionError::ArithmeticError(Overflow))
-            },
-            (Val::BigInt(l), Val::BigInt(r)) => {
-                let result = match self.op {
-                    ArithmeticOp::Add => l.checked_add(*r),
-                    ArithmeticOp::Subtract => l.checked_sub(*r),
-                    ArithmeticOp::Multiply => l.checked_mul(*r),
-                    ArithmeticOp::Divide => l.checked_div(*r),
-                };
-                result
-                    .map(Value::from)
-                    .ok_or(ExpressionError::ArithmeticError(Overflow))
-            },
-            (Val::Decimal(l), Val::Decimal(r)) => {
-                let result = match self.op {
-                    ArithmeticOp::Add => l + *r,
-                    ArithmeticOp::Subtract => l - *r,
-                    ArithmeticOp::Multiply => l * *r,
-                    ArithmeticOp::Divide => {
-                        if *r != 0.0 {
-                            Ok(l / *r)
-                        } else {
-                            Err(ExpressionError::ArithmeticError(DivisionByZero))
-                        }?
-                    },
-                };
-                Ok(Value::from(result))
-            },
-            (Val::Integer(l), Val::Decimal(r)) | (Val::Decimal(r), Val::Integer(l)) => {
-                let l = *l as f64;
-                let r = *r;
-                let result = match self.op {
-                    ArithmeticOp::Add => l + r,
-                    ArithmeticOp::Subtract => l - r,
-                    ArithmeticOp::Multiply => l * r,
-                    ArithmeticOp::Divide => {
-                        if r != 0.0 {
-                            Ok(l / r)
-                        } else {
-                            Err(ExpressionError::ArithmeticError(DivisionByZero))
-                        }?
-                    },
-                };
-                Ok(Value::from(result))
-            },
-            (Val::BigInt(l), Val::Integer(r)) => {
-                let result = match self.op {
-                    ArithmeticOp::Add => l.checked_add(*r as i64),
-                    ArithmeticOp::Subtract => l.checked_sub(*r as i64),
-                    ArithmeticOp::Multiply => l.checked_mul(*r as i64),
-                    ArithmeticOp::Divide => {
-                        if *r == 0 {
-                            return Err(ExpressionError::ArithmeticError(DivisionByZero));
-                        }
-                        l.checked_div(*r as i64)
-                    },
-                };
-                result
-                    .map(Value::from)
-                    .ok_or(ExpressionError::ArithmeticError(Overflow))
-            },
-            (Val::Integer(l), Val::BigInt(r)) => {
-                let result = match self.op {
-                    ArithmeticOp::Add => (*l as i64).checked_add(*r),
-                    ArithmeticOp::Subtract => (*l as i64).checked_sub(*r),
-                    ArithmeticOp::Multiply => (*l as i64).checked_mul(*r),
-                    ArithmeticOp::Divide => {
-                        if *r == 0 {
-                            return Err(ExpressionError::ArithmeticError(DivisionByZero));
-                        }
-                        (*l as i64).checked_div(*r)
-                    },
-                };
-                result
-                    .map(Value::from)
-                    .ok_or(ExpressionError::ArithmeticError(Overflow))
-            },
-            (Val::BigInt(l), Val::Decimal(r)) | (Val::Decimal(r), Val::BigInt(l)) => {
-                let l = *l as f64;
-                let r = *r;
-                let result = match self.op {
-                    ArithmeticOp::Add => l + r,
-                    ArithmeticOp::Subtract => l - r,
-                    ArithmeticOp::Multiply => l * r,
-                    ArithmeticOp::Divide => {
-                        if r != 0.0 {
-                            Ok(l / r)
-                        } else {
-                            Err(ExpressionError::ArithmeticError(DivisionByZero))
-                        }?
-                    },
-                };
-                Ok(Value::from(result))
-            },
-            _ => Err(ExpressionError::ArithmeticError(Unknown)),
-        }
+        self.apply(&left_value, &right_value)
     }
 
     fn get_child_at(&self, child_idx: usize) -> &Arc<Expression> {
-- 
2.43.0


From d57007843ebf8da3fcec2a51a37ca43fb8fdf6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:32 +0000
Subject: [PATCH 06/49] fix: lock conversions respect other holders and keep
 the held lock; waiters of ended transactions vanish; release no longer
 self-deadlocks with a waiter

---
 src/concurrency/lock_manager.rs | 241 +++++++++++++++-----------------
 1 file changed, 116 insertions(+), 125 deletions(-)

diff --git a/src/concurrency/lock_manager.rs b/src/concurrency/lock_manager.rs
index 3b0d102..4507183 100644
--- a/src/concurrency/lock_manager.rs
+++ b/src/concurrency/lock_manager.rs
@@ -163,8 +163,7 @@ use std::sync::Arc;
 use std::sync::atomic::{AtomicBool, Ordering};
 use std::{fmt, thread};
 
-use parking_lot::lock_api::MutexGuard;
-use parking_lot::{Condvar, Mutex, RawMutex};
+use parking_lot::{Condvar, Mutex};
 
 use crate::common::config::{INVALID_TXN_ID, TableOidT, TxnId};
 use crate::common::exception::LockError;
@@ -189,6 +188,24 @@ pub enum LockMode {
     SharedIntentionExclusive,
 }
 
+impl LockMode {
+    /// Whether holding `self` gives every right that `other` gives.
+    fn covers(self, other: LockMode) -> bool {
+        match self {
+            LockMode::Exclusive => true,
+            LockMode::SharedIntentionExclusive => other != LockMode::Exclusive,
+            LockMode::Shared => matches!(other, LockMode::Shared | LockMode::IntentionShared),
+            LockMode::IntentionExclusive => {
+                matches!(
+                    other,
+                    LockMode::IntentionExclusive | LockMode::IntentionShared
+                )
+            },
+            LockMode::IntentionShared => other == LockMode::IntentionShared,
+        }
+    }
+}
+
 /// A single lock request for a table or row resource.
 ///
 /// For table lock requests, `rid` is `None`. For row lock requests,
@@ -233,6 +250,16 @@ struct TxnLockState {
     row_locks: HashSet<(TableOidT, RID)>,
 }
 
+impl TxnLockState {
+    /// The lock set of the transaction, created empty if it has none yet.
+    fn of(sets: &mut HashMap<TxnId, TxnLockState>, txn_id: TxnId) -> &mut TxnLockState {
+        sets.entry(txn_id).or_insert_with(|| TxnLockState {
+            table_locks: HashSet::new(),
+            row_locks: HashSet::new(),
+        })
+    }
+}
+
 /// Detects deadlocks using a waits-for graph with background cycle detection.
 ///
 /// Maintains a directed graph where edges represent "transaction A waits for
@@ -381,56 +408,24 @@ impl LockRequestQueue {
 
     /// Checks if a new lock request is compatible with existing granted locks.
     pub fn compatible_with_existing_locks(&self, request: &LockRequest) -> bool {
-        let txn_id = request.get_txn_id();
-        let new_mode = request.get_lock_mode();
+        self.is_grantable(request.get_txn_id(), request.get_lock_mode())
+    }
 
+    /// Whether the transaction can be granted `new_mode` beside the locks granted now.
+    fn is_grantable(&self, txn_id: TxnId, new_mode: LockMode) -> bool {
         // If there's an upgrading transaction, no other locks can be granted
         if self.upgrading != INVALID_TXN_ID && self.upgrading != txn_id {
             return false;
         }
 
-        // Check existing locks by this transaction
-        let has_lock = false;
-        for existing_req in &self.request_queue {
+        // Every lock granted to another transaction must be compatible; the transaction's own
+        // locks do not stand in its way.
+        self.request_queue.iter().all(|existing_req| {
             let existing = existing_req.lock();
-            if existing.is_granted() && existing.get_txn_id() == txn_id {
-                //has_lock = true;
-                // Check if this is a valid lock upgrade
-                return match (existing.get_lock_mode(), new_mode) {
-                    // IS -> [S, X, IX, SIX]
-                    (LockMode::IntentionShared, _) => true,
-                    // S -> [X, SIX]
-                    (
-                        LockMode::Shared,
-                        LockMode::Exclusive | LockMode::SharedIntentionExclusive,
-                    ) => true,
-                    // IX -> [X, SIX]
-                    (
-                        LockMode::IntentionExclusive,
-                        LockMode::Exclusive | LockMode::SharedIntentionExclusive,
-                    ) => true,
-                    // SIX -> [X]
-                    (LockMode::SharedIntentionExclusive, LockMode::Exclusive) => true,
-                    // Same mode - already granted
-                    (mode1, mode2) if mode1 == mode2 => true,
-                    // Invalid upgrade
-                    _ => false,
-                };
-            }
-        }
-
-        // If this transaction doesn't have a lock yet, check compatibility with all granted locks
-        if !has_lock {
-            for existing_req in &self.request_queue {
-                let existing = existing_req.lock();
-                if existing.is_granted()
-                    && !LockCompatibilityChecker::are_compatible(existing.get_lock_mode(), new_mode)
-                {
-                    return false;
-                }
-            }
-        }
-        true
+            !existing.is_granted()
+                || existing.get_txn_id() == txn_id
+                || LockCompatibilityChecker::are_compatible(existing.get_lock_mode(), new_mode)
+        })
     }
 
     /// Attempts to grant a lock request.
@@ -438,37 +433,23 @@ impl LockRequestQueue {
         let txn_id = request.lock().get_txn_id();
         let lock_mode = request.lock().get_lock_mode();
 
-        // Check for existing locks by this transaction
-        let mut existing_lock = None;
-        for (i, existing_req) in self.request_queue.iter().enumerate() {
+        // Check for existing locks by this transaction; they are kept while it asks for more
+        let mut holds_lock = false;
+        for existing_req in &self.request_queue {
             let existing = existing_req.lock();
             if existing.is_granted() && existing.get_txn_id() == txn_id {
-                if existing.get_lock_mode() == lock_mode {
+                if existing.get_lock_mode().covers(lock_mode) {
                     return true; // Already have this lock
                 }
-                existing_lock = Some((i, existing.get_lock_mode()));
-                break;
+                holds_lock = true;
             }
         }
 
-        // Handle lock upgrade if needed
-        if let Some((i, old_mode)) = existing_lock {
-            // Check if upgrade is allowed
-            match (old_mode, lock_mode) {
-                // Keep both locks for valid combinations
-                (LockMode::IntentionShared, LockMode::Shared)
-                | (LockMode::IntentionExclusive, LockMode::Exclusive) => {
-                    // Don't remove the intention lock, just add the new lock
-                },
-                // For other upgrades, remove the old lock
-                _ => {
-                    if self.upgrading != INVALID_TXN_ID && self.upgrading != txn_id {
-                        return false; // Another transaction is upgrading
-                    }
-                    self.upgrading = txn_id;
-                    self.request_queue.remove(i);
-                },
+        if holds_lock {
+            if self.upgrading != INVALID_TXN_ID && self.upgrading != txn_id {
+                return false; // Another transaction is upgrading
             }
+            self.upgrading = txn_id;
         }
 
         // Check compatibility with existing locks
@@ -487,6 +468,38 @@ impl LockRequestQueue {
         self.request_queue.push_back(request);
         false
     }
+
+    /// Grants the waiting requests that have become compatible, in queue order, and returns
+    /// the transactions that now hold the resource.
+    fn grant_waiting(&mut self) -> Vec<TxnId> {
+        let mut granted = Vec::new();
+        for request in &self.request_queue {
+            // The request is in the queue itself, so it cannot stay locked during the check.
+            let (is_granted, txn_id, mode) = {
+                let request = request.lock();
+                (request.granted, request.txn_id, request.lock_mode)
+            };
+            if is_granted || !self.is_grantable(txn_id, mode) {
+                continue;
+            }
+            request.lock().granted = true;
+            if self.upgrading == txn_id {
+                self.upgrading = INVALID_TXN_ID;
+            }
+            granted.push(txn_id);
+        }
+        self.cv.notify_all();
+        granted
+    }
+
+    /// Drops every request of the transaction, granted or waiting.
+    fn remove_txn(&mut self, txn_id: TxnId) {
+        self.request_queue
+            .retain(|req| req.lock().get_txn_id() != txn_id);
+        if self.upgrading == txn_id {
+            self.upgrading = INVALID_TXN_ID;
+        }
+    }
 }
 
 impl Default for DeadlockDetector {
@@ -716,13 +729,12 @@ impl LockStateManager {
         if let Some(queue) = table_locks.get(&oid) {
             let mut queue_guard = queue.lock();
 
-            // Find and remove the lock request
-            if let Some(pos) = queue_guard.request_queue.iter().position(|req| {
+            // Find and remove the lock requests
+            if queue_guard.request_queue.iter().any(|req| {
                 let req = req.lock();
                 req.get_txn_id() == txn_id && req.is_granted()
             }) {
-                // Remove the lock request
-                queue_guard.request_queue.remove(pos);
+                queue_guard.remove_txn(txn_id);
 
                 // Update transaction's lock set
                 let mut txn_locks = self.txn_lock_sets.lock();
@@ -731,17 +743,11 @@ impl LockStateManager {
                 }
 
                 // Try to grant waiting locks
-                let mut i = 0;
-                while i < queue_guard.request_queue.len() {
-                    let request = queue_guard.request_queue[i].clone();
-                    if !request.lock().is_granted()
-                        && queue_guard.compatible_with_existing_locks(&request.lock())
-                    {
-                        request.lock().granted = true;
-                    }
-                    i += 1;
+                for granted_txn in queue_guard.grant_waiting() {
+                    TxnLockState::of(&mut txn_locks, granted_txn)
+                        .table_locks
+                        .insert(oid);
                 }
-                queue_guard.cv.notify_all();
 
                 return Ok(());
             }
@@ -757,12 +763,12 @@ impl LockStateManager {
         if let Some(queue) = row_locks.get(&rid) {
             let mut queue_guard = queue.lock();
 
-            // Find and remove the lock request
-            if let Some(pos) = queue_guard.request_queue.iter().position(|req| {
+            // Find and remove the lock requests
+            if queue_guard.request_queue.iter().any(|req| {
                 let req = req.lock();
                 req.get_txn_id() == txn_id && req.is_granted()
             }) {
-                queue_guard.request_queue.remove(pos);
+                queue_guard.remove_txn(txn_id);
 
                 // Update transaction's lock set
                 let mut txn_locks = self.txn_lock_sets.lock();
@@ -771,7 +777,11 @@ impl LockStateManager {
                 }
 
                 // Try to grant waiting locks
-                self.grant_waiting_locks(&mut queue_guard);
+                for granted_txn in queue_guard.grant_waiting() {
+                    TxnLockState::of(&mut txn_locks, granted_txn)
+                        .row_locks
+                        .insert((rid.get_page_id(), rid));
+                }
                 return Ok(());
             }
         }
@@ -781,26 +791,21 @@ impl LockStateManager {
 
     /// Force releases all locks held by the given transaction without mutating the transaction state.
     pub fn force_release_txn(&self, txn_id: TxnId) -> Result<(), LockError> {
-        // Snapshot locks held by the transaction.
-        let (table_locks, row_locks_for_txn) = {
-            let txn_locks = self.txn_lock_sets.lock();
-            if let Some(state) = txn_locks.get(&txn_id) {
-                (state.table_locks.clone(), state.row_locks.clone())
-            } else {
-                return Ok(()); // Nothing to release
-            }
-        };
+        // Every queue is visited: a request still waiting is in no lock set, and would otherwise
+        // be granted to a transaction that no longer exists.
 
         // Release row locks first to avoid table-lock ordering issues.
         {
             let row_locks = self.row_locks.lock();
-            for (_, rid) in row_locks_for_txn.iter() {
-                if let Some(queue) = row_locks.get(rid) {
-                    let mut queue_guard = queue.lock();
-                    queue_guard
-                        .request_queue
-                        .retain(|req| req.lock().get_txn_id() != txn_id);
-                    self.grant_waiting_locks(&mut queue_guard);
+            for (rid, queue) in row_locks.iter() {
+                let mut queue_guard = queue.lock();
+                queue_guard.remove_txn(txn_id);
+                let granted = queue_guard.grant_waiting();
+                let mut txn_locks = self.txn_lock_sets.lock();
+                for granted_txn in granted {
+                    TxnLockState::of(&mut txn_locks, granted_txn)
+                        .row_locks
+                        .insert((rid.get_page_id(), *rid));
                 }
             }
         }
@@ -808,13 +813,15 @@ impl LockStateManager {
         // Release table locks.
         {
             let table_locks_map = self.table_lock_map.lock();
-            for oid in table_locks.iter() {
-                if let Some(queue) = table_locks_map.get(oid) {
-                    let mut queue_guard = queue.lock();
-                    queue_guard
-                        .request_queue
-                        .retain(|req| req.lock().get_txn_id() != txn_id);
-                    self.grant_waiting_locks(&mut queue_guard);
+            for (oid, queue) in table_locks_map.iter() {
+                let mut queue_guard = queue.lock();
+                queue_guard.remove_txn(txn_id);
+                let granted = queue_guard.grant_waiting();
+                let mut txn_locks = self.txn_lock_sets.lock();
+                for granted_txn in granted {
+                    TxnLockState::of(&mut txn_locks, granted_txn)
+                        .table_locks
+                        .insert(*oid);
                 }
             }
         }
@@ -826,22 +833,6 @@ impl LockStateManager {
         Ok(())
     }
 
-    /// Attempts to grant locks to waiting transactions
-    fn grant_waiting_locks(&self, queue: &mut MutexGuard<RawMutex, LockRequestQueue>) {
-        let mut i = 0;
-        while i < queue.request_queue.len() {
-            let request = queue.request_queue[i].clone();
-            if !request.lock().is_granted() && queue.compatible_with_existing_locks(&request.lock())
-            {
-                request.lock().granted = true;
-                // Don't increment i since we want to check the next request
-            } else {
-                i += 1;
-            }
-        }
-        queue.cv.notify_all();
-    }
-
     /// Checks if a transaction has a lock on a table
     pub fn has_table_lock(&self, txn_id: TxnId, oid: TableOidT) -> bool {
         let txn_locks = self.txn_lock_sets.lock();
-- 
2.43.0


From d80ea53f297d6326ed0494193b0c94385ae14359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:07 +0000
Subject: [PATCH 07/49] fix: an ended transaction, or a shrinking one, acquires
 no lock at any isolation level

---
 src/concurrency/lock_manager.rs | 30 ++++++------------------------
 1 file changed, 6 insertions(+), 24 deletions(-)

diff --git a/src/concurrency/lock_manager.rs b/src/concurrency/lock_manager.rs
index 4507183..5406fbd 100644
--- a/src/concurrency/lock_manager.rs
+++ b/src/concurrency/lock_manager.rs
@@ -925,9 +925,9 @@ impl LockValidator {
         match txn.get_isolation_level() {
             IsolationLevel::ReadUncommitted => self.validate_read_uncommitted(txn, lock_mode),
             IsolationLevel::ReadCommitted => self.validate_read_committed(txn, lock_mode),
-            IsolationLevel::RepeatableRead => self.validate_repeatable_read(txn, lock_mode),
-            IsolationLevel::Serializable => Ok(()),
-            IsolationLevel::Snapshot => self.validate_snapshot(txn, lock_mode),
+            IsolationLevel::RepeatableRead
+            | IsolationLevel::Serializable
+            | IsolationLevel::Snapshot => self.validate_growing(txn),
         }
     }
 
@@ -942,13 +942,7 @@ impl LockValidator {
             LockMode::Shared | LockMode::IntentionShared | LockMode::SharedIntentionExclusive => {
                 Err(LockError::LockSharedOnReadUncommitted)
             },
-            LockMode::Exclusive | LockMode::IntentionExclusive => {
-                if txn.get_state() == TransactionState::Shrinking {
-                    Err(LockError::LockOnShrinking)
-                } else {
-                    Ok(())
-                }
-            },
+            LockMode::Exclusive | LockMode::IntentionExclusive => self.validate_growing(txn),
         }
     }
 
@@ -972,12 +966,8 @@ impl LockValidator {
         }
     }
 
-    /// Validates lock requests for REPEATABLE READ isolation level
-    fn validate_repeatable_read(
-        &self,
-        txn: &Transaction,
-        _lock_mode: LockMode,
-    ) -> Result<(), LockError> {
+    /// Validates lock requests that only a transaction in its growing phase may make
+    fn validate_growing(&self, txn: &Transaction) -> Result<(), LockError> {
         match txn.get_state() {
             TransactionState::Growing => Ok(()),
             TransactionState::Shrinking => Err(LockError::LockOnShrinking),
@@ -987,14 +977,6 @@ impl LockValidator {
             TransactionState::Tainted => Err(LockError::TransactionAborted),
         }
     }
-
-    /// Validates lock requests for SNAPSHOT isolation level
-    fn validate_snapshot(&self, txn: &Transaction, lock_mode: LockMode) -> Result<(), LockError> {
-        if matches!(lock_mode, LockMode::Shared | LockMode::Exclusive) {
-            txn.set_state(TransactionState::Shrinking);
-        }
-        Ok(())
-    }
 }
 
 impl Default for LockManager {
-- 
2.43.0


From 222e3aace88f3a06bb06f24475724de4e2e7e0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:47 +0000
Subject: [PATCH 08/49] fix: a transaction that has ended keeps its final state

---
 src/concurrency/transaction.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/concurrency/transaction.rs b/src/concurrency/transaction.rs
index a1dca3a..71c962b 100644
--- a/src/concurrency/transaction.rs
+++ b/src/concurrency/transaction.rs
@@ -508,12 +508,19 @@ impl Transaction {
         *self.state.read()
     }
 
-    /// Sets the transaction state.
+    /// Sets the transaction state. `Committed` and `Aborted` are final: a transaction
+    /// that has ended keeps its state.
     ///
     /// # Parameters
     /// - `state`: The new state to set.
     pub fn set_state(&self, state: TransactionState) {
-        *self.state.write() = state;
+        let mut current = self.state.write();
+        if !matches!(
+            *current,
+            TransactionState::Committed | TransactionState::Aborted
+        ) {
+            *current = state;
+        }
     }
 
     /// Returns the read timestamp (snapshot point for MVCC).
@@ -657,8 +664,7 @@ impl Transaction {
     /// A tainted transaction has encountered an error but hasn't been
     /// explicitly aborted yet. It will typically be aborted soon.
     pub fn set_tainted(&self) {
-        let mut state = self.state.write();
-        *state = TransactionState::Tainted;
+        self.set_state(TransactionState::Tainted);
     }
 
     /// Gets all scan predicates recorded by this transaction.
-- 
2.43.0


From 693b9cd5a49f5c834cd7127dfe109a2644b222a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:47 +0000
Subject: [PATCH 09/49] fix: an insert does not proceed when its table lock is
 refused

---
 src/storage/table/transactional_table_heap.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/storage/table/transactional_table_heap.rs b/src/storage/table/transactional_table_heap.rs
index d351da1..8aa0b27 100644
--- a/src/storage/table/transactional_table_heap.rs
+++ b/src/storage/table/transactional_table_heap.rs
@@ -349,9 +349,12 @@ impl TransactionalTableHeap {
 
         // Lock acquisition
         let lock_manager = txn_ctx.get_lock_manager();
-        lock_manager
+        let granted = lock_manager
             .lock_table(txn.clone(), LockMode::IntentionExclusive, self.table_oid)
             .map_err(|e| format!("Failed to acquire table lock: {}", e))?;
+        if !granted {
+            return Err("Failed to acquire table lock: held by another transaction".to_string());
+        }
 
         // First expand values to handle AUTO_INCREMENT and DEFAULT values
         // This ensures we have the complete tuple values before constraint validation
@@ -400,9 +403,12 @@ impl TransactionalTableHeap {
 
         // Lock acquisition
         let lock_manager = txn_ctx.get_lock_manager();
-        lock_manager
+        let granted = lock_manager
             .lock_table(txn.clone(), LockMode::IntentionExclusive, self.table_oid)
             .map_err(|e| format!("Failed to acquire table lock: {}", e))?;
+        if !granted {
+            return Err("Failed to acquire table lock: held by another transaction".to_string());
+        }
 
         // Use the metadata passed by the caller (do not rebuild it).
         // This avoids silently changing caller intent and prevents unnecessary allocations.
-- 
2.43.0


From 807763b2aae19e93555fa423df24229d987fd6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:47 +0000
Subject: [PATCH 10/49] fix: the waits-for graph holds real waits only; row
 locks are recorded under their table

---
 src/concurrency/lock_manager.rs | 165 ++++++++++++++++++++++----------
 1 file changed, 114 insertions(+), 51 deletions(-)

diff --git a/src/concurrency/lock_manager.rs b/src/concurrency/lock_manager.rs
index 5406fbd..2f6303b 100644
--- a/src/concurrency/lock_manager.rs
+++ b/src/concurrency/lock_manager.rs
@@ -224,6 +224,9 @@ pub struct LockRequest {
     granted: bool,
 }
 
+/// Waiting transactions, each with the transactions it waits for.
+pub type Waits = Vec<(TxnId, Vec<TxnId>)>;
+
 /// FIFO queue of lock requests for a single resource (table or row).
 ///
 /// Manages lock granting, compatibility checking, and upgrade prioritization
@@ -238,6 +241,15 @@ pub struct LockRequestQueue {
     upgrading: TxnId,
 }
 
+/// The transactions that no longer wait for anything.
+fn granted(waits: &Waits) -> Vec<TxnId> {
+    waits
+        .iter()
+        .filter(|(_, blockers)| blockers.is_empty())
+        .map(|(txn_id, _)| *txn_id)
+        .collect()
+}
+
 /// Tracks all locks held by a single transaction.
 ///
 /// Used for efficient lock release during transaction commit/abort
@@ -469,27 +481,48 @@ impl LockRequestQueue {
         false
     }
 
+    /// The transactions that stand between `txn_id` and a lock in `mode`: those holding an
+    /// incompatible lock, and the one converting its lock.
+    fn blockers(&self, txn_id: TxnId, mode: LockMode) -> Vec<TxnId> {
+        let mut blockers: Vec<TxnId> = self
+            .request_queue
+            .iter()
+            .map(|req| req.lock())
+            .filter(|req| req.granted && req.txn_id != txn_id)
+            .filter(|req| !LockCompatibilityChecker::are_compatible(req.lock_mode, mode))
+            .map(|req| req.txn_id)
+            .collect();
+        if self.upgrading != INVALID_TXN_ID && self.upgrading != txn_id {
+            blockers.push(self.upgrading);
+        }
+        blockers
+    }
+
     /// Grants the waiting requests that have become compatible, in queue order, and returns
-    /// the transactions that now hold the resource.
-    fn grant_waiting(&mut self) -> Vec<TxnId> {
-        let mut granted = Vec::new();
+    /// every request that was waiting with what it waits for now (nothing if it was granted).
+    fn grant_waiting(&mut self) -> Waits {
+        let mut waiters = Vec::new();
         for request in &self.request_queue {
             // The request is in the queue itself, so it cannot stay locked during the check.
             let (is_granted, txn_id, mode) = {
                 let request = request.lock();
                 (request.granted, request.txn_id, request.lock_mode)
             };
-            if is_granted || !self.is_grantable(txn_id, mode) {
+            if is_granted {
                 continue;
             }
-            request.lock().granted = true;
-            if self.upgrading == txn_id {
-                self.upgrading = INVALID_TXN_ID;
+            if self.is_grantable(txn_id, mode) {
+                request.lock().granted = true;
+                if self.upgrading == txn_id {
+                    self.upgrading = INVALID_TXN_ID;
+                }
+                waiters.push((txn_id, Vec::new()));
+            } else {
+                waiters.push((txn_id, self.blockers(txn_id, mode)));
             }
-            granted.push(txn_id);
         }
         self.cv.notify_all();
-        granted
+        waiters
     }
 
     /// Drops every request of the transaction, granted or waiting.
@@ -531,6 +564,18 @@ impl DeadlockDetector {
         waits_for.remove(&t1);
     }
 
+    /// Replaces the outgoing edges of the given transactions.
+    fn update(&self, waits: Waits) {
+        let mut waits_for = self.waits_for.lock();
+        for (txn_id, blockers) in waits {
+            if blockers.is_empty() {
+                waits_for.remove(&txn_id);
+            } else {
+                waits_for.insert(txn_id, blockers);
+            }
+        }
+    }
+
     /// Starts the background deadlock detection thread.
     ///
     /// The thread runs DFS every 50ms to detect cycles. When a cycle is
@@ -695,17 +740,20 @@ impl LockStateManager {
     ///
     /// # Returns
     /// `true` if the lock was granted, `false` if it must wait.
-    pub fn grant_row_lock(&self, txn_id: TxnId, lock_mode: LockMode, rid: RID) -> bool {
+    pub fn grant_row_lock(
+        &self,
+        txn_id: TxnId,
+        lock_mode: LockMode,
+        oid: TableOidT,
+        rid: RID,
+    ) -> bool {
         let mut row_locks = self.row_locks.lock();
         let queue = row_locks
             .entry(rid)
             .or_insert_with(|| Arc::new(Mutex::new(LockRequestQueue::new())));
 
         let request = Arc::new(Mutex::new(LockRequest::new_row_request(
-            txn_id,
-            lock_mode,
-            rid.get_page_id(),
-            rid,
+            txn_id, lock_mode, oid, rid,
         )));
         let granted = queue.lock().grant_lock(request.clone());
 
@@ -716,14 +764,14 @@ impl LockStateManager {
                 table_locks: HashSet::new(),
                 row_locks: HashSet::new(),
             });
-            lock_state.row_locks.insert((rid.get_page_id(), rid));
+            lock_state.row_locks.insert((oid, rid));
         }
 
         granted
     }
 
-    /// Releases a table lock
-    pub fn release_table_lock(&self, txn_id: TxnId, oid: TableOidT) -> Result<(), LockError> {
+    /// Releases a table lock and returns what the waiting transactions wait for now
+    pub fn release_table_lock(&self, txn_id: TxnId, oid: TableOidT) -> Result<Waits, LockError> {
         let table_locks = self.table_lock_map.lock();
 
         if let Some(queue) = table_locks.get(&oid) {
@@ -743,21 +791,27 @@ impl LockStateManager {
                 }
 
                 // Try to grant waiting locks
-                for granted_txn in queue_guard.grant_waiting() {
+                let waits = queue_guard.grant_waiting();
+                for granted_txn in granted(&waits) {
                     TxnLockState::of(&mut txn_locks, granted_txn)
                         .table_locks
                         .insert(oid);
                 }
 
-                return Ok(());
+                return Ok(waits);
             }
         }
 
         Err(LockError::NoLockHeld)
     }
 
-    /// Releases a row lock
-    pub fn release_row_lock(&self, txn_id: TxnId, rid: RID) -> Result<(), LockError> {
+    /// Releases a row lock and returns what the waiting transactions wait for now
+    pub fn release_row_lock(
+        &self,
+        txn_id: TxnId,
+        oid: TableOidT,
+        rid: RID,
+    ) -> Result<Waits, LockError> {
         let row_locks = self.row_locks.lock();
 
         if let Some(queue) = row_locks.get(&rid) {
@@ -773,16 +827,17 @@ impl LockStateManager {
                 // Update transaction's lock set
                 let mut txn_locks = self.txn_lock_sets.lock();
                 if let Some(lock_state) = txn_locks.get_mut(&txn_id) {
-                    lock_state.row_locks.remove(&(rid.get_page_id(), rid));
+                    lock_state.row_locks.remove(&(oid, rid));
                 }
 
                 // Try to grant waiting locks
-                for granted_txn in queue_guard.grant_waiting() {
+                let waits = queue_guard.grant_waiting();
+                for granted_txn in granted(&waits) {
                     TxnLockState::of(&mut txn_locks, granted_txn)
                         .row_locks
-                        .insert((rid.get_page_id(), rid));
+                        .insert((oid, rid));
                 }
-                return Ok(());
+                return Ok(waits);
             }
         }
 
@@ -790,7 +845,10 @@ impl LockStateManager {
     }
 
     /// Force releases all locks held by the given transaction without mutating the transaction state.
-    pub fn force_release_txn(&self, txn_id: TxnId) -> Result<(), LockError> {
+    /// Returns what the waiting transactions wait for now.
+    pub fn force_release_txn(&self, txn_id: TxnId) -> Result<Waits, LockError> {
+        let mut all_waits = Waits::new();
+
         // Every queue is visited: a request still waiting is in no lock set, and would otherwise
         // be granted to a transaction that no longer exists.
 
@@ -800,13 +858,17 @@ impl LockStateManager {
             for (rid, queue) in row_locks.iter() {
                 let mut queue_guard = queue.lock();
                 queue_guard.remove_txn(txn_id);
-                let granted = queue_guard.grant_waiting();
+                let Some(oid) = queue_guard.request_queue.front().map(|req| req.lock().oid) else {
+                    continue;
+                };
+                let waits = queue_guard.grant_waiting();
                 let mut txn_locks = self.txn_lock_sets.lock();
-                for granted_txn in granted {
+                for granted_txn in granted(&waits) {
                     TxnLockState::of(&mut txn_locks, granted_txn)
                         .row_locks
-                        .insert((rid.get_page_id(), *rid));
+                        .insert((oid, *rid));
                 }
+                all_waits.extend(waits);
             }
         }
 
@@ -816,13 +878,14 @@ impl LockStateManager {
             for (oid, queue) in table_locks_map.iter() {
                 let mut queue_guard = queue.lock();
                 queue_guard.remove_txn(txn_id);
-                let granted = queue_guard.grant_waiting();
+                let waits = queue_guard.grant_waiting();
                 let mut txn_locks = self.txn_lock_sets.lock();
-                for granted_txn in granted {
+                for granted_txn in granted(&waits) {
                     TxnLockState::of(&mut txn_locks, granted_txn)
                         .table_locks
                         .insert(*oid);
                 }
+                all_waits.extend(waits);
             }
         }
 
@@ -830,7 +893,7 @@ impl LockStateManager {
         let mut txn_locks = self.txn_lock_sets.lock();
         txn_locks.remove(&txn_id);
 
-        Ok(())
+        Ok(all_waits)
     }
 
     /// Checks if a transaction has a lock on a table
@@ -1049,12 +1112,9 @@ impl LockManager {
             lock_state.table_locks.insert(oid);
         } else {
             // 6. If not granted, add edge to waits-for graph
-            for existing_req in &queue_guard.request_queue {
-                let existing = existing_req.lock();
-                if existing.granted {
-                    self.deadlock_detector
-                        .add_edge(txn.get_transaction_id(), existing.txn_id);
-                }
+            for blocker in queue_guard.blockers(txn.get_transaction_id(), lock_mode) {
+                self.deadlock_detector
+                    .add_edge(txn.get_transaction_id(), blocker);
             }
 
             // 7. Check for deadlock
@@ -1100,7 +1160,8 @@ impl LockManager {
         }
 
         // 3. Release the lock
-        self.lock_state_manager
+        let waits = self
+            .lock_state_manager
             .release_table_lock(txn.get_transaction_id(), oid)?;
 
         // 4. Update transaction state based on isolation level and lock mode
@@ -1132,8 +1193,9 @@ impl LockManager {
             },
         }
 
-        // 5. Remove edges from waits-for graph
+        // 5. Update the waits-for graph
         self.deadlock_detector.remove_edge(txn.get_transaction_id());
+        self.deadlock_detector.update(waits);
 
         Ok(true)
     }
@@ -1212,19 +1274,16 @@ impl LockManager {
         // 4. Try to grant the lock
         let granted =
             self.lock_state_manager
-                .grant_row_lock(txn.get_transaction_id(), lock_mode, rid);
+                .grant_row_lock(txn.get_transaction_id(), lock_mode, oid, rid);
 
         if !granted {
             // 5. If not granted, add edge to waits-for graph
             let row_locks = self.lock_state_manager.row_locks.lock();
             if let Some(queue) = row_locks.get(&rid) {
                 let queue_guard = queue.lock();
-                for request in &queue_guard.request_queue {
-                    let req = request.lock();
-                    if req.granted {
-                        self.deadlock_detector
-                            .add_edge(txn.get_transaction_id(), req.txn_id);
-                    }
+                for blocker in queue_guard.blockers(txn.get_transaction_id(), lock_mode) {
+                    self.deadlock_detector
+                        .add_edge(txn.get_transaction_id(), blocker);
                 }
             }
 
@@ -1263,8 +1322,9 @@ impl LockManager {
         }
 
         // 2. Release the lock
-        self.lock_state_manager
-            .release_row_lock(txn.get_transaction_id(), rid)?;
+        let waits = self
+            .lock_state_manager
+            .release_row_lock(txn.get_transaction_id(), oid, rid)?;
 
         // 3. Update transaction state based on isolation level and lock mode
         match txn.get_isolation_level() {
@@ -1295,8 +1355,9 @@ impl LockManager {
             },
         }
 
-        // 4. Remove edges from waits-for graph
+        // 4. Update the waits-for graph
         self.deadlock_detector.remove_edge(txn.get_transaction_id());
+        self.deadlock_detector.update(waits);
 
         Ok(true)
     }
@@ -1332,7 +1393,9 @@ impl LockManager {
     pub fn force_release_txn(&self, txn_id: TxnId) -> Result<(), LockError> {
         // Remove waits-for edges for this transaction as it no longer blocks others.
         self.deadlock_detector.remove_edge(txn_id);
-        self.lock_state_manager.force_release_txn(txn_id)
+        let waits = self.lock_state_manager.force_release_txn(txn_id)?;
+        self.deadlock_detector.update(waits);
+        Ok(())
     }
 
     /// Checks if this transaction was selected as a deadlock victim.
-- 
2.43.0


From 629100791229f81dbca77aec6097d49eef3bef85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:53 +0000
Subject: [PATCH 11/49] fix: a transaction that has already ended gets no
 second commit or abort record

---
 .../transaction_manager_factory.rs            | 28 +++++++++++++++++--
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/concurrency/transaction_manager_factory.rs b/src/concurrency/transaction_manager_factory.rs
index 788ada6..074ff1c 100644
--- a/src/concurrency/transaction_manager_factory.rs
+++ b/src/concurrency/transaction_manager_factory.rs
@@ -144,7 +144,7 @@ use log::{error, warn};
 
 use crate::buffer::buffer_pool_manager_async::BufferPoolManager;
 use crate::concurrency::lock_manager::LockManager;
-use crate::concurrency::transaction::IsolationLevel;
+use crate::concurrency::transaction::{IsolationLevel, TransactionState};
 use crate::concurrency::transaction_manager::TransactionManager;
 use crate::recovery::wal_manager::WALManager;
 use crate::sql::execution::transaction_context::TransactionContext;
@@ -305,6 +305,22 @@ impl TransactionManagerFactory {
     pub async fn commit_transaction(&self, ctx: Arc<TransactionContext>) -> bool {
         let txn = ctx.get_transaction();
 
+        // A transaction that has already ended gets no second outcome: only its locks go.
+        let outcome = match txn.get_state() {
+            TransactionState::Aborted => Some(false),
+            TransactionState::Committed => Some(true),
+            _ => None,
+        };
+        if let Some(committed) = outcome {
+            if let Err(e) = self
+                .lock_manager
+                .force_release_txn(txn.get_transaction_id())
+            {
+                warn!("Lock release failed for an ended transaction: {}", e);
+            }
+            return committed;
+        }
+
         // Write commit record before persisting data (WAL-first).
         if let Some(wal_manager) = &self.wal_manager {
             let lsn = wal_manager.write_commit_record(txn.as_ref());
@@ -372,8 +388,14 @@ impl TransactionManagerFactory {
     pub fn abort_transaction(&self, ctx: Arc<TransactionContext>) {
         let txn = ctx.get_transaction();
 
-        // Log abort if WAL is available.
-        if let Some(wal_manager) = &self.wal_manager {
+        // Log abort if WAL is available (and there is still something to abort).
+        let ended = matches!(
+            txn.get_state(),
+            TransactionState::Aborted | TransactionState::Committed
+        );
+        if let Some(wal_manager) = &self.wal_manager
+            && !ended
+        {
             let lsn = wal_manager.write_abort_record(txn.as_ref());
             txn.set_prev_lsn(lsn);
         }
-- 
2.43.0


From 194a659283c6d07ab70730d95dcd2a77afc3392c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:53 +0000
Subject: [PATCH 12/49] fix: a write never replaces another transaction's
 uncommitted version, nor leaves a stale undo link when it is refused

---
 src/storage/table/table_heap.rs               | 23 ++++++
 src/storage/table/transactional_table_heap.rs | 80 +++++++++++++------
 2 files changed, 80 insertions(+), 23 deletions(-)

diff --git a/src/storage/table/table_heap.rs b/src/storage/table/table_heap.rs
index 58c5cb0..418b9e7 100644
--- a/src/storage/table/table_heap.rs
+++ b/src/storage/table/table_heap.rs
@@ -1149,6 +1149,29 @@ impl TableHeap {
             .map_err(|e| format!("Failed to update tuple: {}", e))
     }
 
+    /// Like [`Self::update_tuple_internal`], but only if the version on the page still is the
+    /// one described by `expected`: the check and the write happen under the table latch.
+    pub fn update_tuple_if_unchanged(
+        &self,
+        meta: Arc<TupleMeta>,
+        tuple: &Tuple,
+        rid: RID,
+        expected: &TupleMeta,
+    ) -> Result<RID, String> {
+        let _write_guard = self.latch.write();
+
+        let page_guard = self.get_page(rid.get_page_id())?;
+        let mut page = page_guard.write();
+
+        if page.get_tuple_meta(&rid)? != *expected {
+            return Err("Tuple was changed by another transaction".to_string());
+        }
+
+        page.update_tuple(*meta, tuple, rid)
+            .map(|_| rid)
+            .map_err(|e| format!("Failed to update tuple: {}", e))
+    }
+
     pub fn get_tuple_internal(
         &self,
         rid: RID,
diff --git a/src/storage/table/transactional_table_heap.rs b/src/storage/table/transactional_table_heap.rs
index 8aa0b27..e5e9003 100644
--- a/src/storage/table/transactional_table_heap.rs
+++ b/src/storage/table/transactional_table_heap.rs
@@ -484,7 +484,7 @@ impl TransactionalTableHeap {
 
     pub fn update_tuple(
         &self,
-        meta: &TupleMeta,
+        _meta: &TupleMeta,
         tuple: &Tuple,
         rid: RID,
         txn_ctx: Arc<TransactionContext>,
@@ -500,7 +500,7 @@ impl TransactionalTableHeap {
         let (current_meta, current_tuple) = self.table_heap.get_tuple_internal(rid, false)?;
 
         // Visibility checks
-        if current_meta.get_creator_txn_id() != meta.get_creator_txn_id()
+        if current_meta.get_creator_txn_id() != txn.get_transaction_id()
             && !current_meta.is_committed()
         {
             return Err("Cannot update uncommitted tuple from another transaction".to_string());
@@ -550,19 +550,6 @@ impl TransactionalTableHeap {
             txn.get_undo_log_num()
         );
 
-        // Update version chain - preserve the current version's link
-        let current_version_link = txn_manager.get_undo_link(rid);
-        log::debug!(
-            "Current version link before update: {:?}, txn_id={}, current_meta: creator={}, idx={:?}",
-            current_version_link,
-            txn.get_transaction_id(),
-            current_meta.get_creator_txn_id(),
-            current_meta.get_undo_log_idx_raw_opt()
-        );
-
-        // Update the undo link to point to the current version
-        txn_manager.update_undo_link(rid, Some(undo_link), None);
-
         // Create new meta with current transaction as creator
         let mut new_meta = TupleMeta::new(txn.get_transaction_id());
         // Uncommitted versions should not have a commit timestamp.
@@ -579,14 +566,58 @@ impl TransactionalTableHeap {
         );
 
         // Perform update
-        let result = self
-            .table_heap
-            .update_tuple_internal(Arc::from(new_meta), tuple, rid)?;
+        let result = self.write_version(
+            Arc::from(new_meta),
+            tuple,
+            rid,
+            &current_meta,
+            undo_link,
+            &txn_manager,
+        )?;
         txn.append_write_set(self.table_oid, rid);
 
         Ok(result)
     }
 
+    /// Writes a new version of `rid` over the version `replaced`, which `undo_link` restores.
+    ///
+    /// The link is in place before the row changes. If another transaction got to the row
+    /// since `replaced` was read, or the page refuses the write, the row keeps the version and
+    /// the link it has.
+    fn write_version(
+        &self,
+        meta: Arc<TupleMeta>,
+        tuple: &Tuple,
+        rid: RID,
+        replaced: &TupleMeta,
+        undo_link: UndoLink,
+        txn_manager: &TransactionManager,
+    ) -> Result<RID, String> {
+        let previous_link = txn_manager.get_undo_link(rid);
+        let unchanged = previous_link.clone();
+        if !txn_manager.update_undo_link(
+            rid,
+            Some(undo_link.clone()),
+            Some(Box::new(move |current| current == unchanged)),
+        ) {
+            return Err("Tuple was changed by another transaction".to_string());
+        }
+
+        let result = self
+            .table_heap
+            .update_tuple_if_unchanged(meta, tuple, rid, replaced);
+        if result.is_err() {
+            txn_manager.update_undo_link(
+                rid,
+                previous_link,
+                Some(Box::new(move |current| {
+                    current.as_ref() == Some(&undo_link)
+                })),
+            );
+        }
+        result
+    }
+
     // Helper method for REPEATABLE_READ and SERIALIZABLE
     fn get_visible_version(
         &self,
@@ -805,9 +836,6 @@ impl TransactionalTableHeap {
             undo_link.prev_log_idx
         );
 
-        // Update version chain
-        txn_manager.update_undo_link(rid, Some(undo_link), None);
-
         // Create new meta with current transaction as creator
         let mut new_meta = TupleMeta::new(txn.get_transaction_id());
         new_meta.set_deleted(true); // Mark as deleted
@@ -825,8 +853,14 @@ impl TransactionalTableHeap {
         );
 
         // Update the tuple with deleted metadata
-        self.table_heap
-            .update_tuple_internal(Arc::from(new_meta), &current_tuple, rid)?;
+        self.write_version(
+            Arc::from(new_meta),
+            &current_tuple,
+            rid,
+            &current_meta,
+            undo_link,
+            &txn_manager,
+        )?;
         txn.append_write_set(self.table_oid, rid);
 
         Ok(())
-- 
2.43.0


From fe6d6b0c899d88700ec567a214f656f3a5ea1460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:54 +0000
Subject: [PATCH 13/49] fix: READ COMMITTED reads the latest committed version
 and SNAPSHOT never reads uncommitted data

---
 src/storage/table/table_heap.rs               | 78 ++++---------------
 src/storage/table/transactional_table_heap.rs | 12 ++-
 2 files changed, 23 insertions(+), 67 deletions(-)

diff --git a/src/storage/table/table_heap.rs b/src/storage/table/table_heap.rs
index 418b9e7..970ab07 100644
--- a/src/storage/table/table_heap.rs
+++ b/src/storage/table/table_heap.rs
@@ -231,7 +231,9 @@ use parking_lot::RwLock;
 
 use crate::buffer::buffer_pool_manager_async::BufferPoolManager;
 use crate::catalog::schema::Schema;
-use crate::common::config::{INVALID_PAGE_ID, INVALID_TXN_ID, PageId, TableOidT};
+use crate::common::config::{
+    INVALID_PAGE_ID, INVALID_TS, INVALID_TXN_ID, PageId, TableOidT, Timestamp,
+};
 use crate::common::exception::PageError;
 use crate::common::rid::RID;
 use crate::concurrency::lock_manager::LockManager;
@@ -601,57 +603,13 @@ impl TableHeap {
                 }
             },
 
-            IsolationLevel::ReadCommitted => {
-                // For READ_COMMITTED, only return committed versions
-                if meta.is_committed() {
-                    if meta.is_deleted() {
-                        Err("Tuple is deleted".to_string())
-                    } else {
-                        Ok((Arc::new(meta), Arc::new(tuple)))
-                    }
-                }
-                // If the latest version is uncommitted (update/delete) by another txn,
-                // walk the version chain to find the latest committed version.
-                else {
-                    let txn_manager = txn_ctx.get_transaction_manager();
-                    let current_link = txn_manager.get_undo_link(rid);
-
-                    if let Some(ref undo_link) = current_link {
-                        let undo_log = match txn_manager.get_undo_log(undo_link.clone()) {
-                            Ok(log) => log,
-                            Err(e) => return Err(format!("Undo log missing: {}", e)),
-                        };
-
-                        let mut prev_meta = TupleMeta::new(undo_log.prev_version.prev_txn);
-                        prev_meta.set_commit_timestamp(undo_log.ts);
-                        let prev_deleted = if undo_log.original_rid.is_some() {
-                            // Delete undo logs store the pre-delete version; treat it as live.
-                            false
-                        } else {
-                            undo_log.is_deleted
-                        };
-                        prev_meta.set_deleted(prev_deleted);
-                        if undo_log.prev_version.is_valid() {
-                            prev_meta
-                                .set_undo_log_idx(undo_log.prev_version.prev_log_idx)
-                                .map_err(|e| e.to_string())?;
-                        } else {
-                            prev_meta.clear_undo_log_idx();
-                        }
-
-                        if prev_meta.is_deleted() {
-                            return Err("Tuple is deleted".to_string());
-                        }
-                        // First committed version in chain is what READ_COMMITTED should see.
-                        Ok((Arc::new(prev_meta), undo_log.tuple.clone()))
-                    } else {
-                        Err("No visible version found".to_string())
-                    }
-                }
-            },
-
-            IsolationLevel::RepeatableRead | IsolationLevel::Serializable => {
-                let read_ts = txn.read_ts();
+            isolation_level => {
+                // READ_COMMITTED sees the latest committed version, whenever it was committed;
+                // the snapshot levels see the latest one committed before they began.
+                let read_ts = match isolation_level {
+                    IsolationLevel::ReadCommitted => Timestamp::MAX,
+                    _ => txn.read_ts(),
+                };
                 match meta.visibility_status(txn_id, read_ts) {
                     TupleVisibility::Visible => return Ok((Arc::new(meta), Arc::new(tuple))),
                     TupleVisibility::Deleted => return Err("Tuple is deleted".to_string()),
@@ -669,7 +627,11 @@ impl TableHeap {
                     };
 
                     let mut prev_meta = TupleMeta::new(undo_log.prev_version.prev_txn);
-                    prev_meta.set_commit_timestamp(undo_log.ts);
+                    if undo_log.ts == INVALID_TS {
+                        prev_meta.set_commit_timestamp_opt(None);
+                    } else {
+                        prev_meta.set_commit_timestamp(undo_log.ts);
+                    }
                     let prev_deleted = if undo_log.original_rid.is_some() {
                         // Delete undo logs store the pre-delete version; treat it as live.
                         false
@@ -702,16 +664,6 @@ impl TableHeap {
 
                 Err("No visible version found".to_string())
             },
-
-            IsolationLevel::Snapshot => {
-                // For SNAPSHOT, assume similar behavior to SERIALIZABLE for now
-                // This may involve checking for a consistent snapshot version
-                if meta.is_deleted() {
-                    Err("Tuple is deleted".to_string())
-                } else {
-                    Ok((Arc::new(meta), Arc::new(tuple)))
-                }
-            },
         }
     }
 
diff --git a/src/storage/table/transactional_table_heap.rs b/src/storage/table/transactional_table_heap.rs
index e5e9003..8fd083c 100644
--- a/src/storage/table/transactional_table_heap.rs
+++ b/src/storage/table/transactional_table_heap.rs
@@ -256,7 +256,7 @@ use std::sync::Arc;
 use log::{debug, info, warn};
 
 use crate::catalog::schema::Schema;
-use crate::common::config::{INVALID_PAGE_ID, INVALID_TS, TableOidT};
+use crate::common::config::{INVALID_PAGE_ID, INVALID_TS, TableOidT, Timestamp};
 use crate::common::rid::RID;
 use crate::concurrency::lock_manager::LockMode;
 use crate::concurrency::transaction::{
@@ -475,10 +475,14 @@ impl TransactionalTableHeap {
                 } else {
                     // Head version is uncommitted by another transaction; walk the chain
                     // to find the latest committed version that is visible.
-                    self.get_visible_version(rid, txn, txn_manager, meta, tuple)
+                    // Someone else's uncommitted version: the latest committed one below it counts.
+                    self.get_visible_version(rid, txn, Timestamp::MAX, txn_manager, meta, tuple)
                 }
             },
-            _ => self.get_visible_version(rid, txn, txn_manager, meta, tuple),
+            _ => {
+                let read_ts = txn.read_ts();
+                self.get_visible_version(rid, txn, read_ts, txn_manager, meta, tuple)
+            },
         }
     }
 
@@ -623,12 +627,12 @@ impl TransactionalTableHeap {
         &self,
         rid: RID,
         txn: Arc<Transaction>,
+        read_ts: Timestamp,
         txn_manager: Arc<TransactionManager>,
         meta: Arc<TupleMeta>,
         tuple: Arc<Tuple>,
     ) -> Result<(Arc<TupleMeta>, Arc<Tuple>), String> {
         let txn_id = txn.get_transaction_id();
-        let read_ts = txn.read_ts();
         log::debug!(
             "Starting version chain traversal for RID {:?} - Latest version: creator_txn={}, commit_ts={:?}, deleted={}, txn_id={}, read_ts={}",
             rid,
-- 
2.43.0


From 22e67adce320b8d3b2355e0070ba1640b957aefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:54 +0000
Subject: [PATCH 14/49] fix: abort restores the version the transaction first
 replaced, with its owner and undo link

---
 src/concurrency/transaction_manager.rs | 222 ++++++++-----------------
 1 file changed, 66 insertions(+), 156 deletions(-)

diff --git a/src/concurrency/transaction_manager.rs b/src/concurrency/transaction_manager.rs
index 5c33bdf..fc7b3ee 100644
--- a/src/concurrency/transaction_manager.rs
+++ b/src/concurrency/transaction_manager.rs
@@ -631,164 +631,15 @@ impl TransactionManager {
             txn.get_transaction_id()
         );
         for (table_oid, rid) in write_set {
-            log::debug!(
-                "ABORT: Processing write operation for table_oid={}, rid={:?}",
-                table_oid,
-                rid
-            );
             if let Some(table_heap) = self.get_table_heap(table_oid) {
-                log::debug!("ABORT: Found table heap for table_oid={}", table_oid);
-                if let Some(undo_link) = self.get_undo_link(rid) {
-                    log::debug!(
-                        "ABORT: Found undo link for RID {:?}: prev_txn={}, prev_log_idx={}",
-                        rid,
-                        undo_link.prev_txn,
-                        undo_link.prev_log_idx
-                    );
-                    log::debug!(
-                        "Found undo link for RID {:?}: prev_txn={}, prev_log_idx={}",
-                        rid,
-                        undo_link.prev_txn,
-                        undo_link.prev_log_idx
-                    );
-                    // Get the undo log
-                    let undo_log = match self.get_undo_log(undo_link.clone()) {
-                        Ok(log) => log,
-                        Err(e) => {
-                            log::error!(
-                                "ABORT: Undo log not found for RID {:?} (txn={}, idx={}): {}",
-                                rid,
-                                undo_link.prev_txn,
-                                undo_link.prev_log_idx,
-                                e
-                            );
-                            continue;
-                        },
-                    };
-
-                    // Check if this was a deleted tuple that needs to be restored
-                    // If the original_rid is present, it means this was a delete operation
-                    if let Some(original_rid) = undo_log.original_rid {
-                        log::debug!(
-                            "ABORT: Restoring deleted tuple with original RID {:?}",
-                            original_rid
-                        );
-
-                        // Create metadata for the restored tuple
-                        let mut meta = TupleMeta::new(undo_link.prev_txn);
-                        if undo_log.ts == INVALID_TS {
-                            meta.set_commit_timestamp_opt(None);
-                        } else {
-                            meta.set_commit_timestamp(undo_log.ts);
-                        }
-                        meta.set_deleted(false); // Explicitly set to false for restored tuples
-                        meta.set_undo_log_idx(undo_link.prev_log_idx)
-                            .map_err(|e| format!("Invalid undo log index during restore: {}", e))
-                            .unwrap();
-
-                        // For deleted tuples, we need a different approach
-                        // First get the page directly to bypass the deletion check
-                        if let Some(page_guard) = table_heap
-                            .get_table_heap()
-                            .get_bpm()
-                            .fetch_page::<TablePage>(original_rid.get_page_id())
-                        {
-                            // First update the metadata to unmark the deletion
-                            {
-                                let mut page = page_guard.write();
-                                if let Err(e) = page.update_tuple_meta(meta, &original_rid) {
-                                    log::error!(
-                                        "Failed to update tuple metadata during restore: {}",
-                                        e
-                                    );
-                                    continue;
-                                }
-                                log::debug!(
-                                    "Successfully updated tuple metadata to unmark deletion"
-                                );
-                            }
-
-                            // Now that the tuple is no longer marked as deleted, we can restore its data
-                            if let Err(e) = table_heap.rollback_tuple(
-                                Arc::from(meta),
-                                &undo_log.tuple,
-                                original_rid,
-                            ) {
-                                log::error!("Failed to restore deleted tuple data: {}", e);
-                            } else {
-                                log::debug!(
-                                    "Successfully restored deleted tuple at RID {:?}",
-                                    original_rid
-                                );
-                            }
-                        } else {
-                            log::error!(
-                                "Failed to fetch page for deleted tuple restoration: page_id={}",
-                                original_rid.get_page_id()
-                            );
-                        }
-                    } else {
-                        // Regular update rollback
-                        // Restore the previous version
-                        let mut meta = TupleMeta::new(undo_link.prev_txn);
-                        if undo_log.ts == INVALID_TS {
-                            meta.set_commit_timestamp_opt(None);
-                        } else {
-                            meta.set_commit_timestamp(undo_log.ts);
-                        }
-                        meta.set_deleted(undo_log.is_deleted);
-                        meta.set_undo_log_idx(undo_link.prev_log_idx)
-                            .map_err(|e| format!("Invalid undo log index during rollback: {}", e))
-                            .unwrap();
-
-                        // Use a reference to the Arc<Tuple> without cloning
-                        log::debug!(
-                            "Rolling back tuple at RID {:?} with data: {:?}",
-                            rid,
-                            undo_log.tuple
-                        );
-                        if let Err(e) =
-                            table_heap.rollback_tuple(Arc::from(meta), &undo_log.tuple, rid)
-                        {
-                            log::error!("Failed to rollback tuple: {}", e);
-                        } else {
-                            log::debug!("Successfully rolled back tuple at RID {:?}", rid);
-                        }
-                    }
-
-                    // Update the undo link to point to the previous version
-                    let prev_version_link = if undo_log.prev_version.is_valid() {
-                        Some(undo_log.prev_version.clone())
-                    } else {
-                        None
-                    };
-                    self.update_undo_link(rid, prev_version_link, None);
-                } else {
-                    log::debug!(
-                        "ABORT: No undo link found for RID {:?} - marking as deleted",
-                        rid
-                    );
-                    // If no undo link exists, this was a newly inserted tuple
-                    // Mark it as deleted since it was part of an aborted transaction
-                    let mut meta = TupleMeta::new(txn.get_transaction_id());
-                    meta.set_deleted(true);
-                    // Uncommitted/aborted versions should not have a commit timestamp.
-                    meta.set_commit_timestamp_opt(None);
-
-                    // Update the tuple metadata to mark it as deleted
-                    if let Some(page_guard) = table_heap
-                        .get_table_heap()
-                        .get_bpm()
-                        .fetch_page::<TablePage>(rid.get_page_id())
-                    {
-                        let mut page = page_guard.write();
-                        if let Ok((_, _)) = page.get_tuple(&rid, true)
-                            && let Err(e) = page.update_tuple_meta(meta, &rid)
-                        {
-                            log::error!("Failed to mark tuple as deleted: {}", e);
-                        }
-                    }
+                if let Err(e) = self.rollback_row(&txn, &table_heap.get_table_heap(), rid) {
+                    log::error!("ABORT: Failed to roll back RID {:?}: {}", rid, e);
                 }
+            } else {
+                log::warn!(
+                    "ABORT: No registered table heap found for table_oid {}",
+                    table_oid
+                );
             }
         }
 
@@ -806,6 +657,65 @@ impl TransactionManager {
         self.prune_completed_transactions();
     }
 
+    /// Puts back the version of `rid` that `txn` first replaced, with that version's metadata
+    /// and undo link; a row the transaction inserted itself is left deleted.
+    ///
+    /// A row that holds some other transaction's version is left alone.
+    fn rollback_row(
+        &self,
+        txn: &Transaction,
+        table_heap: &TableHeap,
+        rid: RID,
+    ) -> Result<(), String> {
+        let txn_id = txn.get_transaction_id();
+        let (current_meta, _) = table_heap.get_tuple_internal(rid, true)?;
+        if current_meta.get_creator_txn_id() != txn_id {
+            return Ok(());
+        }
+
+        // The transaction's own undo logs for this row, newest to oldest: the oldest one holds
+        // the version that was there before the transaction touched the row.
+        let mut link = current_meta
+            .try_get_undo_log_idx_opt()
+            .map_err(|e| e.to_string())?
+            .map(|idx| UndoLink::new(txn_id, idx));
+        let mut first_replaced = None;
+        while let Some(own) = link.take() {
+            let log = self.get_undo_log(own)?;
+            if log.prev_version.is_valid() && log.prev_version.prev_txn == txn_id {
+                link = Some(log.prev_version.clone());
+            }
+            first_replaced = Some(log);
+        }
+
+        match first_replaced {
+            Some(log) if log.prev_version.prev_txn != txn_id => {
+                let prev_link = Some(log.prev_version.clone()).filter(UndoLink::is_valid);
+                let mut meta = TupleMeta::new(log.prev_version.prev_txn);
+                meta.set_commit_timestamp_opt(Some(log.ts).filter(|ts| *ts != INVALID_TS));
+                meta.set_deleted(log.original_rid.is_none() && log.is_deleted);
+                if let Some(prev) = &prev_link {
+                    meta.set_undo_log_idx(prev.prev_log_idx)
+                        .map_err(|e| e.to_string())?;
+                }
+                table_heap.update_tuple_internal(Arc::from(meta), &log.tuple, rid)?;
+                self.update_undo_link(rid, prev_link, None);
+            },
+            _ => {
+                // Inserted by the transaction itself: never to be seen by anyone.
+                let mut meta = TupleMeta::new(txn_id);
+                meta.set_deleted(true);
+                meta.set_commit_timestamp_opt(None);
+                table_heap
+                    .get_page(rid.get_page_id())?
+                    .write()
+                    .update_tuple_meta(meta, &rid)?;
+                self.update_undo_link(rid, None, None);
+            },
+        }
+        Ok(())
+    }
+
     /// Performs garbage collection of old tuple versions.
     ///
     /// This method removes undo links and version information that are no longer
-- 
2.43.0


From 3e87a9a079dfe9671bdd8673cee1ea1160ab8d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:13 +0000
Subject: [PATCH 15/49] fix: garbage collection keeps undo links that a
 snapshot or a rollback still needs

---
 src/concurrency/transaction_manager.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/concurrency/transaction_manager.rs b/src/concurrency/transaction_manager.rs
index fc7b3ee..c2e6b3d 100644
--- a/src/concurrency/transaction_manager.rs
+++ b/src/concurrency/transaction_manager.rs
@@ -727,7 +727,7 @@ impl TransactionManager {
     ///
     /// 1. Get the current watermark.
     /// 2. For each page's version info, remove undo links pointing to
-    ///    transactions with timestamps below the watermark.
+    ///    transactions that have ended, unless they committed above the watermark.
     /// 3. Remove empty page version info entries.
     /// 4. Prune completed transactions that are no longer needed.
     pub fn garbage_collection(&self) {
@@ -736,12 +736,17 @@ impl TransactionManager {
 
         // Remove version info for pages that are no longer needed
         version_info.retain(|_, page_info| {
-            // Retain only links that point to transactions newer than watermark
+            // Retain links that a snapshot or a rollback may still need
             page_info.prev_link.write().retain(|_, link| {
-                if let Some(txn) = self.state.txn_map.read().get(&link.prev_txn) {
-                    txn.read_ts() > watermark
-                } else {
-                    false
+                match self.state.txn_map.read().get(&link.prev_txn) {
+                    Some(txn) => match txn.get_state() {
+                        // Some snapshot may predate this commit and need the older version.
+                        TransactionState::Committed => txn.commit_ts() > watermark,
+                        TransactionState::Aborted => false,
+                        // A live transaction needs its undo logs to roll back.
+                        _ => true,
+                    },
+                    None => false,
                 }
             });
             !page_info.prev_link.read().is_empty()
-- 
2.43.0


From 7be2f617baf96a0b99c5968a9fee2e390bb466cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:14 +0000
Subject: [PATCH 16/49] fix: shutdown aborts every transaction that has not
 ended

---
 src/concurrency/transaction_manager.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/concurrency/transaction_manager.rs b/src/concurrency/transaction_manager.rs
index c2e6b3d..b968d2a 100644
--- a/src/concurrency/transaction_manager.rs
+++ b/src/concurrency/transaction_manager.rs
@@ -409,7 +409,12 @@ impl TransactionManager {
             let txn_map = self.state.txn_map.read();
             txn_map
                 .values()
-                .filter(|txn| txn.get_state() == TransactionState::Running)
+                .filter(|txn| {
+                    !matches!(
+                        txn.get_state(),
+                        TransactionState::Committed | TransactionState::Aborted
+                    )
+                })
                 .cloned()
                 .collect::<Vec<_>>()
         };
-- 
2.43.0


From 9d42a18d6ce50e1f378d027862a166a80cae26f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:14 +0000
Subject: [PATCH 17/49] fix: no snapshot falls between a commit and the
 stamping of its tuples

---
 src/concurrency/transaction_manager.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/concurrency/transaction_manager.rs b/src/concurrency/transaction_manager.rs
index b968d2a..17de372 100644
--- a/src/concurrency/transaction_manager.rs
+++ b/src/concurrency/transaction_manager.rs
@@ -517,18 +517,18 @@ impl TransactionManager {
             },
         }
 
-        // Use logical watermark-based commit to set commit_ts and update running set
-        {
-            let mut running_txns = self.state.running_txns.write();
-            txn.commit(&mut running_txns);
-        }
-
-        // Update transaction map after commit
+        // Make sure the transaction can be found by readers of its versions.
         {
             let mut txn_map = self.state.txn_map.write();
             txn_map.insert(txn.get_transaction_id(), txn.clone());
         }
 
+        // Use logical watermark-based commit to set commit_ts and update running set. No
+        // transaction may take a snapshot past this commit until all of its tuples carry the
+        // commit timestamp, so the running set stays locked while they are stamped.
+        let mut running_txns = self.state.running_txns.write();
+        txn.commit(&mut running_txns);
+
         // Mark all tuples written by this transaction as committed by setting their commit timestamps
         // We do this BEFORE flushing so the metadata updates are persisted with the batch.
         for (table_oid, rid) in txn.get_write_set() {
@@ -578,6 +578,8 @@ impl TransactionManager {
             }
         }
 
+        drop(running_txns);
+
         // Attempt to drop completed transactions once no active reader needs them.
         self.prune_completed_transactions();
 
-- 
2.43.0


From 117e813e4dd69183ebf3060823982b017422cf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:30 +0000
Subject: [PATCH 18/49] fix: table page slots never overlap, keep room for
 their metadata and can always be rolled back in place

---
 src/storage/page/page_types/table_page.rs | 100 +++++++++++-----------
 1 file changed, 49 insertions(+), 51 deletions(-)

diff --git a/src/storage/page/page_types/table_page.rs b/src/storage/page/page_types/table_page.rs
index 7712c2e..02ff63e 100644
--- a/src/storage/page/page_types/table_page.rs
+++ b/src/storage/page/page_types/table_page.rs
@@ -245,7 +245,7 @@ impl TablePage {
     }
 
     /// Gets the next offset to insert a tuple.
-    pub fn get_next_tuple_offset(&self, meta: &TupleMeta, tuple: &Tuple) -> Option<u16> {
+    pub fn get_next_tuple_offset(&self, _meta: &TupleMeta, tuple: &Tuple) -> Option<u16> {
         // First check if the tuple is too large for any page
         if self.is_tuple_too_large(tuple) {
             debug!("Tuple is too large for any page, rejecting");
@@ -268,15 +268,18 @@ impl TablePage {
             return None;
         }
 
-        let slot_end_offset = if self.header.num_tuples > 0 {
-            self.tuple_info[self.header.num_tuples as usize - 1].0
-        } else {
-            DB_PAGE_SIZE as u16
-        };
+        // Tuples grow down from the end of the page; a relocated tuple may lie below the one
+        // inserted last.
+        let slot_end_offset = self
+            .tuple_info
+            .iter()
+            .map(|(offset, _, _)| *offset)
+            .min()
+            .unwrap_or(DB_PAGE_SIZE as u16);
 
         let tuple_offset = slot_end_offset.saturating_sub(tuple_size);
 
-        let metadata_footprint = self.metadata_footprint_with_new(meta)?;
+        let metadata_footprint = self.metadata_footprint_with_new();
 
         // Ensure we have enough space for tuple data + metadata region.
         if tuple_offset < metadata_footprint as u16 {
@@ -303,15 +306,30 @@ impl TablePage {
 
         // Serialize the new tuple data
         let tuple_data = postcard::to_allocvec(tuple).map_err(|_| PageError::SerializationError)?;
+        if tuple_data.len() > TUPLE_MAX_SERIALIZED_SIZE {
+            return Err(PageError::TupleInvalid);
+        }
         let new_size = tuple_data.len() as u16;
 
         // Get current tuple info
-        let (current_offset, current_size, _) = self.tuple_info[tuple_id];
+        let (current_offset, current_size, old_meta) = self.tuple_info[tuple_id];
+
+        // The slot owns the bytes up to the next tuple, so that a tuple that has shrunk can
+        // always get its previous size back.
+        let capacity = self
+            .tuple_info
+            .iter()
+            .map(|(offset, _, _)| *offset)
+            .filter(|offset| *offset > current_offset)
+            .min()
+            .unwrap_or(DB_PAGE_SIZE as u16)
+            - current_offset;
 
         // Try to update in place if the new tuple size is smaller than or equal to current size
-        if new_size <= current_size {
+        if new_size <= capacity {
             // Update metadata in tuple_info
             self.tuple_info[tuple_id].2 = meta;
+            self.count_deletion(&old_meta, &meta);
 
             // Update the size to reflect the actual new size
             self.tuple_info[tuple_id].1 = new_size;
@@ -364,6 +382,7 @@ impl TablePage {
 
             // Update tuple info with new location
             self.tuple_info[tuple_id] = (new_offset, new_size, meta);
+            self.count_deletion(&old_meta, &meta);
 
             // Write new tuple data
             let start = new_offset as usize;
@@ -406,7 +425,7 @@ impl TablePage {
             self.tuple_info.len()
         );
 
-        let old_meta = &self.tuple_info[tuple_id].2;
+        let old_meta = self.tuple_info[tuple_id].2;
         debug!(
             "Old meta - creator_txn: {}, commit_ts: {:?}, deleted: {}",
             old_meta.get_creator_txn_id(),
@@ -420,19 +439,7 @@ impl TablePage {
             meta.is_deleted()
         );
 
-        if !old_meta.is_deleted() && meta.is_deleted() {
-            self.header.num_deleted_tuples += 1;
-            debug!(
-                "Incrementing num_deleted_tuples to {}",
-                self.header.num_deleted_tuples
-            );
-        } else if old_meta.is_deleted() && !meta.is_deleted() {
-            self.header.num_deleted_tuples = self.header.num_deleted_tuples.saturating_sub(1);
-            debug!(
-                "Decrimenting num_deleted_tuples to {}",
-                self.header.num_deleted_tuples
-            );
-        }
+        self.count_deletion(&old_meta, &meta);
 
         // Simple copy since TupleMeta is now Copy
         self.tuple_info[tuple_id].2 = meta;
@@ -446,6 +453,15 @@ impl TablePage {
         Ok(())
     }
 
+    /// Keeps the number of deleted tuples right when a tuple's metadata is replaced.
+    fn count_deletion(&mut self, old_meta: &TupleMeta, meta: &TupleMeta) {
+        if !old_meta.is_deleted() && meta.is_deleted() {
+            self.header.num_deleted_tuples += 1;
+        } else if old_meta.is_deleted() && !meta.is_deleted() {
+            self.header.num_deleted_tuples = self.header.num_deleted_tuples.saturating_sub(1);
+        }
+    }
+
     /// Gets a tuple from the page.
     ///
     /// # Parameters
@@ -866,17 +882,14 @@ impl TablePage {
         ) as u16
     }
 
-    /// Returns the encoded size of all tuple-info entries (offset+size + encoded meta).
+    /// Bytes reserved for a tuple-info entry: offset+size and the longest encoding a
+    /// `TupleMeta` can have. A meta that grows later (a commit timestamp, an undo link) must
+    /// never run into the tuple data.
+    const TUPLE_INFO_BYTES: usize = 4 + (10 + (1 + 10) + 1 + (1 + 10));
+
+    /// Returns the space set aside for all tuple-info entries.
     fn encoded_tuple_info_bytes(&self) -> usize {
-        self.tuple_info
-            .iter()
-            .map(|(_, _, meta)| {
-                // 2 bytes offset + 2 bytes size + encoded meta
-                4 + postcard::to_allocvec(meta)
-                    .expect("TupleMeta encoding should not fail")
-                    .len()
-            })
-            .sum()
+        self.tuple_info.len() * Self::TUPLE_INFO_BYTES
     }
 
     fn metadata_footprint_bytes(&self) -> usize {
@@ -887,17 +900,8 @@ impl TablePage {
             + 4 // end magic
     }
 
-    fn metadata_footprint_with_new(&self, meta: &TupleMeta) -> Option<usize> {
-        let meta_len = postcard::to_allocvec(meta).ok()?.len();
-        Some(
-            1 // page type
-                + TablePageHeader::size()
-                + 4 // start magic
-                + self.encoded_tuple_info_bytes()
-                + 4 // offset+size for new tuple
-                + meta_len
-                + 4, // end magic
-        )
+    fn metadata_footprint_with_new(&self) -> usize {
+        self.metadata_footprint_bytes() + Self::TUPLE_INFO_BYTES
     }
 
     /// Gets the total size of all tuple data in the page
@@ -941,13 +945,7 @@ impl TablePage {
             Err(_) => return true, // If we can't serialize it, consider it too large
         };
 
-        // Approximate metadata footprint if this tuple were added using a default meta.
-        // TupleMeta encoding is small; use a representative meta to reserve space.
-        let placeholder_meta = TupleMeta::new(0);
-        let meta_overhead = match self.metadata_footprint_with_new(&placeholder_meta) {
-            Some(bytes) => bytes,
-            None => return true,
-        };
+        let meta_overhead = self.metadata_footprint_with_new();
 
         // Check both the absolute size and relative to page size
         serialized_size > TUPLE_MAX_SERIALIZED_SIZE // hard cap for tuple body
-- 
2.43.0


From ed5fdd2ca72c9ef5dc8fedd05790f3d101fc3798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:17 +0000
Subject: [PATCH 19/49] fix: a table page's bytes always carry its metadata,
 and loading a page image restores it

---
 src/storage/page/page_types/table_page.rs | 47 ++++++++++++++++++-----
 1 file changed, 38 insertions(+), 9 deletions(-)

diff --git a/src/storage/page/page_types/table_page.rs b/src/storage/page/page_types/table_page.rs
index 02ff63e..7ff70d4 100644
--- a/src/storage/page/page_types/table_page.rs
+++ b/src/storage/page/page_types/table_page.rs
@@ -60,7 +60,7 @@ use crate::common::config::{DB_PAGE_SIZE, INVALID_PAGE_ID, PageId, TUPLE_MAX_SER
 use crate::common::exception::PageError;
 use crate::common::rid::RID;
 use crate::storage::page::{
-    PAGE_ID_OFFSET, PAGE_TYPE_OFFSET, Page, PageTrait, PageType, PageTypeId,
+    PAGE_TYPE_OFFSET, Page, PageTrait, PageType, PageTypeId,
 };
 use crate::storage::table::tuple::{Tuple, TupleMeta};
 
@@ -225,8 +225,7 @@ impl Page for TablePage {
             is_dirty: false,
             tuple_info: Vec::new(),
         };
-        page.data[PAGE_TYPE_OFFSET] = Self::TYPE_ID as u8;
-        page.data[PAGE_ID_OFFSET..PAGE_ID_OFFSET + 8].copy_from_slice(&page_id.to_le_bytes());
+        page.write_image();
 
         page
     }
@@ -241,7 +240,14 @@ impl TablePage {
         self.header.num_deleted_tuples = 0;
         self.tuple_info.clear();
         self.is_dirty = false;
-        self.data[PAGE_TYPE_OFFSET] = Self::TYPE_ID as u8;
+        self.write_image();
+    }
+
+    /// Brings the page's bytes, which are what goes to disk, in line with its header and
+    /// tuple metadata.
+    fn write_image(&mut self) {
+        let image = self.serialize();
+        self.data.copy_from_slice(&image);
     }
 
     /// Gets the next offset to insert a tuple.
@@ -349,6 +355,7 @@ impl TablePage {
                     }
                 }
 
+                self.write_image();
                 self.is_dirty = true;
                 Ok(())
             } else {
@@ -389,6 +396,7 @@ impl TablePage {
             let end = start + new_size as usize;
             if end <= self.data.len() {
                 self.data[start..end].copy_from_slice(&tuple_data);
+                self.write_image();
                 self.is_dirty = true;
                 Ok(())
             } else {
@@ -443,6 +451,7 @@ impl TablePage {
 
         // Simple copy since TupleMeta is now Copy
         self.tuple_info[tuple_id].2 = meta;
+        self.write_image();
         self.is_dirty = true;
 
         debug!(
@@ -562,11 +571,13 @@ impl TablePage {
 
     pub fn set_next_page_id(&mut self, page_id: PageId) {
         self.header.next_page_id = page_id;
+        self.write_image();
         self.is_dirty = true;
     }
 
     pub fn set_prev_page_id(&mut self, page_id: PageId) {
         self.header.prev_page_id = page_id;
+        self.write_image();
         self.is_dirty = true;
     }
 
@@ -734,6 +745,10 @@ impl TablePage {
         // Read tuple info entries
         debug!("Reading {} tuple info entries", page.header.num_tuples);
         for i in 0..page.header.num_tuples {
+            if offset + 4 > bytes.len() {
+                return Err(format!("Tuple info {} lies outside the page", i));
+            }
+
             // Read tuple offset and size
             let tuple_offset = u16::from_le_bytes(bytes[offset..offset + 2].try_into().unwrap());
             let size = u16::from_le_bytes(bytes[offset + 2..offset + 4].try_into().unwrap());
@@ -744,6 +759,10 @@ impl TablePage {
                 i, tuple_offset, size
             );
 
+            if tuple_offset as usize + size as usize > bytes.len() {
+                return Err(format!("Tuple {} lies outside the page", i));
+            }
+
             // Read meta - serialize to vec to determine exact encoded size
             let meta: TupleMeta = postcard::from_bytes(&bytes[offset..])
                 .map_err(|e| format!("Failed to deserialize meta: {}", e))?;
@@ -870,6 +889,7 @@ impl TablePage {
         }
 
         self.data[start..end].copy_from_slice(&tuple_data);
+        self.write_image();
         self.is_dirty = true;
         Ok(())
     }
@@ -1024,8 +1044,7 @@ impl TablePage {
             self.is_dirty = true;
 
             // Serialize the page to ensure changes are persisted
-            let serialized = self.serialize();
-            self.data.copy_from_slice(&serialized);
+            self.write_image();
 
             debug!(
                 "Successfully inserted tuple. New num_tuples: {}, tuple_info.len(): {}",
@@ -1109,8 +1128,7 @@ impl TablePage {
             self.is_dirty = true;
 
             // Serialize the page to ensure changes are persisted
-            let serialized = self.serialize();
-            self.data.copy_from_slice(&serialized);
+            self.write_image();
 
             debug!(
                 "Successfully inserted tuple with RID {:?}. New num_tuples: {}, tuple_info.len(): {}",
@@ -1204,6 +1222,16 @@ impl PageTrait for TablePage {
         }
         self.data[offset..offset + new_data.len()].copy_from_slice(new_data);
         self.is_dirty = true;
+
+        // A whole page image replaces the header and the tuple metadata as well.
+        if offset == 0 && new_data.len() == self.data.len() {
+            let image = Self::deserialize(&self.data).map_err(|e| {
+                error!("Invalid table page image: {}", e);
+                PageError::DeserializationError
+            })?;
+            self.header = image.header;
+            self.tuple_info = image.tuple_info;
+        }
         Ok(())
     }
 
@@ -1216,9 +1244,10 @@ impl PageTrait for TablePage {
         self.header.prev_page_id = INVALID_PAGE_ID;
         self.header.next_page_id = INVALID_PAGE_ID;
         self.header.num_tuples = 0;
+        self.header.num_deleted_tuples = 0;
         self.tuple_info.clear();
         self.is_dirty = false;
-        self.data[PAGE_TYPE_OFFSET] = Self::TYPE_ID as u8;
+        self.write_image();
     }
 
     fn as_any(&self) -> &dyn Any {
-- 
2.43.0


From fa8c08a5aacc8fb0e72d5ca814b572fa962749e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:09 +0000
Subject: [PATCH 20/49] fix: at REPEATABLE READ and above a write never
 overwrites a version committed after its snapshot

---
 src/storage/table/transactional_table_heap.rs | 22 +++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/storage/table/transactional_table_heap.rs b/src/storage/table/transactional_table_heap.rs
index 8fd083c..40d01d2 100644
--- a/src/storage/table/transactional_table_heap.rs
+++ b/src/storage/table/transactional_table_heap.rs
@@ -509,6 +509,7 @@ impl TransactionalTableHeap {
         {
             return Err("Cannot update uncommitted tuple from another transaction".to_string());
         }
+        Self::check_unseen_version(&txn, &current_meta)?;
 
         // Create undo log with link to current version
         let txn_manager = txn_ctx.get_transaction_manager();
@@ -583,6 +584,26 @@ impl TransactionalTableHeap {
         Ok(result)
     }
 
+    /// Refuses to overwrite a version that `txn`'s snapshot does not include.
+    ///
+    /// At REPEATABLE READ and above a transaction works on the row its snapshot shows; writing
+    /// over a version committed since then would silently lose that version's change.
+    fn check_unseen_version(txn: &Transaction, current: &TupleMeta) -> Result<(), String> {
+        let snapshot = !matches!(
+            txn.get_isolation_level(),
+            IsolationLevel::ReadUncommitted | IsolationLevel::ReadCommitted
+        );
+        if snapshot
+            && current.get_creator_txn_id() != txn.get_transaction_id()
+            && current
+                .get_commit_timestamp()
+                .is_some_and(|ts| ts > txn.read_ts())
+        {
+            return Err("Tuple was changed by a transaction that committed later".to_string());
+        }
+        Ok(())
+    }
+
     /// Writes a new version of `rid` over the version `replaced`, which `undo_link` restores.
     ///
     /// The link is in place before the row changes. If another transaction got to the row
@@ -797,6 +818,7 @@ impl TransactionalTableHeap {
         {
             return Err("Cannot delete uncommitted tuple from another transaction".to_string());
         }
+        Self::check_unseen_version(&txn, &current_meta)?;
 
         // Create undo log with a link to the current version
         let txn_manager = txn_ctx.get_transaction_manager();
-- 
2.43.0


From 1b9a3a0fe01c48e6dffebf315273ec745aefcde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:32 +0000
Subject: [PATCH 21/49] fix: a commit whose record did not reach the disk is
 reported as failed and rolled back

---
 src/concurrency/transaction_manager_factory.rs | 5 +++++
 src/recovery/wal_manager.rs                    | 8 +++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/concurrency/transaction_manager_factory.rs b/src/concurrency/transaction_manager_factory.rs
index 074ff1c..e6ec9c8 100644
--- a/src/concurrency/transaction_manager_factory.rs
+++ b/src/concurrency/transaction_manager_factory.rs
@@ -325,6 +325,11 @@ impl TransactionManagerFactory {
         if let Some(wal_manager) = &self.wal_manager {
             let lsn = wal_manager.write_commit_record(txn.as_ref());
             txn.set_prev_lsn(lsn);
+            if !wal_manager.is_persistent(lsn) {
+                error!("Commit record {} did not reach the disk", lsn);
+                self.abort_transaction(ctx);
+                return false;
+            }
         }
 
         // Transition txn state to committed and set commit timestamps/metadata.
diff --git a/src/recovery/wal_manager.rs b/src/recovery/wal_manager.rs
index 13417fb..7045480 100644
--- a/src/recovery/wal_manager.rs
+++ b/src/recovery/wal_manager.rs
@@ -135,7 +135,7 @@ use std::sync::Arc;
 
 use parking_lot::RwLock;
 
-use crate::common::config::INVALID_LSN;
+use crate::common::config::{INVALID_LSN, Lsn};
 use crate::common::rid::RID;
 use crate::concurrency::transaction::Transaction;
 use crate::recovery::log_manager::LogManager;
@@ -195,6 +195,12 @@ impl WALManager {
         log_manager.append_log_record(commit_record)
     }
 
+    /// Whether the record with the given LSN, and every one before it, has reached the disk.
+    pub fn is_persistent(&self, lsn: Lsn) -> bool {
+        let persistent_lsn = self.log_manager.read().get_persistent_lsn();
+        persistent_lsn != INVALID_LSN && persistent_lsn >= lsn
+    }
+
     /// Writes an ABORT record to the WAL for the given transaction.
     ///
     /// Unlike commit records, abort records do **not** block waiting for
-- 
2.43.0


From 1053ce97e59b2fe34bb4dd1ce419ea936e40ed0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:32 +0000
Subject: [PATCH 22/49] fix: recovery undoes aborted transactions once,
 restores committed rows visibly and continues the LSNs

---
 src/recovery/log_manager.rs  |  9 ++++++
 src/recovery/log_recovery.rs | 60 +++++++++++++++++++++++++++---------
 2 files changed, 54 insertions(+), 15 deletions(-)

diff --git a/src/recovery/log_manager.rs b/src/recovery/log_manager.rs
index fc85bc8..ca2f54c 100644
--- a/src/recovery/log_manager.rs
+++ b/src/recovery/log_manager.rs
@@ -540,6 +540,15 @@ impl LogManager {
         self.state.persistent_lsn.store(lsn, Ordering::SeqCst);
     }
 
+    /// Continues a log whose last record is `last_lsn`: everything up to it is persistent, and
+    /// the records appended from now on get higher LSNs.
+    pub fn resume_after(&mut self, last_lsn: Lsn) {
+        self.state
+            .next_lsn
+            .fetch_max(last_lsn + 1, Ordering::SeqCst);
+        self.state.persistent_lsn.store(last_lsn, Ordering::SeqCst);
+    }
+
     /// Parses a log record from raw bytes
     ///
     /// # Parameters
diff --git a/src/recovery/log_recovery.rs b/src/recovery/log_recovery.rs
index 6155949..26ee78c 100644
--- a/src/recovery/log_recovery.rs
+++ b/src/recovery/log_recovery.rs
@@ -253,7 +253,7 @@ use log::{debug, info, warn};
 use parking_lot::RwLock;
 
 use crate::buffer::buffer_pool_manager_async::BufferPoolManager;
-use crate::common::config::{INVALID_LSN, Lsn, PageId, TxnId};
+use crate::common::config::{INVALID_LSN, Lsn, PageId, Timestamp, TxnId};
 use crate::recovery::log_iterator::LogIterator;
 use crate::recovery::log_manager::LogManager;
 use crate::recovery::log_record::{LogRecord, LogRecordType};
@@ -262,6 +262,9 @@ use crate::storage::page::page_impl::PageTrait;
 use crate::storage::page::page_types::table_page::TablePage;
 use crate::storage::table::tuple::TupleMeta;
 
+/// Commit timestamp of the rows restored by recovery, earlier than every snapshot.
+const RECOVERED_COMMIT_TS: Timestamp = 0;
+
 /// Orchestrates the ARIES recovery protocol to restore the database to a
 /// consistent state after a crash.
 ///
@@ -345,13 +348,20 @@ impl LogRecoveryManager {
         self.redo_log(&mut txn_table, &mut dirty_page_table, start_redo_lsn)
             .await?;
 
+        // New records continue after the ones in the log
+        if let Some(last_lsn) = self.build_lsn_offset_map().await?.into_keys().max() {
+            self.log_manager.write().resume_after(last_lsn);
+        }
+
         // Phase 3: Undo - rollback uncommitted transactions
         self.undo_log(&txn_table).await?;
 
-        // Update the log manager's persistent LSN
-        let mut log_manager = self.log_manager.write();
-        let lsn = log_manager.get_next_lsn();
-        log_manager.set_persistent_lsn(lsn);
+        // A later recovery must not undo them again after changes that follow
+        for txn_id in txn_table.get_active_txns() {
+            let last_lsn = txn_table.get_prev_lsn(txn_id).unwrap_or(INVALID_LSN);
+            let record = LogRecord::new_transaction_record(txn_id, last_lsn, LogRecordType::Abort);
+            self.log_manager.write().append_log_record(Arc::new(record));
+        }
 
         info!("Database recovery completed successfully");
         Ok(())
@@ -487,6 +497,14 @@ impl LogRecoveryManager {
                 _ => false, // Don't redo other types
             };
 
+            // An aborted transaction was rolled back before anything that follows its abort
+            // record happened, so its changes are undone here rather than at the end.
+            if log_record.get_log_record_type() == LogRecordType::Abort {
+                let mut aborted = TxnTable::new();
+                aborted.add_txn(log_record.get_txn_id(), log_record.get_prev_lsn());
+                self.undo_log(&aborted).await?;
+            }
+
             if should_redo {
                 debug!("Redoing operation at LSN {}", lsn);
                 self.redo_record(&log_record)?;
@@ -573,10 +591,6 @@ impl LogRecoveryManager {
                     break;
                 }
             }
-
-            // Write an ABORT record for this transaction
-            debug!("Writing ABORT record for transaction {}", txn_id);
-            // In a real implementation, we would create and append an actual ABORT record
         }
 
         info!("Undo phase complete");
@@ -634,6 +648,14 @@ impl LogRecoveryManager {
         }
     }
 
+    /// The metadata of a row restored by recovery: once recovery is done only the effects of
+    /// committed transactions remain, so every restored row is visible to every snapshot.
+    fn recovered_meta(record: &LogRecord) -> TupleMeta {
+        let mut meta = TupleMeta::new(record.get_txn_id());
+        meta.set_commit_timestamp(RECOVERED_COMMIT_TS);
+        meta
+    }
+
     /// Redo a single log record
     ///
     /// # Parameters
@@ -647,9 +669,14 @@ impl LogRecoveryManager {
                     debug!("Redoing INSERT for RID {:?}", rid);
                     if let Some(page_guard) = self.bpm.fetch_page::<TablePage>(rid.get_page_id()) {
                         let mut page = page_guard.write();
-                        let meta = TupleMeta::new(record.get_txn_id());
+                        let meta = Self::recovered_meta(record);
                         if let Some(tuple) = record.get_insert_tuple() {
-                            let _ = page.insert_tuple_with_rid(&meta, tuple, *rid);
+                            // The row may have reached the disk before the crash.
+                            if page.get_tuple(rid, true).is_ok() {
+                                let _ = page.update_tuple(meta, tuple, *rid);
+                            } else {
+                                let _ = page.insert_tuple_with_rid(&meta, tuple, *rid);
+                            }
                             page.set_dirty(true);
                         }
                     }
@@ -665,7 +692,7 @@ impl LogRecoveryManager {
                         if let (Some(tuple), Some(_old)) =
                             (record.get_update_tuple(), record.get_original_tuple())
                         {
-                            let meta = TupleMeta::new(record.get_txn_id());
+                            let meta = Self::recovered_meta(record);
                             let _ = page.update_tuple(meta, tuple, *rid);
                             page.set_dirty(true);
                         }
@@ -678,6 +705,7 @@ impl LogRecoveryManager {
                     if let Some(page_guard) = self.bpm.fetch_page::<TablePage>(rid.get_page_id()) {
                         let mut page = page_guard.write();
                         if let Ok((mut meta, tuple)) = page.get_tuple(rid, true) {
+                            meta.set_commit_timestamp(RECOVERED_COMMIT_TS);
                             meta.set_deleted(true);
                             let _ = page.update_tuple(meta, &tuple, *rid);
                             page.set_dirty(true);
@@ -691,6 +719,7 @@ impl LogRecoveryManager {
                     if let Some(page_guard) = self.bpm.fetch_page::<TablePage>(rid.get_page_id()) {
                         let mut page = page_guard.write();
                         if let Ok((mut meta, tuple)) = page.get_tuple(rid, true) {
+                            meta.set_commit_timestamp(RECOVERED_COMMIT_TS);
                             meta.set_deleted(true);
                             let _ = page.update_tuple(meta, &tuple, *rid);
                             page.set_dirty(true);
@@ -706,6 +735,7 @@ impl LogRecoveryManager {
                     }
                 }
             },
+            LogRecordType::RollbackDelete => self.undo_delete(record)?,
             _ => {}, // Ignore other record types for redo
         }
         Ok(())
@@ -721,6 +751,7 @@ impl LogRecoveryManager {
             if let Some(page_guard) = self.bpm.fetch_page::<TablePage>(rid.get_page_id()) {
                 let mut page = page_guard.write();
                 if let Ok((mut meta, tuple)) = page.get_tuple(rid, true) {
+                    meta.set_commit_timestamp(RECOVERED_COMMIT_TS);
                     meta.set_deleted(true);
                     let _ = page.update_tuple(meta, &tuple, *rid);
                     page.set_dirty(true);
@@ -742,7 +773,7 @@ impl LogRecoveryManager {
             if let Some(page_guard) = self.bpm.fetch_page::<TablePage>(rid.get_page_id()) {
                 let mut page = page_guard.write();
                 if let Some(original) = record.get_original_tuple() {
-                    let meta = TupleMeta::new(record.get_txn_id());
+                    let meta = Self::recovered_meta(record);
                     let _ = page.update_tuple(meta, original, *rid);
                     page.set_dirty(true);
                 }
@@ -761,8 +792,7 @@ impl LogRecoveryManager {
             if let Some(page_guard) = self.bpm.fetch_page::<TablePage>(rid.get_page_id()) {
                 let mut page = page_guard.write();
                 if let Some(tuple) = record.get_delete_tuple() {
-                    let mut meta = TupleMeta::new(record.get_txn_id());
-                    meta.set_deleted(false);
+                    let meta = Self::recovered_meta(record);
                     let _ = page.update_tuple(meta, tuple, *rid);
                     page.set_dirty(true);
                 }
-- 
2.43.0


From 4a75f2df1b4666d72f511a1ab0c9d3faaccd6345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:41 +0000
Subject: [PATCH 23/49] fix: records after a failed log flush never become
 persistent

---
 src/recovery/log_manager.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/recovery/log_manager.rs b/src/recovery/log_manager.rs
index ca2f54c..7fc5e68 100644
--- a/src/recovery/log_manager.rs
+++ b/src/recovery/log_manager.rs
@@ -324,8 +324,13 @@ impl LogManager {
                 }
 
                 if !records_to_flush.is_empty() {
-                    Self::perform_flush(&state, records_to_flush, max_lsn_in_batch, "periodic")
-                        .await;
+                    let flushed =
+                        Self::perform_flush(&state, records_to_flush, max_lsn_in_batch, "periodic")
+                            .await;
+                    if !flushed {
+                        // Records after the lost ones must not become persistent.
+                        return;
+                    }
                 }
             }
 
@@ -363,16 +368,16 @@ impl LogManager {
     ///
     /// # Error Handling
     ///
-    /// If a disk write fails, the `stop_flag` is set to prevent false durability
-    /// signals. Callers waiting on commit will detect this and stop waiting.
+    /// If a disk write fails, `false` is returned and the `stop_flag` is set to prevent false
+    /// durability signals. Callers waiting on commit will detect this and stop waiting.
     async fn perform_flush(
         state: &Arc<LogManagerState>,
         records: Vec<Arc<LogRecord>>,
         max_lsn: Lsn,
         flush_reason: &str,
-    ) {
+    ) -> bool {
         if records.is_empty() {
-            return;
+            return true;
         }
 
         let disk_manager = Arc::clone(&state.disk_manager);
@@ -397,6 +402,7 @@ impl LogManager {
                         flush_reason, max_lsn
                     );
                 }
+                true
             },
             Err(e) => {
                 error!(
@@ -406,6 +412,7 @@ impl LogManager {
                 // Fail closed: stop the flush thread to avoid giving a false durability signal.
                 // Callers waiting on commit will notice stop_flag and stop waiting.
                 state.stop_flag.store(true, Ordering::SeqCst);
+                false
             },
         }
     }
-- 
2.43.0


From f6029a25512d4edf45b8571bfac7cec3fb3b7986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:52 +0000
Subject: [PATCH 24/49] fix: rewriting a page leaves older copies in the disk
 cache

---
 .../disk/async_disk/cache/cache_manager.rs    | 45 +++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/src/storage/disk/async_disk/cache/cache_manager.rs b/src/storage/disk/async_disk/cache/cache_manager.rs
index 46699b7..822d9d0 100644
--- a/src/storage/disk/async_disk/cache/cache_manager.rs
+++ b/src/storage/disk/async_disk/cache/cache_manager.rs
@@ -1223,6 +1223,9 @@ impl CacheManager {
     /// }
     /// ```
     pub fn store_page(&self, page_id: PageId, data: Vec<u8>) {
+        // Copies of an older version must not outlive this write, whatever is decided below
+        self.refresh_cached_copies(page_id, &data);
+
         // Check admission controller first
         if !self.should_admit_page(page_id, &data) {
             return;
@@ -1290,6 +1293,48 @@ impl CacheManager {
         self.record_access_pattern(page_id);
     }
 
+    /// Replaces the contents of the page in every tier that holds a copy of it.
+    fn refresh_cached_copies(&self, page_id: PageId, data: &[u8]) {
+        // The tiers are only ever locked for the duration of one cache operation
+        let mut hot = loop {
+            match self.hot_cache.try_write() {
+                Ok(cache) => break cache,
+                Err(_) => std::thread::yield_now(),
+            }
+        };
+        if hot.contains(&page_id) {
+            hot.insert(page_id, Arc::new(data.to_vec()));
+        }
+        drop(hot);
+
+        let page_data = || PageData {
+            data: Arc::new(data.to_vec()),
+            last_accessed: Instant::now(),
+            access_count: 1,
+            temperature: self.determine_data_temperature(page_id),
+        };
+        let mut warm = loop {
+            match self.warm_cache.try_write() {
+                Ok(cache) => break cache,
+                Err(_) => std::thread::yield_now(),
+            }
+        };
+        if warm.contains(&page_id) {
+            warm.insert(page_id, page_data());
+        }
+        drop(warm);
+
+        let mut cold = loop {
+            match self.cold_cache.try_write() {
+                Ok(cache) => break cache,
+                Err(_) => std::thread::yield_now(),
+            }
+        };
+        if cold.contains(&page_id) {
+            cold.insert(page_id, page_data());
+        }
+    }
+
     /// Determines whether a page should be admitted to the cache.
     ///
     /// Implements the admission control policy based on memory pressure,
-- 
2.43.0


From cd2fda4c97975ccab9f010ae956d5cba9de699f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:10 +0000
Subject: [PATCH 25/49] fix: pages are lost when the write buffer is full or a
 flush fails

---
 src/storage/disk/async_disk/manager.rs        | 18 ++++++++++---
 .../disk/async_disk/memory/write_manager.rs   | 19 +++++++++++---
 .../async_disk/memory/write_staging_buffer.rs | 25 ++++++++++++++++++-
 3 files changed, 55 insertions(+), 7 deletions(-)

diff --git a/src/storage/disk/async_disk/manager.rs b/src/storage/disk/async_disk/manager.rs
index 6d9ed74..4d4531b 100644
--- a/src/storage/disk/async_disk/manager.rs
+++ b/src/storage/disk/async_disk/manager.rs
@@ -724,14 +724,23 @@ impl AsyncDiskManager {
     }
 
     /// Writes multiple pages to disk
+    /// If that fails, the pages go back to the write buffer and stay pending.
     async fn write_pages_to_disk(&self, pages: Vec<(PageId, Vec<u8>)>) -> IoResult<()> {
+        let result = self.try_write_pages_to_disk(&pages).await;
+        if result.is_err() {
+            self.write_manager.restore(pages).await;
+        }
+        result
+    }
+
+    async fn try_write_pages_to_disk(&self, pages: &[(PageId, Vec<u8>)]) -> IoResult<()> {
         debug!("Writing {} pages to disk", pages.len());
         let start_time = Instant::now();
         let mut total_bytes = 0;
 
         let io_engine = self.io_engine.read().await;
 
-        for (page_id, data) in &pages {
+        for (page_id, data) in pages {
             trace!(
                 "Writing page {} to disk (size: {} bytes)",
                 page_id,
@@ -743,7 +752,7 @@ impl AsyncDiskManager {
 
         // Apply durability policy if needed
         debug!("Applying durability policy for {} pages", pages.len());
-        self.write_manager.apply_durability(&pages, self).await?;
+        self.write_manager.apply_durability(pages, self).await?;
 
         // Update metrics
         let elapsed = start_time.elapsed();
@@ -1052,7 +1061,10 @@ impl AsyncDiskManager {
 
             // Use scheduler for large batches if work-stealing is enabled
             if self.config.work_stealing_enabled && pages.len() > self.config.batch_size {
-                self.schedule_batch_write_operation(pages).await?;
+                if let Err(e) = self.schedule_batch_write_operation(pages.clone()).await {
+                    self.write_manager.restore(pages).await;
+                    return Err(e);
+                }
             } else {
                 self.write_pages_to_disk(pages).await?;
             }
diff --git a/src/storage/disk/async_disk/memory/write_manager.rs b/src/storage/disk/async_disk/memory/write_manager.rs
index 4761017..ca3d89a 100644
--- a/src/storage/disk/async_disk/memory/write_manager.rs
+++ b/src/storage/disk/async_disk/memory/write_manager.rs
@@ -325,7 +325,11 @@ impl WriteManager {
                 stats_before.buffer_size_bytes
             );
 
-            let buffer_accepted = buffer.buffer_write(page_id, coalesced_data)?;
+            let buffer_accepted = buffer.buffer_write(page_id, coalesced_data.clone())?;
+            if !buffer_accepted {
+                // The flush below takes the page along
+                buffer.force_write(page_id, coalesced_data)?;
+            }
 
             let stats_after = buffer.get_stats();
             log::debug!(
@@ -500,10 +504,14 @@ impl WriteManager {
         );
 
         // Step 2: Apply durability guarantees
-        let _durability_result = self
+        if let Err(e) = self
             .durability_manager
             .apply_durability(&pages_to_flush, provider)
-            .await?;
+            .await
+        {
+            self.restore(pages_to_flush).await;
+            return Err(e);
+        }
 
         log::debug!(
             "WriteManager::flush_internal completed successfully with {} pages",
@@ -512,6 +520,11 @@ impl WriteManager {
         Ok(pages_to_flush)
     }
 
+    /// Takes back flushed pages that did not reach the disk, so that a later flush writes them
+    pub async fn restore(&self, pages: Vec<(PageId, Vec<u8>)>) {
+        self.buffer_manager.lock().await.restore(pages);
+    }
+
     /// Checks if a flush should be performed based on current state
     pub async fn should_flush(&self) -> bool {
         let buffer = self.buffer_manager.lock().await;
diff --git a/src/storage/disk/async_disk/memory/write_staging_buffer.rs b/src/storage/disk/async_disk/memory/write_staging_buffer.rs
index bd189dc..fe090cd 100644
--- a/src/storage/disk/async_disk/memory/write_staging_buffer.rs
+++ b/src/storage/disk/async_disk/memory/write_staging_buffer.rs
@@ -233,6 +233,7 @@
 //! - `WriteStagingBuffer` is designed to be wrapped in `Arc<Mutex<>>` by `WriteManager`
 
 use std::collections::HashMap;
+use std::collections::hash_map::Entry;
 use std::io::Result as IoResult;
 use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
 use std::time::{Duration, Instant};
@@ -288,6 +289,28 @@ impl WriteStagingBuffer {
 
     /// Adds data to the write buffer, applying compression if enabled
     pub fn buffer_write(&mut self, page_id: PageId, data: Vec<u8>) -> IoResult<bool> {
+        self.put(page_id, data, false)
+    }
+
+    /// Adds data to the write buffer even if the buffer is full
+    pub fn force_write(&mut self, page_id: PageId, data: Vec<u8>) -> IoResult<()> {
+        self.put(page_id, data, true).map(|_| ())
+    }
+
+    /// Puts drained pages that could not be written back, unless they were written again since
+    pub fn restore(&mut self, pages: Vec<(PageId, Vec<u8>)>) {
+        for (page_id, data) in pages {
+            if let Entry::Vacant(entry) = self.buffer.buffer.entry(page_id) {
+                self.buffer
+                    .buffer_size_bytes
+                    .fetch_add(data.len(), Ordering::Relaxed);
+                self.buffer.dirty_pages.fetch_add(1, Ordering::Relaxed);
+                entry.insert(data);
+            }
+        }
+    }
+
+    fn put(&mut self, page_id: PageId, data: Vec<u8>, force: bool) -> IoResult<bool> {
         // Apply compression if enabled
         let final_data = if self.buffer.compression_enabled {
             self.compress_data(&data, CompressionAlgorithm::LZ4, 6)
@@ -307,7 +330,7 @@ impl WriteStagingBuffer {
 
         // Check if adding this write would exceed buffer capacity
         let current_size = self.buffer.buffer_size_bytes.load(Ordering::Relaxed);
-        if current_size + size_delta > self.buffer.max_buffer_size {
+        if !force && current_size + size_delta > self.buffer.max_buffer_size {
             return Ok(false); // Buffer full, needs flush
         }
 
-- 
2.43.0


From ee19ce47e15b457bce8ae5c8e6189d7f6ef3402b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:10 +0000
Subject: [PATCH 26/49] fix: reads miss pages that are waiting in the write
 buffer

---
 src/storage/disk/async_disk/manager.rs        | 20 ++++++++++++++++++-
 .../disk/async_disk/memory/write_manager.rs   |  5 +++++
 .../async_disk/memory/write_staging_buffer.rs | 10 ++++++++++
 3 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/src/storage/disk/async_disk/manager.rs b/src/storage/disk/async_disk/manager.rs
index 4d4531b..b2feb77 100644
--- a/src/storage/disk/async_disk/manager.rs
+++ b/src/storage/disk/async_disk/manager.rs
@@ -446,6 +446,14 @@ impl AsyncDiskManager {
             return Ok(data);
         }
 
+        // The disk does not have the latest contents of a page that waits to be flushed
+        if let Some(data) = self.write_manager.get_buffered_page(page_id).await {
+            let elapsed_ns = start_time.elapsed().as_nanos() as u64;
+            self.metrics_collector
+                .record_read(elapsed_ns, data.len() as u64, false);
+            return Ok(data);
+        }
+
         // Page not in cache, schedule read operation
         debug!(
             "Cache miss for page {}, scheduling disk read with priority {:?}",
@@ -779,7 +787,17 @@ impl AsyncDiskManager {
         let mut total_bytes = 0;
 
         for chunk in page_ids.chunks(batch_size) {
-            let chunk_results = if self.config.work_stealing_enabled && chunk.len() > 1 {
+            // Pages waiting to be flushed cannot be read from the disk as a batch
+            let mut any_buffered = false;
+            for page_id in chunk {
+                any_buffered |= self
+                    .write_manager
+                    .get_buffered_page(*page_id)
+                    .await
+                    .is_some();
+            }
+            let batched = self.config.work_stealing_enabled && chunk.len() > 1 && !any_buffered;
+            let chunk_results = if batched {
                 self.schedule_batch_read_operation(chunk.to_vec()).await?
             } else {
                 self.direct_batch_read_operation(chunk.to_vec()).await?
diff --git a/src/storage/disk/async_disk/memory/write_manager.rs b/src/storage/disk/async_disk/memory/write_manager.rs
index ca3d89a..b3ddd39 100644
--- a/src/storage/disk/async_disk/memory/write_manager.rs
+++ b/src/storage/disk/async_disk/memory/write_manager.rs
@@ -525,6 +525,11 @@ impl WriteManager {
         self.buffer_manager.lock().await.restore(pages);
     }
 
+    /// Returns the contents of a page that is waiting to be flushed
+    pub async fn get_buffered_page(&self, page_id: PageId) -> Option<Vec<u8>> {
+        self.buffer_manager.lock().await.get(page_id)
+    }
+
     /// Checks if a flush should be performed based on current state
     pub async fn should_flush(&self) -> bool {
         let buffer = self.buffer_manager.lock().await;
diff --git a/src/storage/disk/async_disk/memory/write_staging_buffer.rs b/src/storage/disk/async_disk/memory/write_staging_buffer.rs
index fe090cd..9e2da73 100644
--- a/src/storage/disk/async_disk/memory/write_staging_buffer.rs
+++ b/src/storage/disk/async_disk/memory/write_staging_buffer.rs
@@ -310,6 +310,16 @@ impl WriteStagingBuffer {
         }
     }
 
+    /// Returns the contents of a page that has not been drained yet
+    pub fn get(&self, page_id: PageId) -> Option<Vec<u8>> {
+        let data = self.buffer.buffer.get(&page_id)?;
+        Some(if self.buffer.compression_enabled {
+            self.decompress_data(data)
+        } else {
+            data.clone()
+        })
+    }
+
     fn put(&mut self, page_id: PageId, data: Vec<u8>, force: bool) -> IoResult<bool> {
         // Apply compression if enabled
         let final_data = if self.buffer.compression_enabled {
-- 
2.43.0


From ec0203484007999385dfc3410b5fe6495b575942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:54 +0000
Subject: [PATCH 27/49] fix: tasks given to the disk scheduler are never
 executed

---
 src/storage/disk/async_disk/manager.rs | 63 ++++++++++++++++++++++++++
 1 file changed, 63 insertions(+)

diff --git a/src/storage/disk/async_disk/manager.rs b/src/storage/disk/async_disk/manager.rs
index b2feb77..9ffe763 100644
--- a/src/storage/disk/async_disk/manager.rs
+++ b/src/storage/disk/async_disk/manager.rs
@@ -408,10 +408,65 @@ impl AsyncDiskManager {
             manager.config.io_threads
         );
         // Start background tasks
+        for worker_id in 0..manager.config.io_threads {
+            let task = tokio::spawn(Self::serve_scheduled_tasks(
+                worker_id,
+                Arc::clone(&manager.scheduler),
+                Arc::clone(&manager.io_engine),
+            ));
+            manager.background_tasks.lock().await.push(task);
+        }
 
         Ok(manager)
     }
 
+    /// Executes the tasks submitted to one of the scheduler's queues, in order
+    async fn serve_scheduled_tasks(
+        worker_id: usize,
+        scheduler: Arc<WorkStealingScheduler>,
+        io_engine: Arc<RwLock<AsyncIOEngine>>,
+    ) {
+        let mut receiver = scheduler.get_worker_receiver(worker_id).lock().await;
+        while let Some(task) = receiver.recv().await {
+            let result = Self::execute_task(task.task_type, &io_engine).await;
+            if let Some(callback) = task.completion_callback {
+                let _ = callback.send(result);
+            }
+        }
+    }
+
+    /// Executes one scheduled task on the I/O engine
+    async fn execute_task(
+        task_type: IOTaskType,
+        io_engine: &RwLock<AsyncIOEngine>,
+    ) -> IoResult<Vec<u8>> {
+        let io_engine = io_engine.read().await;
+        match task_type {
+            IOTaskType::Read(page_id) => io_engine.read_page(page_id).await,
+            IOTaskType::Write(page_id, data) => {
+                io_engine.write_page(page_id, &data).await?;
+                Ok(Vec::new())
+            },
+            IOTaskType::BatchRead(page_ids) | IOTaskType::Prefetch(page_ids) => {
+                let mut pages = Vec::with_capacity(page_ids.len() * DB_PAGE_SIZE as usize);
+                for page_id in page_ids {
+                    pages.extend_from_slice(&io_engine.read_page(page_id).await?);
+                }
+                Ok(pages)
+            },
+            IOTaskType::BatchWrite(pages) => {
+                for (page_id, data) in &pages {
+                    io_engine.write_page(*page_id, data).await?;
+                }
+                Ok(Vec::new())
+            },
+            IOTaskType::Flush | IOTaskType::Sync => {
+                io_engine.sync().await?;
+                Ok(Vec::new())
+            },
+        }
+    }
+
     /// Reads a page from disk or cache
     pub async fn read_page(&self, page_id: PageId) -> IoResult<Vec<u8>> {
         self.read_page_with_priority(page_id, IOPriority::Normal)
@@ -1482,6 +1537,14 @@ impl AsyncDiskManager {
     }
 }
 
+impl Drop for AsyncDiskManager {
+    fn drop(&mut self) {
+        for task in self.background_tasks.get_mut().drain(..) {
+            task.abort();
+        }
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use tempfile::TempDir;
-- 
2.43.0


From c43e9e0443eb64f1b72e9ee983dae18b4354a689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:03 +0000
Subject: [PATCH 28/49] fix: a frequency cache without capacity stores an entry

---
 src/storage/disk/async_disk/cache/heap_lfu.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/storage/disk/async_disk/cache/heap_lfu.rs b/src/storage/disk/async_disk/cache/heap_lfu.rs
index c621f22..37007cd 100644
--- a/src/storage/disk/async_disk/cache/heap_lfu.rs
+++ b/src/storage/disk/async_disk/cache/heap_lfu.rs
@@ -375,6 +375,11 @@ where
             return Some(std::mem::replace(old_value, value));
         }
 
+        // A cache without capacity stores nothing
+        if self.capacity == 0 {
+            return None;
+        }
+
         // Ensure we have capacity (may evict LFU item)
         self.ensure_capacity();
 
-- 
2.43.0


From a2aa9ad4b03c0bca18c0db4e1bfc333451464ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:25 +0000
Subject: [PATCH 29/49] fix: a page that cannot be written is evicted anyway

---
 src/buffer/buffer_pool_manager_async.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/buffer/buffer_pool_manager_async.rs b/src/buffer/buffer_pool_manager_async.rs
index d9da05d..71536aa 100644
--- a/src/buffer/buffer_pool_manager_async.rs
+++ b/src/buffer/buffer_pool_manager_async.rs
@@ -975,7 +975,9 @@ impl BufferPoolManager {
     }
 
     /// Evicts a page from the specified frame, flushing to disk if dirty.
-    fn evict_old_page(&self, frame_id: FrameId, old_page_id: PageId) {
+    ///
+    /// Returns `false`, and keeps the page, when its contents cannot be written.
+    fn evict_old_page(&self, frame_id: FrameId, old_page_id: PageId) -> bool {
         // Check if page is dirty and flush if necessary
         let page_to_flush = {
             let pages = self.pages.read();
@@ -994,6 +996,7 @@ impl BufferPoolManager {
                     "Failed to flush page {} during eviction: {}",
                     old_page_id, e
                 );
+                return false;
             }
         }
 
@@ -1012,6 +1015,7 @@ impl BufferPoolManager {
             "Successfully evicted page {} from frame {}",
             old_page_id, frame_id
         );
+        true
     }
 
     /// Gets an available frame, either from the free list or by evicting a page.
@@ -1053,8 +1057,13 @@ impl BufferPoolManager {
                 };
 
                 // If we found a page to evict, do it now
-                if let Some(old_page_id) = page_id {
-                    self.evict_old_page(frame_id, old_page_id);
+                if let Some(old_page_id) = page_id
+                    && !self.evict_old_page(frame_id, old_page_id)
+                {
+                    // The page stays; another victim may be writable
+                    replacer.record_access(frame_id, AccessType::Unknown);
+                    replacer.set_evictable(frame_id, true);
+                    continue;
                 }
 
                 return Some(frame_id);
-- 
2.43.0


From 827c8272971ed12f1ab43b2f4b275b817b2e86a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:25 +0000
Subject: [PATCH 30/49] fix: page loads lose frames, mix up pages and hand out
 pages without a frame

---
 src/buffer/buffer_pool_manager_async.rs | 108 +++++++++++++-----------
 1 file changed, 59 insertions(+), 49 deletions(-)

diff --git a/src/buffer/buffer_pool_manager_async.rs b/src/buffer/buffer_pool_manager_async.rs
index 71536aa..5a39b1b 100644
--- a/src/buffer/buffer_pool_manager_async.rs
+++ b/src/buffer/buffer_pool_manager_async.rs
@@ -620,21 +620,43 @@ impl BufferPoolManager {
             Ok(data) => data,
             Err(e) => {
                 error!("Failed to load page {} : {}", page_id, e);
+                self.free_list.write().push(frame_id);
                 return None;
             },
         };
 
+        self.adopt_page(frame_id, page_id, page_data)
+    }
+
+    /// Puts a page read from disk into a frame and returns a guard for it.
+    ///
+    /// The frame is given back when the page cannot be created, or when another caller has
+    /// loaded it in the meantime (that copy is then used).
+    fn adopt_page<T: Page + 'static>(
+        self: &Arc<Self>,
+        frame_id: FrameId,
+        page_id: PageId,
+        page_data: Vec<u8>,
+    ) -> Option<PageGuard<T>> {
         // Verify page type and create page
-        if let Some(page_guard) = self.create_page_from_data::<T>(page_id, page_data) {
-            // Update metadata
-            let page_arc = page_guard.get_page().clone();
-            self.update_page_metadata(frame_id, page_id, &page_arc);
-            trace!("Successfully loaded page {} in frame {}", page_id, frame_id);
-            Some(page_guard)
-        } else {
+        let Some(page_arc) = self.create_page_from_data::<T>(page_id, page_data) else {
             error!("Failed to create page {} from data", page_id);
-            None
+            self.free_list.write().push(frame_id);
+            return None;
+        };
+        // Update metadata
+        if !self.update_page_metadata(frame_id, page_id, &page_arc) {
+            self.free_list.write().push(frame_id);
+            return self.fetch_page(page_id);
         }
+        trace!("Successfully loaded page {} in frame {}", page_id, frame_id);
+        let unpinner: Arc<BufferPoolManager> = Arc::clone(self);
+        let unpinner: Arc<dyn PageUnpinner> = unpinner;
+        Some(PageGuard::new_for_new_page(
+            page_arc,
+            page_id,
+            Some(unpinner),
+        ))
     }
 
     /// Load page with cache coordination between BPM and AsyncDiskManager
@@ -666,7 +688,7 @@ impl BufferPoolManager {
         self: &Arc<Self>,
         page_id: PageId,
         data: Vec<u8>,
-    ) -> Option<PageGuard<T>> {
+    ) -> Option<Arc<RwLock<T>>> {
         // Verify data size
         if data.len() < DB_PAGE_SIZE as usize {
             error!(
@@ -711,13 +733,7 @@ impl BufferPoolManager {
             }
         }
 
-        let unpinner: Arc<BufferPoolManager> = Arc::clone(self);
-        let unpinner: Arc<dyn PageUnpinner> = unpinner;
-        Some(PageGuard::new_for_new_page(
-            page_arc,
-            page_id,
-            Some(unpinner),
-        ))
+        Some(page_arc)
     }
 
     /// Unpins a page with the given page ID.
@@ -1153,13 +1169,19 @@ impl BufferPoolManager {
     /// Updates internal metadata after placing a page in a frame.
     ///
     /// This updates the pages array, page table, and replacer state to reflect
-    /// the new page-to-frame mapping.
+    /// the new page-to-frame mapping. Returns `false`, changing nothing, when the page
+    /// already has a frame.
     fn update_page_metadata<P: PageTrait + 'static>(
         &self,
         frame_id: FrameId,
         page_id: PageId,
         new_page: &Arc<RwLock<P>>,
-    ) {
+    ) -> bool {
+        let mut page_table = self.page_table.write();
+        if page_table.contains_key(&page_id) {
+            return false;
+        }
+
         // Update pages array
         {
             let mut pages = self.pages.write();
@@ -1169,10 +1191,8 @@ impl BufferPoolManager {
         }
 
         // Update page table
-        {
-            let mut page_table = self.page_table.write();
-            page_table.insert(page_id, frame_id);
-        }
+        page_table.insert(page_id, frame_id);
+        drop(page_table);
 
         // Update replacer
         {
@@ -1185,6 +1205,7 @@ impl BufferPoolManager {
             "Updated metadata for page {} in frame {}",
             page_id, frame_id
         );
+        true
     }
 
     /// Writes a page to disk asynchronously with proper cache coordination.
@@ -1306,19 +1327,18 @@ impl BufferPoolManager {
         trace!("Loading {} pages in batch", page_ids.len());
 
         // Check which pages are already in memory
-        let mut in_memory_pages = Vec::new();
+        let mut guards: Vec<Option<PageGuard<T>>> = Vec::with_capacity(page_ids.len());
         let mut pages_to_load = Vec::new();
 
-        for page_id in page_ids {
+        for &page_id in &page_ids {
             if let Some(page) = self.get_page_internal(page_id) {
                 // Verify type and create guard
-                if let Some(guard) = self.create_guard_from_existing::<T>(page_id, page) {
-                    in_memory_pages.push((page_id, Some(guard)));
-                } else {
-                    in_memory_pages.push((page_id, None));
-                }
+                guards.push(self.create_guard_from_existing::<T>(page_id, page));
             } else {
-                pages_to_load.push(page_id);
+                guards.push(None);
+                if !pages_to_load.contains(&page_id) {
+                    pages_to_load.push(page_id);
+                }
             }
         }
 
@@ -1331,34 +1351,24 @@ impl BufferPoolManager {
             {
                 Ok(pages_data) => {
                     for (page_id, data) in pages_to_load.into_iter().zip(pages_data) {
-                        if let Some(guard) = self.create_page_from_data::<T>(page_id, data) {
-                            // Get frame and update metadata
-                            if let Some(frame_id) = self.get_available_frame() {
-                                self.evict_page_if_necessary(frame_id);
-                                let page_arc = guard.get_page().clone();
-                                self.update_page_metadata(frame_id, page_id, &page_arc);
-                            }
-                            in_memory_pages.push((page_id, Some(guard)));
-                        } else {
-                            in_memory_pages.push((page_id, None));
+                        // Every entry asking for this page gets the same copy
+                        for (slot, _) in page_ids.iter().enumerate().filter(|e| *e.1 == page_id) {
+                            guards[slot] = match self.get_page_internal(page_id) {
+                                Some(page) => self.create_guard_from_existing::<T>(page_id, page),
+                                None => self.get_available_frame().and_then(|frame_id| {
+                                    self.adopt_page::<T>(frame_id, page_id, data.clone())
+                                }),
+                            };
                         }
                     }
                 },
                 Err(e) => {
                     error!("Failed to load pages in batch: {}", e);
-                    for page_id in pages_to_load {
-                        in_memory_pages.push((page_id, None));
-                    }
                 },
             }
         }
 
-        // Sort by original order and return
-        in_memory_pages.sort_by_key(|(page_id, _)| *page_id);
-        in_memory_pages
-            .into_iter()
-            .map(|(_, guard)| guard)
-            .collect()
+        guards
     }
 
     /// Creates a guard from an existing page in memory
-- 
2.43.0


From 0f5eea6d5fe072fe0608ed4d8737d5cab2f9a6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:25 +0000
Subject: [PATCH 31/49] fix: a page changed while it is written counts as clean

---
 src/buffer/buffer_pool_manager_async.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/buffer/buffer_pool_manager_async.rs b/src/buffer/buffer_pool_manager_async.rs
index 5a39b1b..ce1ce10 100644
--- a/src/buffer/buffer_pool_manager_async.rs
+++ b/src/buffer/buffer_pool_manager_async.rs
@@ -1236,6 +1236,7 @@ impl BufferPoolManager {
             data.copy_from_slice(page_guard.get_data());
             data
         };
+        let written = data_buffer.clone();
 
         // PERFORMANCE OPTIMIZATION: Use native async - no more blocking!
         self.disk_manager
@@ -1246,7 +1247,10 @@ impl BufferPoolManager {
         // Mark page as clean after successful write
         {
             let mut page_guard = page.write();
-            page_guard.set_dirty(false);
+            // A change made while the device was writing is not on disk yet
+            if page_guard.get_data()[..] == written[..] {
+                page_guard.set_dirty(false);
+            }
         }
 
         trace!(
@@ -1272,6 +1276,7 @@ impl BufferPoolManager {
             data.copy_from_slice(page_guard.get_data());
             data
         };
+        let written = data_buffer.clone();
 
         // Use block_on for sync eviction path
         let result = futures::executor::block_on(async {
@@ -1283,7 +1288,10 @@ impl BufferPoolManager {
         // Mark page as clean after successful write
         {
             let mut page_guard = page.write();
-            page_guard.set_dirty(false);
+            // A change made while the device was writing is not on disk yet
+            if page_guard.get_data()[..] == written[..] {
+                page_guard.set_dirty(false);
+            }
         }
 
         trace!(
@@ -1465,11 +1473,14 @@ impl BufferPoolManager {
             Ok(()) => {
                 // Mark pages as clean
                 let pages = self.pages.read();
-                for (page_id, _) in &dirty_pages {
+                for (page_id, written) in &dirty_pages {
                     if let Some(frame_id) = self.page_table.read().get(page_id)
                         && let Some(Some(page)) = pages.get(*frame_id as usize)
                     {
-                        page.write().set_dirty(false);
+                        let mut page_guard = page.write();
+                        if page_guard.get_data()[..] == written[..] {
+                            page_guard.set_dirty(false);
+                        }
                     }
                 }
                 trace!(
-- 
2.43.0


From 1e863485fc9b319fe610781b0d195b6d2390ec7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:25 +0000
Subject: [PATCH 32/49] fix: flushing all pages hides failed writes

---
 src/buffer/buffer_pool_manager_async.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/buffer/buffer_pool_manager_async.rs b/src/buffer/buffer_pool_manager_async.rs
index ce1ce10..fc2079c 100644
--- a/src/buffer/buffer_pool_manager_async.rs
+++ b/src/buffer/buffer_pool_manager_async.rs
@@ -821,7 +821,13 @@ impl BufferPoolManager {
 
     /// Flushes all pages to disk asynchronously.
     pub async fn flush_all_pages_async(&self) {
+        let _ = self.try_flush_all_pages().await;
+    }
+
+    /// Flushes all pages and reports the last failure, if any.
+    async fn try_flush_all_pages(&self) -> Result<(), String> {
         trace!("Flushing all pages to disk");
+        let mut result = Ok(());
 
         let page_table = self.page_table.read();
         let page_ids: Vec<PageId> = page_table.keys().cloned().collect();
@@ -830,10 +836,15 @@ impl BufferPoolManager {
         for page_id in page_ids {
             if let Err(e) = self.flush_page_async(page_id).await {
                 error!("Failed to flush page {}: {}", page_id, e);
+                // A page evicted in the meantime has been written by its eviction
+                if self.get_page_internal(page_id).is_some() {
+                    result = Err(e);
+                }
             }
         }
 
         trace!("Finished flushing all pages");
+        result
     }
 
     /// Flushes all pages **and** forces the disk manager to flush buffered writes.
@@ -845,7 +856,7 @@ impl BufferPoolManager {
     /// the on-disk files to reflect the latest state *immediately*, this method provides a
     /// stronger guarantee by explicitly calling `AsyncDiskManager::flush()`.
     pub async fn flush_all_pages_durable(&self) -> Result<(), String> {
-        self.flush_all_pages_async().await;
+        self.try_flush_all_pages().await?;
         self.disk_manager
             .flush()
             .await
-- 
2.43.0


From 12a18ed46b6b826dd73df0f995469756885c556a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:36 +0000
Subject: [PATCH 33/49] fix: a new page evicted before its first change cannot
 be read again

---
 src/storage/page/page_guard.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/storage/page/page_guard.rs b/src/storage/page/page_guard.rs
index 7d3e1f3..3e7d29f 100644
--- a/src/storage/page/page_guard.rs
+++ b/src/storage/page/page_guard.rs
@@ -220,7 +220,8 @@ impl<P: Page + 'static> PageGuard<P> {
             page,
             page_id,
             unpinner,
-            dirty: AtomicBool::new(false),
+            // Nothing on disk stands for a new page until it is written
+            dirty: AtomicBool::new(true),
         }
     }
 
-- 
2.43.0


From e72c3b8613faacad4d8899a9341ca7e9c641280c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:36 +0000
Subject: [PATCH 34/49] fix: a page inherits the access history of the page
 evicted before it

---
 src/buffer/lru_k_replacer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/buffer/lru_k_replacer.rs b/src/buffer/lru_k_replacer.rs
index 1bd3498..b2c4858 100644
--- a/src/buffer/lru_k_replacer.rs
+++ b/src/buffer/lru_k_replacer.rs
@@ -239,8 +239,8 @@ impl LRUKReplacer {
             // Update frame store
             drop(store);
             let mut store = self.frame_store.write();
-            if let Some(entry) = store.get_mut(&frame_id) {
-                entry.is_evictable = false;
+            // The next page in this frame starts with a history of its own
+            if store.remove(&frame_id).is_some() {
                 self.curr_size -= 1;
                 Some(frame_id)
             } else {
-- 
2.43.0


From 1363158568dba7ac196919771fb2059c05fa2981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:32 +0000
Subject: [PATCH 35/49] fix: a filter swallowed the failure to evaluate its
 condition

---
 .../execution/executors/filter_executor.rs    | 21 +++++++++++--------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/sql/execution/executors/filter_executor.rs b/src/sql/execution/executors/filter_executor.rs
index 2cb7da8..bca00c3 100644
--- a/src/sql/execution/executors/filter_executor.rs
+++ b/src/sql/execution/executors/filter_executor.rs
@@ -160,13 +160,13 @@ impl FilterExecutor {
     /// # Returns
     ///
     /// `true` if the tuple passes the filter, `false` otherwise.
-    fn apply_filter(&self, tuple: &Tuple) -> bool {
+    fn apply_filter(&self, tuple: &Tuple) -> Result<bool, DBError> {
         let filter_expr = self.plan.get_filter_expression();
         let schema = self.child_executor.get_output_schema();
 
         match filter_expr.get_filter_type() {
             FilterType::Where => self.apply_where_filter(tuple, schema),
-            FilterType::Having => self.apply_having_filter(schema),
+            FilterType::Having => Ok(self.apply_having_filter(schema)),
         }
     }
 
@@ -182,8 +182,8 @@ impl FilterExecutor {
     ///
     /// # Returns
     ///
-    /// `true` if predicate evaluates to true, `false` otherwise (including errors).
-    fn apply_where_filter(&self, tuple: &Tuple, schema: &Schema) -> bool {
+    /// Whether the predicate evaluates to true, or the error its evaluation ended with.
+    fn apply_where_filter(&self, tuple: &Tuple, schema: &Schema) -> Result<bool, DBError> {
         let filter_expr = self.plan.get_filter_expression();
         debug!(
             "Evaluating WHERE filter on tuple with values: {:?}",
@@ -198,19 +198,22 @@ impl FilterExecutor {
                         b,
                         tuple.get_values()
                     );
-                    *b
+                    Ok(*b)
                 },
                 _ => {
                     error!(
                         "WHERE filter evaluation returned non-boolean value: {:?}",
                         value
                     );
-                    false
+                    Ok(false)
                 },
             },
             Err(e) => {
                 error!("Failed to evaluate WHERE filter: {}", e);
-                false
+                Err(DBError::Execution(format!(
+                    "Failed to evaluate WHERE filter: {}",
+                    e
+                )))
             },
         }
     }
@@ -514,7 +517,7 @@ impl AbstractExecutor for FilterExecutor {
                 match self.child_executor.next()? {
                     Some((tuple, rid)) => {
                         debug!("Processing tuple with RID {:?}", rid);
-                        if self.apply_filter(&tuple) {
+                        if self.apply_filter(&tuple)? {
                             debug!("Found matching tuple with RID {:?}", rid);
                             return Ok(Some((tuple, rid)));
                         }
@@ -532,7 +535,7 @@ impl AbstractExecutor for FilterExecutor {
                     let rid = tuple.get_rid();
                     self.current_group_idx += 1;
 
-                    if self.apply_filter(tuple) {
+                    if self.apply_filter(tuple)? {
                         debug!("Found matching tuple for HAVING clause");
                         return Ok(Some((tuple.clone(), rid)));
                     }
-- 
2.43.0


From 9a55b391d23428413464a5360c020706c1f36132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:32 +0000
Subject: [PATCH 36/49] fix: sorting ignored failures of its input and of its
 sort keys

---
 src/sql/execution/executors/sort_executor.rs | 29 ++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/sql/execution/executors/sort_executor.rs b/src/sql/execution/executors/sort_executor.rs
index e025abd..8113364 100644
--- a/src/sql/execution/executors/sort_executor.rs
+++ b/src/sql/execution/executors/sort_executor.rs
@@ -190,6 +190,9 @@ pub struct SortExecutor {
     /// Current position in the sorted output vector.
     current_index: usize,
 
+    /// The error that ended the collection, until `next()` reports it.
+    failure: Option<DBError>,
+
     /// Flag indicating whether initialization (and sorting) is complete.
     initialized: bool,
 }
@@ -250,6 +253,7 @@ impl SortExecutor {
             child_executor: Some(child_executor),
             sorted_tuples: Vec::new(),
             current_index: 0,
+            failure: None,
             initialized: false,
         }
     }
@@ -283,8 +287,8 @@ impl AbstractExecutor for SortExecutor {
     ///
     /// # Error Handling
     ///
-    /// - Child executor errors during collection are logged and terminate collection
-    /// - Expression evaluation errors are logged and that comparison key is skipped
+    /// - A child executor or expression evaluation error ends the collection and is
+    ///   returned by the next call of `next()`; no row is handed out
     /// - Incomparable values (e.g., NULLs) continue to the next sort key
     ///
     /// # Idempotency
@@ -322,6 +326,7 @@ impl AbstractExecutor for SortExecutor {
                     },
                     Err(e) => {
                         error!("Error collecting tuples from child executor: {}", e);
+                        self.failure = Some(e);
                         break;
                     },
                 }
@@ -332,6 +337,21 @@ impl AbstractExecutor for SortExecutor {
             let order_by_specs = self.plan.get_order_bys().clone();
             let schema = self.plan.get_output_schema().clone();
 
+            // A row whose sort key cannot be computed has no place in the order
+            if self.failure.is_none() {
+                self.failure = self.sorted_tuples.iter().find_map(|(tuple, _)| {
+                    order_by_specs.iter().find_map(|spec| {
+                        let key = spec.get_expression().evaluate(tuple, &schema);
+                        key.err().map(|e| {
+                            DBError::Execution(format!("Failed to evaluate sort key: {}", e))
+                        })
+                    })
+                });
+            }
+            if self.failure.is_some() {
+                self.sorted_tuples.clear();
+            }
+
             debug!(
                 "Starting to sort {} tuples with {} order by specifications",
                 self.sorted_tuples.len(),
@@ -435,6 +455,11 @@ impl AbstractExecutor for SortExecutor {
             self.init();
         }
 
+        // What went wrong while the rows were collected
+        if let Some(e) = self.failure.take() {
+            return Err(e);
+        }
+
         if self.current_index >= self.sorted_tuples.len() {
             debug!("No more tuples to return");
             return Ok(None);
-- 
2.43.0


From b078dfab405a2410fd31ec0f6ea336ae796df7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:32 +0000
Subject: [PATCH 37/49] fix: TopN answered in heap order, misplaced NULLs and
 ignored failures

---
 src/sql/execution/executors/topn_executor.rs | 58 ++++++++++++--------
 1 file changed, 36 insertions(+), 22 deletions(-)

diff --git a/src/sql/execution/executors/topn_executor.rs b/src/sql/execution/executors/topn_executor.rs
index 632906e..52330fe 100644
--- a/src/sql/execution/executors/topn_executor.rs
+++ b/src/sql/execution/executors/topn_executor.rs
@@ -6,7 +6,7 @@ use log::{debug, trace};
 use parking_lot::RwLock;
 
 use crate::catalog::schema::Schema;
-use crate::common::exception::DBError;
+use crate::common::exception::{DBError, ExpressionError};
 use crate::common::rid::RID;
 use crate::sql::execution::execution_context::ExecutionContext;
 use crate::sql::execution::executors::abstract_executor::AbstractExecutor;
@@ -14,7 +14,8 @@ use crate::sql::execution::expressions::abstract_expression::ExpressionOps;
 use crate::sql::execution::plans::abstract_plan::AbstractPlanNode;
 use crate::sql::execution::plans::topn_plan::TopNNode;
 use crate::storage::table::tuple::Tuple;
-use crate::types_db::types::{CmpBool, Type};
+#[cfg(test)]
+use crate::types_db::types::Type;
 use crate::types_db::value::Value;
 
 /// Wrapper type for tuple and sort keys to implement custom ordering
@@ -32,7 +33,7 @@ impl PartialEq for TupleWithKeys {
                 .sort_keys
                 .iter()
                 .zip(other.sort_keys.iter())
-                .all(|(a, b)| a.compare_equals(b) == CmpBool::CmpTrue)
+                .all(|(a, b)| a == b)
     }
 }
 
@@ -46,16 +47,9 @@ impl Ord for TupleWithKeys {
     fn cmp(&self, other: &Self) -> Ordering {
         // Compare sort keys in ascending order for min-heap
         for (a, b) in self.sort_keys.iter().zip(other.sort_keys.iter()) {
-            match a.compare_less_than(b) {
-                CmpBool::CmpTrue => return Ordering::Less,
-                CmpBool::CmpFalse => {
-                    match a.compare_greater_than(b) {
-                        CmpBool::CmpTrue => return Ordering::Greater,
-                        CmpBool::CmpFalse => continue, // Equal, check next key
-                        CmpBool::CmpNull => return Ordering::Equal, // Treat NULL as equal
-                    }
-                },
-                CmpBool::CmpNull => return Ordering::Equal, // Treat NULL as equal
+            match a.partial_cmp(b) {
+                None | Some(Ordering::Equal) => continue, // Equal, check next key
+                Some(ordering) => return ordering,
             }
         }
         Ordering::Equal
@@ -70,6 +64,7 @@ pub struct TopNExecutor {
     // Store sorted tuples for output
     sorted_tuples: Vec<TupleWithKeys>,
     current_index: usize,
+    failure: Option<DBError>, // reported by the next call of next()
     initialized: bool,
 }
 
@@ -91,21 +86,22 @@ impl TopNExecutor {
             child,
             sorted_tuples: Vec::new(),
             current_index: 0,
+            failure: None,
             initialized: false,
         }
     }
 
     /// Evaluates the sort keys for a tuple based on the order by expressions
-    fn evaluate_sort_keys(&self, tuple: &Tuple) -> Vec<Value> {
+    fn evaluate_sort_keys(&self, tuple: &Tuple) -> Result<Vec<Value>, ExpressionError> {
         let schema = self.plan.get_output_schema();
         let keys = self
             .plan
             .get_sort_order_by()
             .iter()
-            .map(|expr| expr.evaluate(tuple, schema).unwrap())
-            .collect();
+            .map(|expr| expr.evaluate(tuple, schema))
+            .collect::<Result<_, _>>()?;
         trace!("Evaluated sort keys for tuple: {:?}", keys);
-        keys
+        Ok(keys)
     }
 }
 
@@ -128,7 +124,13 @@ impl AbstractExecutor for TopNExecutor {
         loop {
             match self.child.next() {
                 Ok(Some((tuple, rid))) => {
-                    let sort_keys = self.evaluate_sort_keys(&tuple);
+                    let sort_keys = match self.evaluate_sort_keys(&tuple) {
+                        Ok(keys) => keys,
+                        Err(e) => {
+                            self.failure = Some(DBError::Execution(e.to_string()));
+                            break;
+                        },
+                    };
                     debug!("Processing tuple with sort keys: {:?}", sort_keys);
 
                     let tuple_with_keys = TupleWithKeys {
@@ -157,15 +159,22 @@ impl AbstractExecutor for TopNExecutor {
                 },
                 Err(e) => {
                     debug!("Error processing child tuple: {}", e);
+                    self.failure = Some(e);
                     break;
                 },
             }
         }
 
-        // Convert heap to sorted vector (will be in ascending order)
-        self.sorted_tuples = heap.into_iter().map(|Reverse(t)| t).collect();
-        // Reverse to get descending order
-        self.sorted_tuples.reverse();
+        if self.failure.is_some() {
+            heap.clear();
+        }
+
+        // Ascending order of the reversed tuples: the greatest comes first
+        self.sorted_tuples = heap
+            .into_sorted_vec()
+            .into_iter()
+            .map(|Reverse(t)| t)
+            .collect();
 
         debug!(
             "TopNExecutor initialization complete. Number of tuples: {}",
@@ -179,6 +188,11 @@ impl AbstractExecutor for TopNExecutor {
             self.init();
         }
 
+        // What went wrong while the rows were collected
+        if let Some(e) = self.failure.take() {
+            return Err(e);
+        }
+
         if self.current_index < self.sorted_tuples.len() {
             let result = &self.sorted_tuples[self.current_index];
             self.current_index += 1;
-- 
2.43.0


From 07ae068916b9c119cc22be0cbdde49ce5173aa24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:32 +0000
Subject: [PATCH 38/49] fix: TopN per group merged or split groups, misplaced
 NULLs and ignored failures

---
 .../executors/topn_per_group_executor.rs      | 70 ++++++++++---------
 1 file changed, 36 insertions(+), 34 deletions(-)

diff --git a/src/sql/execution/executors/topn_per_group_executor.rs b/src/sql/execution/executors/topn_per_group_executor.rs
index 9a47062..2d88bd0 100644
--- a/src/sql/execution/executors/topn_per_group_executor.rs
+++ b/src/sql/execution/executors/topn_per_group_executor.rs
@@ -6,7 +6,7 @@ use log::{debug, trace};
 use parking_lot::RwLock;
 
 use crate::catalog::schema::Schema;
-use crate::common::exception::DBError;
+use crate::common::exception::{DBError, ExpressionError};
 use crate::common::rid::RID;
 use crate::sql::execution::execution_context::ExecutionContext;
 use crate::sql::execution::executors::abstract_executor::AbstractExecutor;
@@ -14,7 +14,8 @@ use crate::sql::execution::expressions::abstract_expression::ExpressionOps;
 use crate::sql::execution::plans::abstract_plan::AbstractPlanNode;
 use crate::sql::execution::plans::topn_per_group_plan::TopNPerGroupNode;
 use crate::storage::table::tuple::Tuple;
-use crate::types_db::types::{CmpBool, Type};
+#[cfg(test)]
+use crate::types_db::types::Type;
 use crate::types_db::value::Value;
 
 /// Wrapper type for tuple and sort keys to implement custom ordering
@@ -32,7 +33,7 @@ impl PartialEq for TupleWithKeys {
                 .sort_keys
                 .iter()
                 .zip(other.sort_keys.iter())
-                .all(|(a, b)| a.compare_not_equals(b) == CmpBool::CmpTrue)
+                .all(|(a, b)| a == b)
     }
 }
 
@@ -46,16 +47,9 @@ impl Ord for TupleWithKeys {
     fn cmp(&self, other: &Self) -> Ordering {
         // Compare sort keys in ascending order for min-heap
         for (a, b) in self.sort_keys.iter().zip(other.sort_keys.iter()) {
-            match a.compare_less_than(b) {
-                CmpBool::CmpTrue => return Ordering::Less,
-                CmpBool::CmpFalse => {
-                    match a.compare_greater_than(b) {
-                        CmpBool::CmpTrue => return Ordering::Greater,
-                        CmpBool::CmpFalse => continue, // Equal, check next key
-                        CmpBool::CmpNull => return Ordering::Equal, // Treat NULL as equal
-                    }
-                },
-                CmpBool::CmpNull => return Ordering::Equal, // Treat NULL as equal
+            match a.partial_cmp(b) {
+                None | Some(Ordering::Equal) => continue, // Equal, check next key
+                Some(ordering) => return ordering,
             }
         }
         Ordering::Equal
@@ -75,6 +69,7 @@ pub struct TopNPerGroupExecutor {
     // Store sorted tuples for current group
     current_group_tuples: Vec<TupleWithKeys>,
     current_tuple_index: usize,
+    failure: Option<DBError>, // reported by the next call of next()
     initialized: bool,
 }
 
@@ -97,49 +92,43 @@ impl TopNPerGroupExecutor {
             group_index: 0,
             current_group_tuples: Vec::new(),
             current_tuple_index: 0,
+            failure: None,
             initialized: false,
         }
     }
 
     /// Evaluates the sort keys for a tuple
-    fn evaluate_sort_keys(&self, tuple: &Tuple) -> Vec<Value> {
+    fn evaluate_sort_keys(&self, tuple: &Tuple) -> Result<Vec<Value>, ExpressionError> {
         let schema = self.plan.get_output_schema();
         let keys: Vec<Value> = self
             .plan
             .get_sort_expressions()
             .iter()
-            .map(|expr| expr.evaluate(tuple, schema).unwrap())
-            .collect();
+            .map(|expr| expr.evaluate(tuple, schema))
+            .collect::<Result<_, _>>()?;
         trace!("Evaluated sort keys for tuple: {:?}", keys);
-        keys
+        Ok(keys)
     }
 
     /// Evaluates the group keys for a tuple
-    fn evaluate_group_keys(&self, tuple: &Tuple) -> Vec<Value> {
+    fn evaluate_group_keys(&self, tuple: &Tuple) -> Result<Vec<Value>, ExpressionError> {
         let schema = self.plan.get_output_schema();
         let keys: Vec<Value> = self
             .plan
             .get_group_expressions()
             .iter()
-            .map(|expr| expr.evaluate(tuple, schema).unwrap())
-            .collect();
+            .map(|expr| expr.evaluate(tuple, schema))
+            .collect::<Result<_, _>>()?;
         trace!("Evaluated group keys for tuple: {:?}", keys);
-        keys
+        Ok(keys)
     }
 
     /// Compare two group keys using the Value comparison methods
     fn compare_group_keys(a: &[Value], b: &[Value]) -> Ordering {
         for (a_val, b_val) in a.iter().zip(b.iter()) {
-            match a_val.compare_less_than(b_val) {
-                CmpBool::CmpTrue => return Ordering::Less,
-                CmpBool::CmpFalse => {
-                    match a_val.compare_greater_than(b_val) {
-                        CmpBool::CmpTrue => return Ordering::Greater,
-                        CmpBool::CmpFalse => continue, // Equal, check next key
-                        CmpBool::CmpNull => return Ordering::Equal, // Treat NULL as equal
-                    }
-                },
-                CmpBool::CmpNull => return Ordering::Equal, // Treat NULL as equal
+            match a_val.partial_cmp(b_val) {
+                None | Some(Ordering::Equal) => continue, // Equal, check next key
+                Some(ordering) => return ordering,
             }
         }
         // If all values are equal or we run out of values, compare lengths
@@ -163,8 +152,15 @@ impl AbstractExecutor for TopNPerGroupExecutor {
         loop {
             match self.child.next() {
                 Ok(Some((tuple, rid))) => {
-                    let sort_keys = self.evaluate_sort_keys(&tuple);
-                    let group_keys = self.evaluate_group_keys(&tuple);
+                    let keys = self.evaluate_sort_keys(&tuple);
+                    let keys = keys.and_then(|k| Ok((k, self.evaluate_group_keys(&tuple)?)));
+                    let (sort_keys, group_keys) = match keys {
+                        Ok(keys) => keys,
+                        Err(e) => {
+                            self.failure = Some(DBError::Execution(e.to_string()));
+                            return;
+                        },
+                    };
 
                     debug!(
                         "Processing tuple with sort keys: {:?}, group keys: {:?}",
@@ -201,7 +197,8 @@ impl AbstractExecutor for TopNPerGroupExecutor {
                 Ok(None) => break,
                 Err(e) => {
                     debug!("Error from child executor: {}", e);
-                    return; // Initialize failed, but we don't propagate errors from init
+                    self.failure = Some(e);
+                    return; // init cannot report it; next does
                 },
             }
         }
@@ -223,6 +220,11 @@ impl AbstractExecutor for TopNPerGroupExecutor {
             self.init();
         }
 
+        // What went wrong while the rows were collected
+        if let Some(e) = self.failure.take() {
+            return Err(e);
+        }
+
         loop {
             // If we have tuples from the current group, return them
             if self.current_tuple_index < self.current_group_tuples.len() {
-- 
2.43.0


From 411a169f3db81580530bf1266dd4a19e965e8695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:32 +0000
Subject: [PATCH 39/49] fix: DISTINCT took different rows for equal ones

---
 .../execution/executors/distinct_executor.rs  | 91 +++----------------
 1 file changed, 14 insertions(+), 77 deletions(-)

diff --git a/src/sql/execution/executors/distinct_executor.rs b/src/sql/execution/executors/distinct_executor.rs
index 055f6f0..b992a20 100644
--- a/src/sql/execution/executors/distinct_executor.rs
+++ b/src/sql/execution/executors/distinct_executor.rs
@@ -24,8 +24,8 @@
 //! │                        │                                    │
 //! │                        ▼                                    │
 //! │  ┌─────────────────────────────────────────────────────┐    │
-//! │  │ HashSet<Vec<u8>>                                    │    │
-//! │  │  └─ Stores serialized tuple bytes                   │    │
+//! │  │ HashSet<Vec<Value>>                                 │    │
+//! │  │  └─ Stores the values of each unique tuple          │    │
 //! │  │  └─ O(1) duplicate detection                        │    │
 //! │  └─────────────────────────────────────────────────────┘    │
 //! │                        │                                    │
@@ -36,20 +36,12 @@
 //!
 //! ## Tuple Comparison
 //!
-//! Tuples are compared by serializing all column values to bytes:
-//!
-//! | Type      | Serialization                        |
-//! |-----------|--------------------------------------|
-//! | INTEGER   | Little-endian 4-byte representation  |
-//! | BIGINT    | Little-endian 8-byte representation  |
-//! | VARCHAR   | Length prefix + UTF-8 bytes          |
-//! | BOOLEAN   | Single byte (0 or 1)                 |
-//! | DECIMAL   | Little-endian 8-byte representation  |
-//! | NULL      | Special marker byte (0xFF)           |
+//! Tuples are duplicates when they hold equal values, by the equality (and hash)
+//! of `Value` that grouping uses too: NULL equals NULL.
 //!
 //! ## Memory Usage
 //!
-//! The executor stores one serialized copy of each unique tuple in memory.
+//! The executor stores the values of each unique tuple in memory.
 //! For large result sets with high cardinality, this can consume significant
 //! memory.
 
@@ -65,21 +57,22 @@ use crate::common::rid::RID;
 use crate::sql::execution::execution_context::ExecutionContext;
 use crate::sql::execution::executors::abstract_executor::AbstractExecutor;
 use crate::storage::table::tuple::Tuple;
+#[cfg(test)]
 use crate::types_db::value::Val;
+use crate::types_db::value::Value;
 
 /// Executor for removing duplicate tuples from query results.
 ///
 /// `DistinctExecutor` implements hash-based duplicate elimination by
-/// maintaining a set of serialized tuple representations. Only the first
+/// maintaining a set of the value lists seen so far. Only the first
 /// occurrence of each unique tuple is returned.
 ///
 /// # Algorithm
 ///
 /// 1. Pull tuple from child executor
-/// 2. Serialize tuple values to byte vector
-/// 3. Check if bytes exist in hash set
-/// 4. If new: insert bytes, return tuple
-/// 5. If duplicate: skip, pull next tuple
+/// 2. Check if its values exist in hash set
+/// 3. If new: insert values, return tuple
+/// 4. If duplicate: skip, pull next tuple
 ///
 /// # Pipelining
 ///
@@ -104,8 +97,8 @@ pub struct DistinctExecutor {
     child_executor: Box<dyn AbstractExecutor>,
     /// Output schema (same as input schema).
     schema: Schema,
-    /// Set of serialized tuple bytes seen so far.
-    seen_tuples: HashSet<Vec<u8>>,
+    /// The values of every tuple seen so far.
+    seen_tuples: HashSet<Vec<Value>>,
     /// Flag indicating whether `init()` has been called.
     initialized: bool,
 }
@@ -129,57 +122,6 @@ impl DistinctExecutor {
             initialized: false,
         }
     }
-
-    /// Serializes tuple values to a byte vector for duplicate detection.
-    ///
-    /// Creates a deterministic byte representation of all tuple values that
-    /// can be used as a hash set key. The serialization is designed to
-    /// ensure that equal tuples produce identical byte sequences.
-    ///
-    /// # Arguments
-    ///
-    /// * `tuple` - The tuple to serialize.
-    ///
-    /// # Returns
-    ///
-    /// A `Vec<u8>` containing the serialized tuple data.
-    ///
-    /// # Serialization Format
-    ///
-    /// Each value is serialized according to its type:
-    /// - **INTEGER**: 4 bytes, little-endian
-    /// - **BIGINT**: 8 bytes, little-endian
-    /// - **VARCHAR**: 4-byte length prefix + UTF-8 bytes
-    /// - **BOOLEAN**: 1 byte (0 = false, 1 = true)
-    /// - **DECIMAL**: 8 bytes, little-endian (f64 representation)
-    /// - **NULL**: 1 byte marker (0xFF)
-    /// - **Other**: Debug string with length prefix (fallback)
-    fn serialize_tuple(&self, tuple: &Tuple) -> Vec<u8> {
-        let mut bytes = Vec::new();
-
-        for value in tuple.get_values() {
-            // Serialize each value to bytes for comparison
-            match value.get_val() {
-                Val::Integer(i) => bytes.extend_from_slice(&i.to_le_bytes()),
-                Val::BigInt(i) => bytes.extend_from_slice(&i.to_le_bytes()),
-                Val::VarLen(s) => {
-                    bytes.extend_from_slice(&(s.len() as u32).to_le_bytes());
-                    bytes.extend_from_slice(s.as_bytes());
-                },
-                Val::Boolean(b) => bytes.push(if *b { 1 } else { 0 }),
-                Val::Decimal(d) => bytes.extend_from_slice(&d.to_le_bytes()),
-                Val::Null => bytes.push(0xFF), // Special marker for NULL
-                _ => {
-                    // For other types, convert to string and serialize
-                    let s = format!("{:?}", value);
-                    bytes.extend_from_slice(&(s.len() as u32).to_le_bytes());
-                    bytes.extend_from_slice(s.as_bytes());
-                },
-            }
-        }
-
-        bytes
-    }
 }
 
 impl AbstractExecutor for DistinctExecutor {
@@ -239,13 +181,8 @@ impl AbstractExecutor for DistinctExecutor {
                 Some((tuple, rid)) => {
                     debug!("DistinctExecutor received tuple with RID {:?}", rid);
 
-                    // Serialize the tuple to bytes for comparison
-                    let tuple_bytes = self.serialize_tuple(&tuple);
-
                     // Check if we've seen this tuple before
-                    if !self.seen_tuples.contains(&tuple_bytes) {
-                        // Insert the tuple bytes into our set
-                        self.seen_tuples.insert(tuple_bytes);
+                    if self.seen_tuples.insert(tuple.get_values().to_vec()) {
                         debug!("DistinctExecutor returning unique tuple with RID {:?}", rid);
                         return Ok(Some((tuple, rid)));
                     } else {
-- 
2.43.0


From 9db89220e75f32b150f47b86b3e2d80a7ff06576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:18 +0000
Subject: [PATCH 40/49] fix: aggregation counted NULLs in COUNT(column) and
 ignored failures

---
 .../executors/aggregation_executor.rs         | 90 +++++++++++--------
 1 file changed, 55 insertions(+), 35 deletions(-)

diff --git a/src/sql/execution/executors/aggregation_executor.rs b/src/sql/execution/executors/aggregation_executor.rs
index bf21726..3b9e0d1 100644
--- a/src/sql/execution/executors/aggregation_executor.rs
+++ b/src/sql/execution/executors/aggregation_executor.rs
@@ -209,6 +209,8 @@ pub struct AggregationExecutor {
     initialized: bool,
     /// Finalized groups ready for output, consumed by `next()`.
     groups_to_return: Vec<(GroupKey, AggregateValues)>,
+    /// The error that ended the computation, until `next()` reports it.
+    failure: Option<DBError>,
 }
 
 impl AggregationExecutor {
@@ -239,6 +241,7 @@ impl AggregationExecutor {
             groups_to_return: Vec::new(),
             output_schema: plan.get_output_schema().clone(),
             initialized: false,
+            failure: None,
         }
     }
 
@@ -277,7 +280,7 @@ impl AggregationExecutor {
         key: GroupKey,
         tuple: &Tuple,
         schema: &Schema,
-    ) -> Result<(), String> {
+    ) -> Result<(), DBError> {
         debug!("Computing aggregate for key: {:?}", key);
         debug!("Number of aggregates: {}", aggregates.len());
 
@@ -297,7 +300,7 @@ impl AggregationExecutor {
                     debug!("Aggregate type: {:?}", agg.get_agg_type());
                     match agg.get_agg_type() {
                         AggregationType::Sum => {
-                            let arg_val = agg.get_arg().evaluate(tuple, schema).unwrap();
+                            let arg_val = agg.get_arg().evaluate(tuple, schema)?;
                             if !arg_val.is_null() {
                                 if agg_value.values[i].is_null() {
                                     agg_value.values[i] = arg_val;
@@ -307,6 +310,16 @@ impl AggregationExecutor {
                             }
                         },
                         AggregationType::Count | AggregationType::CountStar => {
+                            // Only COUNT(*) counts the rows whose argument is NULL
+                            if let (AggregationType::Count, Some(arg)) =
+                                (agg.get_agg_type(), agg.get_children().first())
+                                && arg.evaluate(tuple, schema)?.is_null()
+                            {
+                                if agg_value.values[i].is_null() {
+                                    agg_value.values[i] = Value::new(0i64);
+                                }
+                                continue;
+                            }
                             let count = if agg_value.values[i].is_null() {
                                 Value::new(1i64)
                             } else {
@@ -315,7 +328,7 @@ impl AggregationExecutor {
                             agg_value.values[i] = count;
                         },
                         AggregationType::Min => {
-                            let arg_val = agg.get_arg().evaluate(tuple, schema).unwrap();
+                            let arg_val = agg.get_arg().evaluate(tuple, schema)?;
                             if !arg_val.is_null() {
                                 if agg_value.values[i].is_null() {
                                     agg_value.values[i] = arg_val;
@@ -327,7 +340,7 @@ impl AggregationExecutor {
                             }
                         },
                         AggregationType::Max => {
-                            let arg_val = agg.get_arg().evaluate(tuple, schema).unwrap();
+                            let arg_val = agg.get_arg().evaluate(tuple, schema)?;
                             if !arg_val.is_null() {
                                 if agg_value.values[i].is_null() {
                                     agg_value.values[i] = arg_val;
@@ -339,7 +352,7 @@ impl AggregationExecutor {
                             }
                         },
                         AggregationType::Avg => {
-                            let arg_val = agg.get_arg().evaluate(tuple, schema).unwrap();
+                            let arg_val = agg.get_arg().evaluate(tuple, schema)?;
                             if !arg_val.is_null() {
                                 // Track count for this average
                                 let count_key = (key.clone(), i);
@@ -356,10 +369,10 @@ impl AggregationExecutor {
                             }
                         },
                         _ => {
-                            return Err(format!(
+                            return Err(DBError::NotImplemented(format!(
                                 "Unsupported aggregate type: {:?}",
                                 agg.get_agg_type()
-                            ));
+                            )));
                         },
                     }
                 },
@@ -367,13 +380,13 @@ impl AggregationExecutor {
                     debug!("Column reference found in values");
                     // For group by columns, store the value only on first occurrence
                     if agg_value.values[i].is_null() {
-                        agg_value.values[i] = agg_expr.evaluate(tuple, schema).unwrap();
+                        agg_value.values[i] = agg_expr.evaluate(tuple, schema)?;
                     }
                 },
                 _ => {
                     debug!("Other expression type found in aggregates");
                     // For other expressions, evaluate each time
-                    agg_value.values[i] = agg_expr.evaluate(tuple, schema).unwrap();
+                    agg_value.values[i] = agg_expr.evaluate(tuple, schema)?;
                 },
             }
             debug!("Updated aggregate values: {:?}", agg_value.values);
@@ -407,6 +420,7 @@ impl AbstractExecutor for AggregationExecutor {
             self.child.init();
             self.groups.clear();
             self.avg_counts.clear();
+            self.initialized = true;
 
             // For empty input with no group by, create a single group with default values
             let mut has_rows = false;
@@ -420,29 +434,33 @@ impl AbstractExecutor for AggregationExecutor {
                         let schema = self.child.get_output_schema();
                         let aggregates = self.aggregate_exprs.clone();
 
-                        // Compute group by key
-                        let mut key_values = Vec::new();
-                        for expr in &self.group_by_exprs {
-                            key_values.push(expr.evaluate(&tuple, schema).unwrap());
-                        }
-                        let key = GroupKey { values: key_values };
-
-                        // Update aggregates for this group
-                        if let Err(e) = Self::compute_aggregate(
-                            &mut self.groups,
-                            &mut self.avg_counts,
-                            &aggregates,
-                            key,
-                            &tuple,
-                            schema,
-                        ) {
+                        // Compute the group by key and update the group's aggregates
+                        let key_values: Result<Vec<_>, _> = self
+                            .group_by_exprs
+                            .iter()
+                            .map(|expr| expr.evaluate(&tuple, schema))
+                            .collect();
+                        let updated = key_values.map_err(DBError::from).and_then(|values| {
+                            Self::compute_aggregate(
+                                &mut self.groups,
+                                &mut self.avg_counts,
+                                &aggregates,
+                                GroupKey { values },
+                                &tuple,
+                                schema,
+                            )
+                        });
+                        if let Err(e) = updated {
                             error!("Error computing aggregate: {}", e);
+                            self.failure = Some(e);
+                            return;
                         }
                     },
                     Ok(None) => break,
                     Err(e) => {
                         debug!("Error from child executor: {}", e);
-                        return; // Initialize failed, but we don't propagate errors from init
+                        self.failure = Some(e);
+                        return; // init cannot report it; next does
                     },
                 }
             }
@@ -482,19 +500,13 @@ impl AbstractExecutor for AggregationExecutor {
             self.groups_to_return.sort_by(|(key1, _), (key2, _)| {
                 // Compare each value in the group key
                 for (v1, v2) in key1.values.iter().zip(key2.values.iter()) {
-                    match v1.compare_less_than(v2) {
-                        CmpBool::CmpTrue => return std::cmp::Ordering::Less,
-                        CmpBool::CmpFalse => {
-                            if let CmpBool::CmpTrue = v2.compare_less_than(v1) {
-                                return std::cmp::Ordering::Greater;
-                            }
-                        },
-                        CmpBool::CmpNull => continue,
+                    match v1.partial_cmp(v2) {
+                        None | Some(std::cmp::Ordering::Equal) => continue,
+                        Some(ordering) => return ordering,
                     }
                 }
                 std::cmp::Ordering::Equal
             });
-            self.initialized = true;
         }
     }
 
@@ -527,6 +539,11 @@ impl AbstractExecutor for AggregationExecutor {
             self.init();
         }
 
+        // What went wrong while the groups were computed
+        if let Some(e) = self.failure.take() {
+            return Err(e);
+        }
+
         // Take the next group from the Vec
         if let Some((key, mut value)) = self.groups_to_return.pop() {
             debug!(
@@ -554,6 +571,9 @@ impl AbstractExecutor for AggregationExecutor {
                                     let bigint_val = value.values[i].as_bigint()?;
                                     Value::new(bigint_val as f64)
                                 },
+                                TypeId::SmallInt | TypeId::TinyInt | TypeId::Float => {
+                                    value.values[i].cast_to(TypeId::Decimal)?
+                                },
                                 TypeId::Decimal => value.values[i].clone(),
                                 _ => {
                                     debug!(
-- 
2.43.0


From 89ce107d374242acdeaba8f39588a8098566862f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:13 +0000
Subject: [PATCH 41/49] fix: hash join lost repeated keys, joined NULLs and
 ignored failures and the join type

---
 .../execution/executors/hash_join_executor.rs | 227 ++++++++----------
 1 file changed, 95 insertions(+), 132 deletions(-)

diff --git a/src/sql/execution/executors/hash_join_executor.rs b/src/sql/execution/executors/hash_join_executor.rs
index c391f69..84f4b76 100644
--- a/src/sql/execution/executors/hash_join_executor.rs
+++ b/src/sql/execution/executors/hash_join_executor.rs
@@ -20,13 +20,13 @@
 //! │                                                             │
 //! │  BUILD PHASE (right child):                                 │
 //! │  ┌─────────────┐    ┌─────────────────────────────────┐    │
-//! │  │ Right Tuple │───▶│ Hash(key) → DiskExtendableHash  │    │
-//! │  │ (id=1, 25)  │    │ table[hash] = RID               │    │
+//! │  │ Right Tuple │───▶│ Hash(keys) → rows with the keys │    │
+//! │  │ (id=1, 25)  │    │ table[keys] += row              │    │
 //! │  └─────────────┘    └─────────────────────────────────┘    │
 //! │                                                             │
 //! │  PROBE PHASE (left child):                                  │
 //! │  ┌─────────────┐    ┌─────────────┐    ┌─────────────┐     │
-//! │  │ Left Tuple  │───▶│ Hash(key)   │───▶│ Lookup RID  │     │
+//! │  │ Left Tuple  │───▶│ Hash(keys)  │───▶│ Lookup rows │     │
 //! │  │ (id=1,Alice)│    │ → bucket    │    │ → Match!    │     │
 //! │  └─────────────┘    └─────────────┘    └─────────────┘     │
 //! │                              │                              │
@@ -46,41 +46,42 @@
 //!
 //! ## Storage
 //!
-//! Uses `DiskExtendableHashTable` for the build phase, which supports
-//! spilling to disk for large datasets that exceed memory.
+//! The right rows are kept in memory, in a hash table by their join keys.
 
+use std::collections::{HashMap, VecDeque};
 use std::sync::Arc;
 
 use log::debug;
 use parking_lot::RwLock;
+use sqlparser::ast::JoinOperator;
 
 use crate::catalog::schema::Schema;
 use crate::common::exception::DBError;
 use crate::common::rid::RID;
-use crate::container::disk_extendable_hash_table::DiskExtendableHashTable;
-use crate::container::hash_function::HashFunction;
 use crate::sql::execution::execution_context::ExecutionContext;
 use crate::sql::execution::executors::abstract_executor::AbstractExecutor;
-use crate::sql::execution::expressions::abstract_expression::ExpressionOps;
+use crate::sql::execution::expressions::abstract_expression::{Expression, ExpressionOps};
 use crate::sql::execution::plans::abstract_plan::AbstractPlanNode;
 use crate::sql::execution::plans::hash_join_plan::HashJoinNode;
 use crate::storage::table::tuple::Tuple;
+use crate::types_db::value::Value;
 
 /// Executor for hash-based equi-join operations.
 ///
 /// `HashJoinExecutor` implements a classic hash join algorithm with a
-/// build phase (right child) and probe phase (left child). It uses a
-/// disk-backed extendable hash table for the build side.
+/// build phase (right child) and probe phase (left child). The build side
+/// is kept in memory.
 ///
 /// # Join Types
 ///
 /// Currently supports inner joins. The output contains only rows where
-/// the join key matches in both tables.
+/// the join keys match in both tables; NULL matches nothing. Other join
+/// types are refused.
 ///
 /// # Algorithm
 ///
 /// 1. **Build Phase**: Consume all tuples from right child, hash the
-///    join key, and insert (key → RID) into the hash table.
+///    join keys, and add them to the hash table's rows for these keys.
 ///
 /// 2. **Probe Phase**: For each left tuple, hash the join key, probe
 ///    the hash table, and emit combined tuples for matches.
@@ -99,9 +100,8 @@ use crate::storage::table::tuple::Tuple;
 ///
 /// # Memory Management
 ///
-/// Right-side tuples are stored in memory (`right_tuples` vector) for
-/// retrieval during the probe phase. The hash table itself may spill
-/// to disk via the buffer pool.
+/// Right-side tuples are stored in memory for retrieval during the probe
+/// phase.
 pub struct HashJoinExecutor {
     /// Shared execution context for buffer pool access.
     context: Arc<RwLock<ExecutionContext>>,
@@ -111,12 +111,12 @@ pub struct HashJoinExecutor {
     left_child: Box<dyn AbstractExecutor>,
     /// Right child executor (build side).
     right_child: Box<dyn AbstractExecutor>,
-    /// Disk-backed hash table built from right child.
-    hash_table: Option<DiskExtendableHashTable>,
-    /// Stored right tuples for lookup during probe phase.
-    right_tuples: Vec<(RID, Arc<Tuple>)>,
-    /// Current left tuple being probed (None if need next).
-    current_left_tuple: Option<(Arc<Tuple>, RID)>,
+    /// Right tuples by their join keys.
+    hash_table: HashMap<Vec<Value>, Vec<Arc<Tuple>>>,
+    /// Joined tuples of the current left tuple not handed out yet.
+    pending: VecDeque<(Arc<Tuple>, RID)>,
+    /// Failure of the build phase, reported by `next()`.
+    failure: Option<DBError>,
     /// Flag indicating whether initialization is complete.
     initialized: bool,
 }
@@ -148,85 +148,61 @@ impl HashJoinExecutor {
             plan,
             left_child,
             right_child,
-            hash_table: None,
-            right_tuples: Vec::new(),
-            current_left_tuple: None,
+            hash_table: HashMap::new(),
+            pending: VecDeque::new(),
+            failure: None,
             initialized: false,
         }
     }
 
+    /// The join keys of a tuple, or `None` if one of them is NULL.
+    fn join_keys(
+        exprs: &[Arc<Expression>],
+        tuple: &Tuple,
+        schema: &Schema,
+    ) -> Result<Option<Vec<Value>>, DBError> {
+        let mut keys = Vec::with_capacity(exprs.len());
+        for expr in exprs {
+            let key = expr
+                .evaluate(tuple, schema)
+                .map_err(|e| DBError::Execution(format!("Failed to evaluate join key: {}", e)))?;
+            if key.is_null() {
+                return Ok(None);
+            }
+            keys.push(key);
+        }
+        Ok(Some(keys))
+    }
+
     /// Builds the hash table from the right child (build phase).
     ///
-    /// Consumes all tuples from the right child executor, evaluates the
-    /// join key expression on each, and inserts (key → RID) into the
-    /// disk-backed hash table.
-    ///
-    /// # Returns
-    ///
-    /// * `true` - Hash table built successfully
-    /// * `false` - Build failed (hash table creation, key evaluation, or insert error)
-    ///
-    /// # Hash Table Configuration
-    ///
-    /// Creates a `DiskExtendableHashTable` with:
-    /// - Bucket size: 4 entries
-    /// - Initial depth: 4
-    /// - Max buckets: 100
-    ///
-    /// # Side Effects
-    ///
-    /// - Populates `self.hash_table` with the built hash table
-    /// - Populates `self.right_tuples` with (RID, Tuple) pairs for lookup
-    fn build_hash_table(&mut self) -> bool {
-        debug!("Building hash table from right child");
-
-        let hash_table = match DiskExtendableHashTable::new(
-            "hash_join_table".to_string(),
-            self.get_executor_context().read().get_buffer_pool_manager(),
-            HashFunction::new(),
-            4,
-            4,
-            100,
+    /// Consumes all tuples from the right child executor and files each
+    /// under its join keys.
+    fn build_hash_table(&mut self) -> Result<(), DBError> {
+        if !matches!(
+            self.plan.get_join_type(),
+            JoinOperator::Inner(_) | JoinOperator::Join(_)
         ) {
-            Ok(ht) => ht,
-            Err(_) => return false,
-        };
-
-        self.hash_table = Some(hash_table);
+            return Err(DBError::NotImplemented(format!(
+                "Hash join of type {:?}",
+                self.plan.get_join_type()
+            )));
+        }
 
         self.right_child.init();
 
-        loop {
-            match self.right_child.next() {
-                Ok(Some((tuple, rid))) => {
-                    let key = match self.plan.get_right_key_expressions()[0]
-                        .evaluate(&tuple, self.plan.get_right_schema())
-                    {
-                        Ok(value) => value,
-                        Err(_) => {
-                            debug!("Failed to evaluate right key expression");
-                            return false;
-                        },
-                    };
-
-                    if let Some(ref mut ht) = self.hash_table
-                        && !ht.insert(key, rid)
-                    {
-                        debug!("Failed to insert into hash table");
-                        return false;
-                    }
-
-                    self.right_tuples.push((rid, tuple));
-                },
-                Ok(None) => break,
-                Err(e) => {
-                    debug!("Error from right child executor: {}", e);
-                    return false;
-                },
+        while let Some((tuple, _)) = self.right_child.next()? {
+            let keys = Self::join_keys(
+                self.plan.get_right_key_expressions(),
+                &tuple,
+                self.plan.get_right_schema(),
+            )?;
+            if let Some(keys) = keys {
+                self.hash_table.entry(keys).or_default().push(tuple);
             }
         }
 
-        true
+        Ok(())
     }
 }
 
@@ -244,42 +220,41 @@ impl AbstractExecutor for HashJoinExecutor {
     ///
     /// # Failure Handling
     ///
-    /// If hash table construction fails, `initialized` remains `false` and
-    /// subsequent `next()` calls will return `None`.
+    /// If hash table construction fails, the next `next()` call reports it.
     fn init(&mut self) {
         if !self.initialized {
             debug!("Initializing HashJoinExecutor");
 
-            if !self.build_hash_table() {
+            self.initialized = true;
+
+            if let Err(e) = self.build_hash_table() {
                 debug!("Failed to build hash table");
+                self.failure = Some(e);
                 return;
             }
 
             self.left_child.init();
-
-            self.initialized = true;
         }
     }
 
     /// Returns the next joined tuple (probe phase).
     ///
     /// For each left tuple, evaluates the join key and probes the hash
-    /// table. If a match is found, combines the left and right tuples
-    /// and returns the result.
+    /// table. Each right tuple found is combined with the left tuple
+    /// and returned.
     ///
     /// # Probe Algorithm
     ///
-    /// 1. Get next left tuple (if current is None)
-    /// 2. Evaluate left key expression
-    /// 3. Probe hash table with key
-    /// 4. If match found: combine tuples and return
-    /// 5. If no match: advance to next left tuple
+    /// 1. Return the next pending match, if any
+    /// 2. Get next left tuple and evaluate its key expressions
+    /// 3. Probe hash table with the keys
+    /// 4. Combine the left tuple with every match; these are pending
     ///
     /// # Returns
     ///
     /// * `Ok(Some((tuple, rid)))` - Combined tuple from matching rows
     /// * `Ok(None)` - No more matches (left child exhausted or not initialized)
-    /// * `Err(DBError)` - Error from left child executor
+    /// * `Err(DBError)` - Error of a child executor, key expression or join type
     ///
     /// # Output Tuple Structure
     ///
@@ -293,44 +268,32 @@ impl AbstractExecutor for HashJoinExecutor {
             return Ok(None);
         }
 
+        if let Some(e) = self.failure.take() {
+            return Err(e);
+        }
+
         loop {
-            if self.current_left_tuple.is_none() {
-                match self.left_child.next()? {
-                    Some((tuple, rid)) => {
-                        self.current_left_tuple = Some((tuple, rid));
-                    },
-                    None => return Ok(None),
-                }
+            if let Some(result) = self.pending.pop_front() {
+                return Ok(Some(result));
             }
 
-            // Clone the values we need and drop the borrow immediately
-            let (left_tuple, left_rid) = {
-                let (tuple, rid) = self.current_left_tuple.as_ref().unwrap();
-                (tuple.clone(), *rid)
+            let Some((left_tuple, left_rid)) = self.left_child.next()? else {
+                return Ok(None);
             };
 
-            let key = match self.plan.get_left_key_expressions()[0]
-                .evaluate(&left_tuple, self.plan.get_left_schema())
-            {
-                Ok(value) => value,
-                Err(_) => {
-                    debug!("Failed to evaluate left key expression");
-                    self.current_left_tuple = None;
-                    continue;
-                },
-            };
-
-            if let Some(ref ht) = self.hash_table
-                && let Some(right_rid) = ht.get_value(&key)
-                && let Some((_, right_tuple)) =
-                    self.right_tuples.iter().find(|(rid, _)| *rid == right_rid)
-            {
-                let combined_tuple = Arc::new(left_tuple.combine(right_tuple));
-                self.current_left_tuple = None;
-                return Ok(Some((combined_tuple, left_rid)));
+            let keys = Self::join_keys(
+                self.plan.get_left_key_expressions(),
+                &left_tuple,
+                self.plan.get_left_schema(),
+            )?;
+
+            if let Some(matches) = keys.and_then(|keys| self.hash_table.get(&keys)) {
+                self.pending.extend(
+                    matches
+                        .iter()
+                        .map(|right_tuple| (Arc::new(left_tuple.combine(right_tuple)), left_rid)),
+                );
             }
-
-            self.current_left_tuple = None;
         }
     }
 
-- 
2.43.0


From 70407dfa5b7653f24d9d07a9a64b0d181fc7871a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:38 +0000
Subject: [PATCH 42/49] fix: outer joins lost repeated right rows, and all
 right rows when the left side was empty

---
 .../executors/nested_loop_join_executor.rs    | 38 +++++++++++--------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/src/sql/execution/executors/nested_loop_join_executor.rs b/src/sql/execution/executors/nested_loop_join_executor.rs
index dfee6f2..6fb74d4 100644
--- a/src/sql/execution/executors/nested_loop_join_executor.rs
+++ b/src/sql/execution/executors/nested_loop_join_executor.rs
@@ -191,6 +191,9 @@ pub struct JoinState {
     /// All right tuples seen during main join (for full outer joins)
     pub all_right_tuples: Vec<(Arc<Tuple>, RID)>,
 
+    /// Number of right tuples scanned for the current left tuple
+    pub right_position: usize,
+
     /// Right tuples that have been matched (for full outer joins)
     pub matched_right_tuples: std::collections::HashSet<usize>,
 }
@@ -215,6 +218,7 @@ impl JoinState {
             unmatched_left_tuples: Vec::new(),
             unmatched_left_index: 0,
             all_right_tuples: Vec::new(),
+            right_position: 0,
             matched_right_tuples: std::collections::HashSet::new(),
         }
     }
@@ -223,6 +227,7 @@ impl JoinState {
     pub fn reset_for_new_left_tuple(&mut self, left_tuple: (Arc<Tuple>, RID)) {
         self.current_left_tuple = Some(left_tuple);
         self.current_left_matched = false;
+        self.right_position = 0;
         self.right_executor_exhausted = false;
     }
 
@@ -1088,7 +1093,10 @@ impl NestedLoopJoinExecutor {
                 if !self.join_state.right_executor_exhausted {
                     match self.executor_manager.get_next_right_tuple()? {
                         Some((right_tuple, right_rid)) => {
-                            // For right and full outer joins, track all right tuples
+                            // For right and full outer joins, track all right tuples. Every
+                            // scan yields them in the same order.
+                            let position = self.join_state.right_position;
+                            self.join_state.right_position += 1;
                             if matches!(
                                 self.join_handler.join_type,
                                 JoinType::Right(_)
@@ -1096,13 +1104,7 @@ impl NestedLoopJoinExecutor {
                                     | JoinType::FullOuter(_)
                             ) {
                                 // Check if this right tuple is already in our collection
-                                let tuple_exists = self
-                                    .join_state
-                                    .all_right_tuples
-                                    .iter()
-                                    .any(|(t, _)| t.get_values() == right_tuple.get_values());
-
-                                if !tuple_exists {
+                                if position == self.join_state.all_right_tuples.len() {
                                     self.join_state
                                         .add_right_tuple((right_tuple.clone(), right_rid));
                                 }
@@ -1120,14 +1122,7 @@ impl NestedLoopJoinExecutor {
                                         | JoinType::RightOuter(_)
                                         | JoinType::FullOuter(_)
                                 ) {
-                                    // Find the index of this right tuple
-                                    if let Some(index) =
-                                        self.join_state.all_right_tuples.iter().position(
-                                            |(t, _)| t.get_values() == right_tuple.get_values(),
-                                        )
-                                    {
-                                        self.join_state.mark_right_tuple_matched(index);
-                                    }
+                                    self.join_state.mark_right_tuple_matched(position);
                                 }
                                 return Ok(Some(result));
                             }
@@ -1169,6 +1164,17 @@ impl NestedLoopJoinExecutor {
                     }
                 }
             } else if self.join_state.left_executor_exhausted {
+                // Without left tuples the right side was never scanned
+                if matches!(
+                    self.join_handler.join_type,
+                    JoinType::Right(_) | JoinType::RightOuter(_) | JoinType::FullOuter(_)
+                ) && self.join_state.all_right_tuples.is_empty()
+                {
+                    while let Some(right_tuple) = self.executor_manager.get_next_right_tuple()? {
+                        self.join_state.add_right_tuple(right_tuple);
+                    }
+                }
+
                 // Move to next phase
                 self.join_state.advance_phase(&self.join_handler.join_type);
                 return Ok(None);
-- 
2.43.0


From 7f318f9d8096b7133cf54e386a69d3468b15d181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:59 +0000
Subject: [PATCH 43/49] fix: a table scan dropped the pages it could not read
 and gave wrong row ids beside deleted rows

---
 src/catalog/database.rs                       | 20 +++++---
 .../execution/executors/insert_executor.rs    |  8 ++-
 .../execution/executors/seq_scan_executor.rs  |  4 ++
 .../executors/table_scan_executor.rs          |  6 +++
 src/storage/table/table_heap.rs               | 15 +++---
 src/storage/table/table_iterator.rs           | 50 ++++++++++++++++---
 6 files changed, 80 insertions(+), 23 deletions(-)

diff --git a/src/catalog/database.rs b/src/catalog/database.rs
index 20e3834..02a05ce 100644
--- a/src/catalog/database.rs
+++ b/src/catalog/database.rs
@@ -520,6 +520,14 @@ impl Database {
             },
         };
 
+        // Populate the index with existing table data
+        if let Some(table_info) = self.get_table_info_by_name(table_name)
+            && let Err(e) = self.populate_index_with_existing_data(&index, &index_info, &table_info)
+        {
+            warn!("Cannot create index '{}': {}", index_name, e);
+            return None;
+        }
+
         // Update catalog maps
         self.index_names.insert(index_name.to_string(), index_oid);
         self.indexes
@@ -527,11 +535,6 @@ impl Database {
 
         self.next_index_oid += 1;
 
-        // Populate the index with existing table data
-        if let Some(table_info) = self.get_table_info_by_name(table_name) {
-            self.populate_index_with_existing_data(&index, &index_info, &table_info);
-        }
-
         // Return reference to the newly created index info
         self.get_index_by_index_oid(index_oid)
     }
@@ -636,7 +639,7 @@ impl Database {
         index: &Arc<RwLock<BPlusTree>>,
         index_info: &Arc<IndexInfo>,
         table_info: &Arc<TableInfo>,
-    ) {
+    ) -> Result<(), String> {
         use log::debug;
 
         use crate::storage::table::table_iterator::TableScanIterator;
@@ -687,11 +690,16 @@ impl Database {
             }
         }
 
+        if let Some(e) = iterator.take_error() {
+            return Err(format!("Table scan failed: {}", e));
+        }
+
         debug!(
             "Successfully populated index '{}' with {} entries",
             index_info.get_index_name(),
             entry_count
         );
+        Ok(())
     }
 }
 
diff --git a/src/sql/execution/executors/insert_executor.rs b/src/sql/execution/executors/insert_executor.rs
index 5760cf0..5a219ac 100644
--- a/src/sql/execution/executors/insert_executor.rs
+++ b/src/sql/execution/executors/insert_executor.rs
@@ -393,9 +393,9 @@ impl InsertExecutor {
             TransactionalTableHeap::new(table_info.get_table_heap(), table_info.get_table_oidt());
 
         // Check if the value exists in the referenced table
-        let iterator = referenced_table_heap.make_iterator(Some(txn_context));
+        let mut iterator = referenced_table_heap.make_iterator(Some(txn_context));
 
-        for item in iterator {
+        for item in iterator.by_ref() {
             let (_, tuple) = item;
             let existing_value = tuple.get_value(column_index);
             if existing_value == *value {
@@ -403,6 +403,10 @@ impl InsertExecutor {
             }
         }
 
+        if let Some(e) = iterator.take_error() {
+            return Err(format!("Table scan failed: {}", e));
+        }
+
         Ok(false) // Referenced value not found
     }
 }
diff --git a/src/sql/execution/executors/seq_scan_executor.rs b/src/sql/execution/executors/seq_scan_executor.rs
index fcc4429..60d4b62 100644
--- a/src/sql/execution/executors/seq_scan_executor.rs
+++ b/src/sql/execution/executors/seq_scan_executor.rs
@@ -419,6 +419,10 @@ impl AbstractExecutor for SeqScanExecutor {
             return Ok(Some((tuple, rid)));
         }
 
+        if let Some(e) = iter.take_error() {
+            return Err(DBError::Execution(format!("Table scan failed: {}", e)));
+        }
+
         trace!("Reached end of table scan");
         Ok(None)
     }
diff --git a/src/sql/execution/executors/table_scan_executor.rs b/src/sql/execution/executors/table_scan_executor.rs
index caa7f5f..5ac8751 100644
--- a/src/sql/execution/executors/table_scan_executor.rs
+++ b/src/sql/execution/executors/table_scan_executor.rs
@@ -287,6 +287,12 @@ impl AbstractExecutor for TableScanExecutor {
                             Ok(Some((tuple.clone(), tuple.get_rid())))
                         },
                         None => {
+                            if let Some(e) = iter.take_error() {
+                                return Err(DBError::Execution(format!(
+                                    "Table scan failed: {}",
+                                    e
+                                )));
+                            }
                             debug!("No more tuples to scan");
                             Ok(None)
                         },
diff --git a/src/storage/table/table_heap.rs b/src/storage/table/table_heap.rs
index 970ab07..d756d84 100644
--- a/src/storage/table/table_heap.rs
+++ b/src/storage/table/table_heap.rs
@@ -736,16 +736,17 @@ impl TableHeap {
             return INVALID_PAGE_ID;
         }
 
-        // Find the first page with tuples
+        // Find the first page with tuples; one that cannot be read may hold some
         while current_page_id != INVALID_PAGE_ID {
-            if let Ok(page_guard) = self.get_page(current_page_id) {
-                let page = page_guard.read();
-                if page.get_num_tuples() > 0 {
-                    return current_page_id;
-                }
+            let Ok(page_guard) = self.get_page(current_page_id) else {
+                return current_page_id;
+            };
+            let page = page_guard.read();
+            if page.get_num_tuples() > 0 {
+                return current_page_id;
             }
             // Move to the next page
-            current_page_id = self.get_next_page_id(current_page_id);
+            current_page_id = page.get_next_page_id();
         }
 
         // If no pages with tuples found, return INVALID_PAGE_ID
diff --git a/src/storage/table/table_iterator.rs b/src/storage/table/table_iterator.rs
index cadab87..c0922ae 100644
--- a/src/storage/table/table_iterator.rs
+++ b/src/storage/table/table_iterator.rs
@@ -199,6 +199,8 @@ pub struct TableIterator {
     stop_at_rid: RID,
     /// Optional transaction context for visibility checks
     txn_ctx: Option<Arc<TransactionContext>>,
+    /// Why the scan ended before its last tuple, if it did
+    error: Option<String>,
 }
 
 /// Iterator for scanning a table sequentially.
@@ -228,6 +230,7 @@ impl TableIterator {
             last_returned_rid: None,
             stop_at_rid: stop_rid,
             txn_ctx,
+            error: None,
         };
         iterator.initialize();
         iterator
@@ -263,6 +266,17 @@ impl TableIterator {
         false
     }
 
+    /// Takes the failure that ended the scan early, if one did
+    pub fn take_error(&mut self) -> Option<String> {
+        self.error.take()
+    }
+
+    /// Ends the scan because a page cannot be read
+    fn fail(&mut self, error: String) {
+        self.current_rid = RID::new(INVALID_PAGE_ID, 0);
+        self.error = Some(error);
+    }
+
     /// Initialize iterator position
     fn initialize(&mut self) {
         debug!(
@@ -318,7 +332,11 @@ impl TableIterator {
         let table_heap = self.table_heap.get_table_heap();
         let _guard = table_heap.latch.read();
 
-        if let Ok(page_guard) = table_heap.get_page(self.current_rid.get_page_id()) {
+        let page_guard = match table_heap.get_page(self.current_rid.get_page_id()) {
+            Ok(page_guard) => page_guard,
+            Err(e) => return self.fail(e),
+        };
+        {
             let page = page_guard.read();
             let next_slot = self.current_rid.get_slot_num() + 1;
 
@@ -334,8 +352,6 @@ impl TableIterator {
                 // Move to next slot
                 self.current_rid = RID::new(self.current_rid.get_page_id(), next_slot);
             }
-        } else {
-            self.current_rid = RID::new(INVALID_PAGE_ID, 0);
         }
     }
 
@@ -408,6 +424,11 @@ impl TableScanIterator {
         self.last_rid = None;
     }
 
+    /// Takes the failure that ended the scan early, if one did
+    pub fn take_error(&mut self) -> Option<String> {
+        self.inner.take_error()
+    }
+
     /// Get reference to the table info
     pub fn get_table_info(&self) -> &Arc<TableInfo> {
         &self.table_info
@@ -422,7 +443,6 @@ impl Iterator for TableScanIterator {
             return None;
         }
 
-        let current_rid = self.inner.get_rid();
         let result = self.inner.next();
 
         // Update end status
@@ -430,7 +450,7 @@ impl Iterator for TableScanIterator {
             self.is_end = true;
             self.last_rid = None;
         } else {
-            self.last_rid = Some(current_rid);
+            self.last_rid = self.inner.get_last_rid();
         }
 
         result
@@ -441,12 +461,26 @@ impl Iterator for TableIterator {
     type Item = (Arc<TupleMeta>, Arc<Tuple>);
 
     fn next(&mut self) -> Option<Self::Item> {
-        // Capture the RID we are about to return; `advance` will move to the next slot.
-        let current_rid = self.current_rid;
-
         while !self.is_end() {
             debug!("Attempting to get tuple with RID: {:?}", self.current_rid);
 
+            // Capture the RID we are about to return; `advance` will move to the next slot.
+            let current_rid = self.current_rid;
+
+            // With the page in memory, a tuple that cannot be had is one this scan
+            // does not see, and not one whose page cannot be read.
+            let _page_guard = match self
+                .table_heap
+                .get_table_heap()
+                .get_page(current_rid.get_page_id())
+            {
+                Ok(page_guard) => page_guard,
+                Err(e) => {
+                    self.fail(e);
+                    return None;
+                },
+            };
+
             let result = if let Some(txn_ctx) = &self.txn_ctx {
                 // Use transactional get_tuple for MVCC
                 self.table_heap
-- 
2.43.0


From 39870bd7de42275ca3e68398731e39f75b6eb40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:38 +0000
Subject: [PATCH 44/49] fix: a reopened table heap cut off the pages added
 after its last page was recorded

---
 src/storage/table/table_heap.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/storage/table/table_heap.rs b/src/storage/table/table_heap.rs
index d756d84..1a30894 100644
--- a/src/storage/table/table_heap.rs
+++ b/src/storage/table/table_heap.rs
@@ -883,6 +883,19 @@ impl TableHeap {
         self.table_oid
     }
 
+    /// Returns the page that ends the chain: a reopened heap may only know a page
+    /// that was the last one earlier.
+    fn end_of_chain(&self) -> Result<PageId, String> {
+        let mut page_id = *self.last_page_id.read();
+        loop {
+            let page_guard = self.get_page(page_id)?;
+            match page_guard.read().get_next_page_id() {
+                INVALID_PAGE_ID => return Ok(page_id),
+                next_page_id => page_id = next_page_id,
+            }
+        }
+    }
+
     fn create_new_page_and_insert(&self, meta: &TupleMeta, tuple: &Tuple) -> Result<RID, String> {
         // First check if tuple is too large for any page
         let temp_page = TablePage::new(0); // Temporary page just for size check
@@ -891,7 +904,7 @@ impl TableHeap {
         }
 
         // Get the current last page ID before creating a new page
-        let last_page_id = *self.last_page_id.read();
+        let last_page_id = self.end_of_chain()?;
 
         // Create a new page
         let new_page_guard = self
@@ -1302,7 +1315,7 @@ impl TableHeap {
         }
 
         // Get the current last page ID before creating a new page
-        let last_page_id = *self.last_page_id.read();
+        let last_page_id = self.end_of_chain()?;
 
         // Create a new page
         let new_page_guard = self
-- 
2.43.0


From fd0feecd165586c9e4ea97933c5fbd212571b43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:10 +0000
Subject: [PATCH 45/49] fix: inserts of several rows failed because the rows
 did not carry their place

---
 src/storage/table/transactional_table_heap.rs | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/src/storage/table/transactional_table_heap.rs b/src/storage/table/transactional_table_heap.rs
index 40d01d2..7ce4bd4 100644
--- a/src/storage/table/transactional_table_heap.rs
+++ b/src/storage/table/transactional_table_heap.rs
@@ -943,8 +943,6 @@ impl TransactionalTableHeap {
             values_batch.len()
         );
 
-        // Single lock acquisition for the entire batch
-        let txn_id = txn_context.get_transaction_id();
         let mut successful_inserts = 0;
 
         // Pre-validate all tuples to fail fast if there are constraint violations
@@ -959,18 +957,8 @@ impl TransactionalTableHeap {
 
             // Process chunk and collect pages that need to be written
             for values in chunk {
-                let expanded_values = self
-                    .table_heap
-                    .expand_values_for_schema(values.clone(), schema)?;
-
-                // Create tuple
-                let tuple = Tuple::new(&expanded_values, schema, RID::new(0, 0));
-
-                // Create metadata for the tuple
-                let meta = Arc::new(TupleMeta::new(txn_id));
-
                 // Insert tuple and collect page info for batching
-                match self.insert_tuple(meta, &tuple, txn_context.clone()) {
+                match self.insert_tuple_from_values(values.clone(), schema, txn_context.clone()) {
                     Ok(rid) => {
                         successful_inserts += 1;
 
-- 
2.43.0


From e5880359e7419da756a9d73a1aa9f3bea7694405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:17 +0000
Subject: [PATCH 46/49] fix: INSERT of literal rows did not check foreign keys

---
 .../execution/executors/insert_executor.rs    | 28 +++++++++++++++++--
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/sql/execution/executors/insert_executor.rs b/src/sql/execution/executors/insert_executor.rs
index 5a219ac..05c03b7 100644
--- a/src/sql/execution/executors/insert_executor.rs
+++ b/src/sql/execution/executors/insert_executor.rs
@@ -530,7 +530,7 @@ impl AbstractExecutor for InsertExecutor {
         };
 
         // Create transactional table heap
-        let transactional_table_heap = TransactionalTableHeap::new(table_heap, table_oidt);
+        let transactional_table_heap = TransactionalTableHeap::new(table_heap.clone(), table_oidt);
 
         let mut insert_count = 0;
 
@@ -539,8 +539,30 @@ impl AbstractExecutor for InsertExecutor {
         if !values_to_insert.is_empty() {
             debug!("Inserting {} direct value sets", values_to_insert.len());
 
-            // PERFORMANCE OPTIMIZATION: Process inserts in batches
-            if values_to_insert.len() >= BATCH_INSERT_THRESHOLD {
+            if schema
+                .get_columns()
+                .iter()
+                .any(|column| column.get_foreign_key().is_some())
+            {
+                // Row by row, as a row may refer to one before it
+                for values in values_to_insert {
+                    let insert_error = |e| DBError::Execution(format!("Insert failed: {}", e));
+                    let values = table_heap
+                        .expand_values_for_schema(values.clone(), &schema)
+                        .map_err(insert_error)?;
+                    Self::validate_foreign_key_constraints_with_context(
+                        &self.context,
+                        &values,
+                        &schema,
+                    )
+                    .map_err(insert_error)?;
+                    transactional_table_heap
+                        .insert_tuple_from_values(values, &schema, txn_context.clone())
+                        .map_err(insert_error)?;
+                    insert_count += 1;
+                }
+            } else if values_to_insert.len() >= BATCH_INSERT_THRESHOLD {
+                // PERFORMANCE OPTIMIZATION: Process inserts in batches
                 debug!(
                     "Using TRUE bulk insert optimization for {} rows",
                     values_to_insert.len()
-- 
2.43.0


From 1bc761f26e7030cb38e36f8d4b3bc77727fd0dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:13 +0000
Subject: [PATCH 47/49] fix: the in-memory B+ tree lost and repeated entries
 among equal keys, NULL keys and merged nodes

---
 src/storage/index/b_plus_tree.rs | 113 ++++++++++++++-----------------
 1 file changed, 52 insertions(+), 61 deletions(-)

diff --git a/src/storage/index/b_plus_tree.rs b/src/storage/index/b_plus_tree.rs
index bf87947..d7158dd 100644
--- a/src/storage/index/b_plus_tree.rs
+++ b/src/storage/index/b_plus_tree.rs
@@ -115,7 +115,7 @@
 //! | Concurrency | `RwLock` per node | Latch crabbing |
 //! | Use Case | Testing, small datasets | Production workloads |
 
-use std::cmp::PartialEq;
+use std::cmp::{Ordering, PartialEq};
 use std::fmt::Debug;
 use std::sync::Arc;
 
@@ -180,6 +180,11 @@ impl BPlusTree {
     pub fn insert(&mut self, key: Value, rid: RID) -> bool {
         debug!("Inserting key {:?} with RID {:?}", key, rid);
 
+        if self.contains(&key, rid) {
+            debug!("Key-RID pair is already in the tree");
+            return false;
+        }
+
         let root_is_full = {
             let root_guard = self.root.read();
             let is_full = root_guard.keys.len() == self.order - 1;
@@ -237,13 +242,15 @@ impl BPlusTree {
 
                     // Check each key to find potential paths
                     for (i, k) in node.keys.iter().enumerate() {
-                        if k.compare_greater_than(key) == CmpBool::CmpTrue {
+                        match self.compare_keys_ordering(k, key) {
                             // If this key is greater, we need to check the left child
-                            child_indices.push(i);
-                        } else if k.compare_equals(key) == CmpBool::CmpTrue {
+                            Ordering::Greater => child_indices.push(i),
                             // If this key equals our search key, check both children
-                            child_indices.push(i);
-                            child_indices.push(i + 1);
+                            Ordering::Equal => {
+                                child_indices.push(i);
+                                child_indices.push(i + 1);
+                            },
+                            Ordering::Less => {},
                         }
                     }
 
@@ -269,7 +276,7 @@ impl BPlusTree {
                         debug!("Checking entry {} - Key: {:?}, RID: {:?}", i, k, r);
 
                         // Check for exact match
-                        if k.compare_equals(key) == CmpBool::CmpTrue && *r == rid {
+                        if self.compare_keys_ordering(k, key) == Ordering::Equal && *r == rid {
                             debug!("Found matching key-RID pair at position {}", i);
                             drop(node);
                             let mut node_write = current_node.write();
@@ -306,6 +313,13 @@ impl BPlusTree {
         false
     }
 
+    /// Whether the pair is in the tree. Entries with the same key may span several leaves.
+    fn contains(&self, key: &Value, rid: RID) -> bool {
+        self.scan_keys(key, key, true)
+            .iter()
+            .any(|(_, entry_rid)| *entry_rid == rid)
+    }
+
     pub fn scan_range(
         &self,
         start_key: &Tuple,
@@ -314,7 +328,15 @@ impl BPlusTree {
     ) -> Result<Vec<(Value, RID)>, String> {
         let start_key = self.extract_key(start_key);
         let end_key = self.extract_key(end_key);
+        Ok(self.scan_keys(&start_key, &end_key, include_end))
+    }
 
+    fn scan_keys(
+        &self,
+        start_key: &Value,
+        end_key: &Value,
+        include_end: bool,
+    ) -> Vec<(Value, RID)> {
         debug!("Starting range scan from {:?} to {:?}", start_key, end_key);
         let mut current_node = Arc::clone(&self.root);
         let mut entries = Vec::new();
@@ -329,8 +351,8 @@ impl BPlusTree {
                     let child_idx = node
                         .keys
                         .iter()
-                        .position(|k| k.compare_greater_than_equals(&start_key) == CmpBool::CmpTrue)
-                        .unwrap_or(0);
+                        .position(|k| self.compare_keys_ordering(k, start_key) != Ordering::Less)
+                        .unwrap_or(node.keys.len());
                     debug!("Selected child index: {}", child_idx);
                     let next_node = Arc::clone(&node.children[child_idx]);
                     drop(node);
@@ -351,14 +373,13 @@ impl BPlusTree {
 
             // Add values from current leaf that are within range
             for (key, rid) in node.keys.iter().zip(node.values.iter()) {
-                if key.compare_less_than(&start_key) == CmpBool::CmpTrue {
+                if self.compare_keys_ordering(key, start_key) == Ordering::Less {
                     continue;
                 }
-                if key.compare_greater_than(&end_key) == CmpBool::CmpTrue
-                    || (!include_end && key.compare_equals(&end_key) == CmpBool::CmpTrue)
-                {
+                let to_end = self.compare_keys_ordering(key, end_key);
+                if to_end == Ordering::Greater || (!include_end && to_end == Ordering::Equal) {
                     debug!("Found key beyond range, ending scan");
-                    return Ok(entries);
+                    return entries;
                 }
                 debug!("Found entry in range - Key: {:?}, RID: {:?}", key, rid);
                 entries.push((key.clone(), *rid));
@@ -380,7 +401,7 @@ impl BPlusTree {
         }
 
         debug!("Scan complete, collected {} entries", entries.len());
-        Ok(entries)
+        entries
     }
 
     pub fn scan_full(&self) -> Result<Vec<(Value, RID)>, String> {
@@ -592,13 +613,16 @@ impl BPlusTree {
         CmpBool::CmpFalse
     }
 
-    pub fn compare_keys_ordering(&self, key1: &Value, key2: &Value) -> std::cmp::Ordering {
-        if key1.compare_less_than(key2) == CmpBool::CmpTrue {
-            std::cmp::Ordering::Less
+    /// The order of keys in the tree, in which NULL comes before every other key.
+    pub fn compare_keys_ordering(&self, key1: &Value, key2: &Value) -> Ordering {
+        if key1.is_null() || key2.is_null() {
+            key2.is_null().cmp(&key1.is_null())
+        } else if key1.compare_less_than(key2) == CmpBool::CmpTrue {
+            Ordering::Less
         } else if key1.compare_greater_than(key2) == CmpBool::CmpTrue {
-            std::cmp::Ordering::Greater
+            Ordering::Greater
         } else {
-            std::cmp::Ordering::Equal
+            Ordering::Equal
         }
     }
 
@@ -611,12 +635,7 @@ impl BPlusTree {
         // This ensures proper routing in internal nodes
         let pos = keys
             .iter()
-            .position(|k| {
-                match k.compare_equals(key) {
-                    CmpBool::CmpTrue => false, // Keep looking, want to insert after equals
-                    _ => k.compare_greater_than(key) == CmpBool::CmpTrue,
-                }
-            })
+            .position(|k| self.compare_keys_ordering(k, key) == Ordering::Greater)
             .unwrap_or(keys.len());
 
         debug!("Found insert position: {}", pos);
@@ -636,34 +655,6 @@ impl BPlusTree {
                 let pos = self.find_insert_position(&node.keys, &key);
                 debug!("Found insert position {} in leaf node", pos);
 
-                // Check for duplicates by scanning all entries with the same key
-                let mut i = pos;
-                // Check entries before pos with same key
-                while i > 0 {
-                    i -= 1;
-                    if node.keys[i].compare_equals(&key) == CmpBool::CmpTrue {
-                        if node.values[i] == rid {
-                            debug!("Found duplicate key-RID pair at position {}", i);
-                            return false;
-                        }
-                    } else {
-                        break;
-                    }
-                }
-                // Check entries from pos onwards with same key
-                i = pos;
-                while i < node.keys.len() {
-                    if node.keys[i].compare_equals(&key) == CmpBool::CmpTrue {
-                        if node.values[i] == rid {
-                            debug!("Found duplicate key-RID pair at position {}", i);
-                            return false;
-                        }
-                    } else {
-                        break;
-                    }
-                    i += 1;
-                }
-
                 debug!(
                     "Inserting at position {}: key={:?}, rid={:?}",
                     pos, key, rid
@@ -762,8 +753,9 @@ impl BPlusTree {
                 // For leaf splits, use the first key of the right node as separator
                 let split_key = new_node_arc.read().keys[0].clone();
 
-                let mut insert_pos = self.find_insert_position(&parent.keys, &split_key);
-                insert_pos = insert_pos.min(parent.keys.len());
+                // The separator goes right behind the child that was split: a search by key
+                // could end up behind later children that hold the same key
+                let insert_pos = child_idx;
 
                 debug!(
                     "Inserting separator key at position {} in parent (len={})",
@@ -797,9 +789,8 @@ impl BPlusTree {
                 // Remove the middle key from the child (it moves up)
                 child_guard.keys.remove(split_point);
 
-                // For internal splits, ensure the routing key is greater than all keys in left subtree
-                let mut insert_pos = self.find_insert_position(&parent.keys, &middle_key);
-                insert_pos = insert_pos.min(parent.keys.len());
+                // As for leaves, the routing key goes right behind the child that was split
+                let insert_pos = child_idx;
 
                 debug!("Inserting middle key at position {} in parent", insert_pos);
 
@@ -1006,7 +997,7 @@ impl BPlusTree {
             },
             NodeType::Internal => {
                 // Move parent's separator key down to left sibling
-                let separator = parent.keys.remove(child_idx - 1);
+                let separator = parent.keys[child_idx - 1].clone();
                 left.keys.push(separator);
 
                 // Move all keys and children from right to left
@@ -1044,7 +1035,7 @@ impl BPlusTree {
             },
             NodeType::Internal => {
                 // Move parent's separator key down to left node
-                let separator = parent.keys.remove(child_idx);
+                let separator = parent.keys[child_idx].clone();
                 left.keys.push(separator);
 
                 // Move all keys and children from right to left
-- 
2.43.0


From 30a65f73096dfb535d2186dfcdbecc6d44297cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:49 +0000
Subject: [PATCH 48/49] fix: index scans lost, repeated or never finished
 listing the rows of ranges and swallowed failures

---
 .../executors/index_scan_executor.rs          | 360 ++++++------------
 src/storage/index/b_plus_tree.rs              |  51 ++-
 src/storage/index/index_iterator_mem.rs       | 118 +-----
 3 files changed, 160 insertions(+), 369 deletions(-)

diff --git a/src/sql/execution/executors/index_scan_executor.rs b/src/sql/execution/executors/index_scan_executor.rs
index c510415..f9f2cf3 100644
--- a/src/sql/execution/executors/index_scan_executor.rs
+++ b/src/sql/execution/executors/index_scan_executor.rs
@@ -54,6 +54,7 @@
 //! Fetched tuples are checked for visibility using the transaction context.
 //! Deleted tuples are automatically skipped.
 
+use std::collections::HashSet;
 use std::sync::Arc;
 
 use log::{debug, error, info};
@@ -73,6 +74,7 @@ use crate::storage::index::IndexInfo;
 use crate::storage::index::index_iterator_mem::IndexIterator;
 use crate::storage::table::transactional_table_heap::TransactionalTableHeap;
 use crate::storage::table::tuple::Tuple;
+use crate::types_db::type_id::TypeId;
 use crate::types_db::value::{Val, Value};
 
 /// Executor for index-based table scans.
@@ -119,6 +121,8 @@ pub struct IndexScanExecutor {
     initialized: bool,
     /// Iterator over index entries within the computed bounds.
     iterator: Option<IndexIterator>,
+    /// Rows that were read; a row whose key has changed has several entries
+    seen: HashSet<RID>,
 }
 
 impl IndexScanExecutor {
@@ -192,276 +196,124 @@ impl IndexScanExecutor {
             plan,
             table_heap,
             iterator: None,
+            seen: HashSet::new(),
             initialized: false,
         }
     }
 
-    /// Analyzes a predicate expression to extract index scan ranges.
-    ///
-    /// Recursively processes comparison and logic expressions to determine
-    /// the optimal start and end bounds for an index scan.
+    /// Bounds the keys of the rows that can satisfy a predicate.
     ///
     /// # Arguments
     ///
     /// * `expr` - The predicate expression to analyze.
+    /// * `key_attr` - The column the index is on.
+    /// * `key_type` - The type of that column.
     ///
     /// # Returns
     ///
-    /// A vector of ranges, where each range is a tuple of:
-    /// - `Option<Value>`: Start bound (None = unbounded)
-    /// - `bool`: Start bound inclusive
-    /// - `Option<Value>`: End bound (None = unbounded)
-    /// - `bool`: End bound inclusive
-    ///
-    /// # Logic Expression Handling
-    ///
-    /// - **AND**: Intersects ranges (takes most restrictive bounds)
-    /// - **OR**: Unions ranges (returns all child ranges)
-    /// - **NOT**: Inverts comparison operators
-    fn analyze_predicate_ranges(
+    /// The first and the last key to scan, both included (None = unbounded). The bounds may
+    /// be wider than the predicate, which is evaluated on every row that is fetched.
+    fn key_bounds(
         expr: &Expression,
-    ) -> Vec<(Option<Value>, bool, Option<Value>, bool)> {
+        key_attr: usize,
+        key_type: TypeId,
+    ) -> (Option<Value>, Option<Value>) {
         match expr {
             Expression::Logic(logic_expr) => {
-                let mut ranges = Vec::new();
-
+                let left = Self::key_bounds(logic_expr.get_left(), key_attr, key_type);
+                let right = Self::key_bounds(logic_expr.get_right(), key_attr, key_type);
                 match logic_expr.get_logic_type() {
-                    LogicType::And => {
-                        // For AND, find the most restrictive range
-                        let mut start_value = None;
-                        let mut end_value = None;
-                        let mut include_start = false;
-                        let mut include_end = false;
-
-                        // Process each child of AND
-                        for child in logic_expr.get_children() {
-                            let child_ranges = Self::analyze_predicate_ranges(child);
-                            for (child_start, child_start_incl, child_end, child_end_incl) in
-                                child_ranges
-                            {
-                                // Update start bound if more restrictive
-                                if let Some(value) = child_start {
-                                    match &start_value {
-                                        None => {
-                                            start_value = Some(value);
-                                            include_start = child_start_incl;
-                                        },
-                                        Some(current) if value > *current => {
-                                            start_value = Some(value);
-                                            include_start = child_start_incl;
-                                        },
-                                        _ => {},
-                                    }
-                                }
-
-                                // Update end bound if more restrictive
-                                if let Some(value) = child_end {
-                                    match &end_value {
-                                        None => {
-                                            end_value = Some(value);
-                                            include_end = child_end_incl;
-                                        },
-                                        Some(current) if value < *current => {
-                                            end_value = Some(value);
-                                            include_end = child_end_incl;
-                                        },
-                                        _ => {},
-                                    }
-                                }
-                            }
-                        }
-                        ranges.push((start_value, include_start, end_value, include_end));
-                    },
-                    LogicType::Or => {
-                        // For OR, collect all ranges and union them
-                        for child in logic_expr.get_children() {
-                            ranges.extend(Self::analyze_predicate_ranges(child));
-                        }
-                    },
-                    LogicType::Not => {
-                        // For NOT operations on comparisons, we need to invert the bounds
-                        if let Some(child) = logic_expr.get_children().first() {
-                            match child.as_ref() {
-                                Expression::Comparison(comp_expr) => {
-                                    if let Ok(value) = comp_expr.get_right().evaluate(
-                                        &Tuple::new(&[], &Schema::new(vec![]), RID::new(0, 0)),
-                                        &Schema::new(vec![]),
-                                    ) {
-                                        match comp_expr.get_comp_type() {
-                                            ComparisonType::Equal => {
-                                                // NOT (x = value) -> x < value OR x > value
-                                                // This requires full scan as it creates a disjoint range
-                                                Vec::new()
-                                            },
-                                            ComparisonType::GreaterThan => {
-                                                // NOT (x > value) -> x <= value
-                                                vec![(None, false, Some(value), true)]
-                                            },
-                                            ComparisonType::GreaterThanOrEqual => {
-                                                // NOT (x >= value) -> x < value
-                                                vec![(None, false, Some(value), false)]
-                                            },
-                                            ComparisonType::LessThan => {
-                                                // NOT (x < value) -> x >= value
-                                                vec![(Some(value), true, None, false)]
-                                            },
-                                            ComparisonType::LessThanOrEqual => {
-                                                // NOT (x <= value) -> x > value
-                                                vec![(Some(value), false, None, false)]
-                                            },
-                                            ComparisonType::NotEqual => {
-                                                // NOT (x != value) -> x = value
-                                                vec![(Some(value.clone()), true, Some(value), true)]
-                                            },
-                                            ComparisonType::IsNotNull => {
-                                                // NOT (IS NOT NULL) -> IS NULL
-                                                // This requires special handling at runtime
-                                                Vec::new()
-                                            },
-                                        }
-                                    } else {
-                                        Vec::new()
-                                    }
-                                },
-                                _ => Vec::new(), // NOT on non-comparison expressions
-                            }
-                        } else {
-                            Vec::new()
-                        };
-                    },
+                    LogicType::And => Self::intersect(left, right),
+                    // A branch that is unbounded leaves the whole predicate unbounded
+                    LogicType::Or => (
+                        left.0.zip(right.0).map(|(a, b)| if b < a { b } else { a }),
+                        left.1.zip(right.1).map(|(a, b)| if b > a { b } else { a }),
+                    ),
+                    LogicType::Not => (None, None),
                 }
-                ranges
             },
             Expression::Comparison(comp_expr) => {
-                if let Ok(value) = comp_expr.get_right().evaluate(
-                    &Tuple::new(&[], &Schema::new(vec![]), RID::new(0, 0)),
-                    &Schema::new(vec![]),
-                ) {
-                    match comp_expr.get_comp_type() {
-                        ComparisonType::Equal => {
-                            // For equality, use same value for both bounds, inclusive
-                            vec![(Some(value.clone()), true, Some(value), true)]
-                        },
-                        ComparisonType::GreaterThan => {
-                            // x > value
-                            vec![(Some(value), false, None, false)]
-                        },
-                        ComparisonType::GreaterThanOrEqual => {
-                            // x >= value
-                            vec![(Some(value), true, None, false)]
-                        },
-                        ComparisonType::LessThan => {
-                            // x < value
-                            vec![(None, false, Some(value), false)]
-                        },
-                        ComparisonType::LessThanOrEqual => {
-                            // x <= value
-                            vec![(None, false, Some(value), true)]
-                        },
-                        ComparisonType::NotEqual => {
-                            // Full scan for not equal
-                            Vec::new()
-                        },
-                        ComparisonType::IsNotNull => {
-                            // For IS NOT NULL, scan all non-null values
-                            // This effectively means no bounds, as we'll filter nulls later
-                            Vec::new()
-                        },
-                    }
-                } else {
-                    Vec::new()
+                let (Expression::ColumnRef(column), Expression::Constant(constant)) = (
+                    comp_expr.get_left().as_ref(),
+                    comp_expr.get_right().as_ref(),
+                ) else {
+                    return (None, None);
+                };
+                let value = constant.get_value().clone();
+                if column.get_column_index() != key_attr
+                    || value.is_null()
+                    || value.get_type_id() != key_type
+                {
+                    return (None, None);
+                }
+                match comp_expr.get_comp_type() {
+                    ComparisonType::Equal => (Some(value.clone()), Some(value)),
+                    ComparisonType::GreaterThan | ComparisonType::GreaterThanOrEqual => {
+                        (Some(value), None)
+                    },
+                    ComparisonType::LessThan | ComparisonType::LessThanOrEqual => {
+                        (None, Some(value))
+                    },
+                    ComparisonType::NotEqual | ComparisonType::IsNotNull => (None, None),
                 }
             },
-            _ => Vec::new(),
+            _ => (None, None),
         }
     }
 
-    /// Computes the final index scan bounds from all predicates.
-    ///
-    /// Analyzes all predicate keys, collects their ranges, and computes
-    /// the widest range that covers all predicates (for OR semantics)
-    /// or the narrowest range (for AND semantics within each predicate).
+    /// The bounds of keys within both of the given bounds.
+    fn intersect(
+        (start, end): (Option<Value>, Option<Value>),
+        (other_start, other_end): (Option<Value>, Option<Value>),
+    ) -> (Option<Value>, Option<Value>) {
+        (
+            match (start, other_start) {
+                (Some(a), Some(b)) => Some(if b > a { b } else { a }),
+                (a, b) => a.or(b),
+            },
+            match (end, other_end) {
+                (Some(a), Some(b)) => Some(if b < a { b } else { a }),
+                (a, b) => a.or(b),
+            },
+        )
+    }
+
+    /// Computes the index scan bounds from all predicates, every one of which has to hold.
     ///
     /// # Arguments
     ///
-    /// * `index_info` - Index metadata containing the key schema.
+    /// * `index_info` - Index metadata containing the key column.
     ///
     /// # Returns
     ///
     /// A tuple of:
     /// - `Option<Arc<Tuple>>`: Start key tuple (None = scan from beginning)
     /// - `Option<Arc<Tuple>>`: End key tuple (None = scan to end)
-    ///
-    /// # Algorithm
-    ///
-    /// 1. Collect ranges from all predicate expressions
-    /// 2. Take the minimum start value (widest coverage)
-    /// 3. Take the maximum end value (widest coverage)
-    /// 4. Create key tuples using the index's key schema
     fn analyze_bounds(&self, index_info: &IndexInfo) -> (Option<Arc<Tuple>>, Option<Arc<Tuple>>) {
-        let predicate_keys = self.plan.get_predicate_keys();
-        let mut all_ranges = Vec::new();
-
-        for pred in predicate_keys {
-            all_ranges.extend(Self::analyze_predicate_ranges(pred.as_ref()));
-        }
-
-        // If we have no ranges to analyze, return None for full scan
-        if all_ranges.is_empty() {
+        // The index takes its key from the column of a row of the table
+        let schema = self.plan.get_output_schema();
+        let Some(&key_attr) = index_info.get_key_attrs().first() else {
             return (None, None);
-        }
-
-        // Find the widest range that covers all predicates
-        let mut final_start = None;
-        let mut final_end = None;
-        let mut final_start_incl = false;
-        let mut final_end_incl = false;
-
-        for (start, start_incl, end, end_incl) in all_ranges {
-            // Take minimum start value
-            match (&final_start, start) {
-                (None, Some(value)) => {
-                    final_start = Some(value);
-                    final_start_incl = start_incl;
-                },
-                (Some(current), Some(value)) if value < *current => {
-                    final_start = Some(value);
-                    final_start_incl = start_incl;
-                },
-                _ => {},
-            }
-
-            // Take maximum end value
-            match (&final_end, end) {
-                (None, Some(value)) => {
-                    final_end = Some(value);
-                    final_end_incl = end_incl;
-                },
-                (Some(current), Some(value)) if value > *current => {
-                    final_end = Some(value);
-                    final_end_incl = end_incl;
-                },
-                _ => {},
-            }
-        }
-
-        // Create tuples using the index's key schema
-        let key_schema = index_info.get_key_schema().clone();
-
-        let start_tuple = final_start
-            .clone()
-            .map(|v| Arc::new(Tuple::new(&[v], &key_schema, RID::new(0, 0))));
-
-        let end_tuple = final_end
-            .clone()
-            .map(|v| Arc::new(Tuple::new(&[v], &key_schema, RID::new(0, 0))));
-
-        debug!(
-            "Scan bounds: start={:?} (incl={}), end={:?} (incl={})",
-            final_start, final_start_incl, final_end, final_end_incl
-        );
-
-        (start_tuple, end_tuple)
+        };
+        let Some(key_column) = schema.get_column(key_attr) else {
+            return (None, None);
+        };
+        let key_type = key_column.get_type();
+
+        let (start, end) = self
+            .plan
+            .get_predicate_keys()
+            .iter()
+            .map(|pred| Self::key_bounds(pred.as_ref(), key_attr, key_type))
+            .fold((None, None), Self::intersect);
+        debug!("Index scan bounds: {:?} to {:?}", start, end);
+
+        let key_tuple = |key: Value| {
+            let mut values = vec![Value::new(Val::Null); schema.get_column_count() as usize];
+            values[key_attr] = key;
+            Arc::new(Tuple::new(&values, schema, RID::new(0, 0)))
+        };
+        (start.map(key_tuple), end.map(key_tuple))
     }
 }
 
@@ -544,7 +396,7 @@ impl AbstractExecutor for IndexScanExecutor {
         // Get iterator reference
         let iter = match self.iterator.as_mut() {
             Some(i) => i,
-            None => return Ok(None),
+            None => return Err(DBError::Execution("Index not found".to_string())),
         };
 
         // Keep trying until we find a valid tuple or reach the end.
@@ -561,6 +413,17 @@ impl AbstractExecutor for IndexScanExecutor {
             };
 
             debug!("Found RID {:?} in index", rid);
+            if !self.seen.insert(rid) {
+                continue;
+            }
+
+            // With the page in memory, a tuple that cannot be had is one this scan does not
+            // see, and not one whose page cannot be read
+            let _page_guard = self
+                .table_heap
+                .get_table_heap()
+                .get_page(rid.get_page_id())
+                .map_err(|e| DBError::Execution(format!("Index scan failed: {e}")))?;
 
             // Use RID to fetch tuple from table heap with transaction context
             match self.table_heap.get_tuple(rid, txn_ctx.clone()) {
@@ -574,19 +437,20 @@ impl AbstractExecutor for IndexScanExecutor {
                     // Additional check against predicates
                     let mut predicates_match = true;
                     for predicate in predicate_keys {
-                        if let Ok(result) = predicate.evaluate(&tuple, &output_schema) {
-                            match result.get_val() {
-                                Val::Boolean(b) => {
-                                    if !b {
-                                        predicates_match = false;
-                                        break;
-                                    }
-                                },
-                                _ => {
+                        let result = predicate
+                            .evaluate(&tuple, &output_schema)
+                            .map_err(|e| DBError::Execution(e.to_string()))?;
+                        match result.get_val() {
+                            Val::Boolean(b) => {
+                                if !b {
                                     predicates_match = false;
                                     break;
-                                },
-                            }
+                                }
+                            },
+                            _ => {
+                                predicates_match = false;
+                                break;
+                            },
                         }
                     }
 
diff --git a/src/storage/index/b_plus_tree.rs b/src/storage/index/b_plus_tree.rs
index d7158dd..af2bfe0 100644
--- a/src/storage/index/b_plus_tree.rs
+++ b/src/storage/index/b_plus_tree.rs
@@ -315,7 +315,7 @@ impl BPlusTree {
 
     /// Whether the pair is in the tree. Entries with the same key may span several leaves.
     fn contains(&self, key: &Value, rid: RID) -> bool {
-        self.scan_keys(key, key, true)
+        self.scan_keys(Some(key), Some(key), true)
             .iter()
             .any(|(_, entry_rid)| *entry_rid == rid)
     }
@@ -326,15 +326,25 @@ impl BPlusTree {
         end_key: &Tuple,
         include_end: bool,
     ) -> Result<Vec<(Value, RID)>, String> {
-        let start_key = self.extract_key(start_key);
-        let end_key = self.extract_key(end_key);
-        Ok(self.scan_keys(&start_key, &end_key, include_end))
+        Ok(self.scan_bounds(Some(start_key), Some(end_key), include_end))
+    }
+
+    /// Lists the entries from `start_key` to `end_key`, either of which may be left open.
+    pub fn scan_bounds(
+        &self,
+        start_key: Option<&Tuple>,
+        end_key: Option<&Tuple>,
+        include_end: bool,
+    ) -> Vec<(Value, RID)> {
+        let start_key = start_key.map(|key| self.extract_key(key));
+        let end_key = end_key.map(|key| self.extract_key(key));
+        self.scan_keys(start_key.as_ref(), end_key.as_ref(), include_end)
     }
 
     fn scan_keys(
         &self,
-        start_key: &Value,
-        end_key: &Value,
+        start_key: Option<&Value>,
+        end_key: Option<&Value>,
         include_end: bool,
     ) -> Vec<(Value, RID)> {
         debug!("Starting range scan from {:?} to {:?}", start_key, end_key);
@@ -348,11 +358,16 @@ impl BPlusTree {
             match node.node_type {
                 NodeType::Internal => {
                     debug!("At internal node with keys: {:?}", node.keys);
-                    let child_idx = node
-                        .keys
-                        .iter()
-                        .position(|k| self.compare_keys_ordering(k, start_key) != Ordering::Less)
-                        .unwrap_or(node.keys.len());
+                    let child_idx = match start_key {
+                        Some(start_key) => node
+                            .keys
+                            .iter()
+                            .position(|k| {
+                                self.compare_keys_ordering(k, start_key) != Ordering::Less
+                            })
+                            .unwrap_or(node.keys.len()),
+                        None => 0,
+                    };
                     debug!("Selected child index: {}", child_idx);
                     let next_node = Arc::clone(&node.children[child_idx]);
                     drop(node);
@@ -373,13 +388,17 @@ impl BPlusTree {
 
             // Add values from current leaf that are within range
             for (key, rid) in node.keys.iter().zip(node.values.iter()) {
-                if self.compare_keys_ordering(key, start_key) == Ordering::Less {
+                if let Some(start_key) = start_key
+                    && self.compare_keys_ordering(key, start_key) == Ordering::Less
+                {
                     continue;
                 }
-                let to_end = self.compare_keys_ordering(key, end_key);
-                if to_end == Ordering::Greater || (!include_end && to_end == Ordering::Equal) {
-                    debug!("Found key beyond range, ending scan");
-                    return entries;
+                if let Some(end_key) = end_key {
+                    let to_end = self.compare_keys_ordering(key, end_key);
+                    if to_end == Ordering::Greater || (!include_end && to_end == Ordering::Equal) {
+                        debug!("Found key beyond range, ending scan");
+                        return entries;
+                    }
                 }
                 debug!("Found entry in range - Key: {:?}, RID: {:?}", key, rid);
                 entries.push((key.clone(), *rid));
diff --git a/src/storage/index/index_iterator_mem.rs b/src/storage/index/index_iterator_mem.rs
index f54349c..624243e 100644
--- a/src/storage/index/index_iterator_mem.rs
+++ b/src/storage/index/index_iterator_mem.rs
@@ -42,9 +42,8 @@
 //! - **Full Scan**: Iterate all entries in the index (both keys = `None`)
 //!
 //! ### Batched Fetching
-//! Results are fetched in batches from the underlying B+ tree, reducing
-//! lock contention and improving cache locality. The `last_key` field
-//! tracks progress for seamless continuation across batches.
+//! Everything in the range is fetched from the underlying B+ tree at once, so
+//! the tree is not locked while the results are read.
 //!
 //! ### Error Handling
 //! - **Fallible API**: `try_next()` and `try_seek()` return `Result<Option<RID>, String>`
@@ -114,7 +113,6 @@
 //!
 //! ## Limitations
 //!
-//! - Both `start_key` and `end_key` must be `Some` or both `None`
 //! - `DoubleEndedIterator` only works within the current batch
 //! - Single-column index keys only (per B+ tree limitation)
 
@@ -137,7 +135,6 @@ pub struct IndexIterator {
     start_key: Option<Arc<Tuple>>,
     end_key: Option<Arc<Tuple>>,
     exhausted: bool,
-    last_key: Option<Value>, // Track the last key we've processed
     last_error: Option<String>,
 }
 
@@ -155,7 +152,6 @@ impl IndexIterator {
             start_key,
             end_key,
             exhausted: false,
-            last_key: None,
             last_error: None,
         };
 
@@ -195,103 +191,22 @@ impl IndexIterator {
         self.current_batch.clear();
         self.position = 0;
 
+        // A scan lists everything in its range, so there is no second batch
+        self.exhausted = true;
         let tree_guard = self.tree.read();
         let result = match (&self.start_key, &self.end_key) {
-            // Full scan case
-            (None, None) => {
-                if self.last_key.is_some() {
-                    debug!("Already completed full scan");
-                    self.exhausted = true;
-                    return Ok(false);
-                }
-                debug!("Starting fresh full scan");
-                tree_guard.scan_full()
-            },
-
-            // Range scan case
-            (Some(start), Some(end)) => {
-                let scan_start = if let Some(last_key) = &self.last_key {
-                    let schema = start.get_schema();
-                    let mut values = start.get_values();
-
-                    // Continue from the last processed key.
-                    //
-                    // NOTE: The B+ tree currently only supports a single key column.
-                    // We still validate the attribute index against the tuple to avoid panics.
-                    // Keep the metadata Arc alive while borrowing key attrs.
-                    let metadata = tree_guard.get_metadata();
-                    let key_attr = *metadata
-                        .get_key_attrs()
-                        .first()
-                        .expect("B+ tree metadata must have at least one key attribute");
-
-                    if let Err(e) = start.keys_from_tuple_checked(&[key_attr]) {
-                        let msg = format!(
-                            "invalid start_key for index range scan: missing key_attr {} (tuple cols={}): {}",
-                            key_attr,
-                            start.get_column_count(),
-                            e
-                        );
-                        debug!("{msg}");
-                        self.exhausted = true;
-                        self.last_error = Some(msg.clone());
-                        return Err(msg);
-                    }
-                    if key_attr >= values.len() {
-                        let msg = format!(
-                            "invalid start_key for index range scan: key_attr {} out of bounds (values len={})",
-                            key_attr,
-                            values.len()
-                        );
-                        debug!("{msg}");
-                        self.exhausted = true;
-                        self.last_error = Some(msg.clone());
-                        return Err(msg);
-                    }
-                    values[key_attr] = last_key.clone();
-
-                    // Create a new tuple with the modified values
-                    let new_start = Arc::new(Tuple::new(&values, &schema, RID::new(0, 0)));
-                    debug!("Continuing range scan from key: {:?}", new_start);
-                    new_start
-                } else {
-                    debug!("Starting fresh range scan from: {:?}", start);
-                    start.clone()
-                };
-
-                tree_guard.scan_range(&scan_start, end, self.last_key.is_none())
-            },
-            _ => {
-                let msg =
-                    "invalid scan range configuration: start_key/end_key must both be set or both be None"
-                        .to_string();
-                debug!("{msg}");
-                self.exhausted = true;
-                self.last_error = Some(msg.clone());
-                Err(msg)
-            },
+            (None, None) => tree_guard.scan_full(),
+            (start, end) => Ok(tree_guard.scan_bounds(start.as_deref(), end.as_deref(), true)),
         };
 
         match result {
             Ok(new_results) => {
-                if new_results.is_empty() {
-                    debug!("No more results available");
-                    self.exhausted = true;
-                    return Ok(false);
-                }
-
-                // Update last_key for next batch
-                if let Some((key, _)) = new_results.last() {
-                    self.last_key = Some(key.clone());
-                }
-
                 self.current_batch = new_results;
                 debug!("Fetched {} results", self.current_batch.len());
-                Ok(true)
+                Ok(!self.current_batch.is_empty())
             },
             Err(e) => {
                 debug!("Error fetching batch: {:?}", e);
-                self.exhausted = true;
                 self.last_error = Some(e.clone());
                 Err(e)
             },
@@ -312,7 +227,7 @@ impl IndexIterator {
     pub fn try_next(&mut self) -> Result<Option<RID>, String> {
         if self.is_end() {
             debug!("Iterator has reached the end");
-            return Ok(None);
+            return self.take_error().map_or(Ok(None), Err);
         }
 
         // If we've exhausted current batch, try to fetch next batch
@@ -355,7 +270,7 @@ impl Iterator for IndexIterator {
 // Add support for reverse iteration
 impl DoubleEndedIterator for IndexIterator {
     fn next_back(&mut self) -> Option<Self::Item> {
-        if self.current_batch.is_empty() {
+        if self.position >= self.current_batch.len() {
             return None;
         }
 
@@ -379,16 +294,14 @@ impl IndexIterator {
         // Reset iterator state
         self.current_batch.clear();
         self.position = 0;
-        self.exhausted = false;
+        self.exhausted = true;
         self.last_error = None;
 
         // Perform new scan from seek key in its own scope
         {
             let tree_guard = self.tree.read();
-            if let Some(end) = &self.end_key {
-                let mut results = tree_guard.scan_range(seek_key, end, true)?;
-                self.current_batch.append(results.as_mut());
-            }
+            self.current_batch =
+                tree_guard.scan_bounds(Some(seek_key), self.end_key.as_deref(), true);
         } // tree_guard is dropped here
 
         // Now we can safely call next()
@@ -397,12 +310,7 @@ impl IndexIterator {
 
     /// Get an estimate of remaining items
     pub fn estimate_remaining(&self) -> usize {
-        if self.exhausted {
-            0
-        } else {
-            // Rough estimate based on current batch
-            self.current_batch.len() - self.position
-        }
+        self.current_batch.len() - self.position
     }
 }
 
-- 
2.43.0


From 05205d07abdc2311162553b0d51c9da87446b382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:49 +0000
Subject: [PATCH 49/49] fix: rows written after an index was made were missing
 from it and from every scan through it

---
 src/catalog/catalog_impl.rs                   | 12 +++
 src/catalog/database.rs                       | 90 ++++++++++---------
 .../execution/executors/insert_executor.rs    | 57 +++++++-----
 .../execution/executors/update_executor.rs    |  7 +-
 src/sql/optimizer/optimizer_impl.rs           |  3 +-
 5 files changed, 102 insertions(+), 67 deletions(-)

diff --git a/src/catalog/catalog_impl.rs b/src/catalog/catalog_impl.rs
index cd891f5..04d708b 100644
--- a/src/catalog/catalog_impl.rs
+++ b/src/catalog/catalog_impl.rs
@@ -198,6 +198,7 @@ use crate::catalog::system_catalog::{
     SYS_TABLES_OID, SystemCatalogSchemas, SystemCatalogTables, TableCatalogRow,
 };
 use crate::common::config::{IndexOidT, TableOidT};
+use crate::common::rid::RID;
 use crate::concurrency::transaction_manager::TransactionManager;
 use crate::storage::index::b_plus_tree::BPlusTree;
 use crate::storage::index::{IndexInfo, IndexType};
@@ -577,6 +578,17 @@ impl Catalog {
             .get_index_by_index_oid(index_oid)
     }
 
+    /// Adds a row to the indexes of its table in the current database.
+    ///
+    /// # Parameters
+    /// - `table_name`: The name of the table
+    /// - `rid`: Where the row is
+    pub fn index_row(&self, table_name: &str, rid: RID) -> Result<(), String> {
+        self.get_current_database()
+            .ok_or_else(|| "No current database".to_string())?
+            .index_row(table_name, rid)
+    }
+
     /// Adds an index to the current database's in-memory tracking.
     ///
     /// This is used internally after index creation to ensure the index
diff --git a/src/catalog/database.rs b/src/catalog/database.rs
index 02a05ce..17e265c 100644
--- a/src/catalog/database.rs
+++ b/src/catalog/database.rs
@@ -220,12 +220,14 @@ use crate::buffer::buffer_pool_manager_async::BufferPoolManager;
 use crate::catalog::column::Column;
 use crate::catalog::schema::Schema;
 use crate::catalog::system_catalog::SYS_COLUMNS_OID;
-use crate::common::config::{DataBaseOid, IndexOidT, TableOidT};
+use crate::common::config::{DataBaseOid, INVALID_PAGE_ID, IndexOidT, TableOidT};
+use crate::common::rid::RID;
 use crate::concurrency::transaction_manager::TransactionManager;
 use crate::storage::index::b_plus_tree::BPlusTree;
 use crate::storage::index::{IndexInfo, IndexType};
 use crate::storage::table::table_heap::{TableHeap, TableInfo};
 use crate::storage::table::transactional_table_heap::TransactionalTableHeap;
+use crate::types_db::value::Value;
 
 /// A static atomic counter for generating unique database IDs
 static NEXT_DATABASE_ID: AtomicU64 = AtomicU64::new(0);
@@ -633,6 +635,35 @@ impl Database {
         self.table_names.keys().cloned().collect()
     }
 
+    /// Adds a row to the indexes of its table, as every statement that writes a row has to.
+    pub fn index_row(&self, table_name: &str, rid: RID) -> Result<(), String> {
+        let Some(table_heap) = self.get_table_heap(table_name) else {
+            return Err(format!("Table '{}' not found", table_name));
+        };
+        for (index_info, index) in self.indexes.values() {
+            if index_info.get_table_name() == table_name {
+                // The row as it is stored, with the values that were generated for it
+                let (_, tuple) = table_heap.get_tuple_internal(rid, true)?;
+                Self::add_index_entry(index, index_info, &tuple.get_values(), rid);
+            }
+        }
+        Ok(())
+    }
+
+    /// Adds the entry of a row to an index. Indexes on several columns hold no entries.
+    fn add_index_entry(
+        index: &Arc<RwLock<BPlusTree>>,
+        index_info: &IndexInfo,
+        values: &[Value],
+        rid: RID,
+    ) {
+        if let [key_attr] = index_info.get_key_attrs()[..]
+            && let Some(key) = values.get(key_attr)
+        {
+            index.write().insert(key.clone(), rid);
+        }
+    }
+
     /// Populates a newly created index with existing data from the table
     fn populate_index_with_existing_data(
         &self,
@@ -642,56 +673,29 @@ impl Database {
     ) -> Result<(), String> {
         use log::debug;
 
-        use crate::storage::table::table_iterator::TableScanIterator;
-
         debug!(
             "Populating index '{}' with existing table data",
             index_info.get_index_name()
         );
 
-        let key_attrs = index_info.get_key_attrs();
-
-        // Create a table scan iterator to scan through all tuples
-        let mut iterator = TableScanIterator::new(table_info.clone());
-
+        // Every row counts, whether or not a transaction that is yet to end has deleted it: the
+        // index scan finds out which rows it sees
+        let table_heap = table_info.get_table_heap();
+        let mut page_id = table_heap.get_first_page_id_raw();
         let mut entry_count = 0;
-
-        // Iterate through all tuples in the table
-        while let Some((_meta, tuple)) = iterator.next() {
-            let rid = iterator.get_rid();
-
-            // Extract key values for the index
-            let mut key_values = Vec::new();
-            let tuple_values = tuple.get_values();
-
-            for &col_idx in key_attrs {
-                if col_idx < tuple_values.len() {
-                    key_values.push(tuple_values[col_idx].clone());
+        while page_id != INVALID_PAGE_ID {
+            let page_guard = table_heap
+                .get_page(page_id)
+                .map_err(|e| format!("Table scan failed: {}", e))?;
+            let page = page_guard.read();
+            for slot in 0..page.get_num_tuples() {
+                let rid = RID::new(page_id, slot as u32);
+                if let Ok((_, tuple)) = page.get_tuple(&rid, true) {
+                    Self::add_index_entry(index, index_info, &tuple.get_values(), rid);
+                    entry_count += 1;
                 }
             }
-
-            // For single-column indexes, use the value directly
-            if key_values.len() == 1 {
-                let key_value = key_values[0].clone();
-
-                // Insert into B+ tree
-                let mut btree_write = index.write();
-                btree_write.insert(key_value, rid);
-                entry_count += 1;
-
-                debug!(
-                    "Inserted index entry for key: {:?}, RID: {:?}",
-                    key_values[0], rid
-                );
-            } else if key_values.len() > 1 {
-                // For composite keys, we would need to handle this differently
-                // For now, we'll skip composite keys
-                log::warn!("Composite key index population not yet implemented");
-            }
-        }
-
-        if let Some(e) = iterator.take_error() {
-            return Err(format!("Table scan failed: {}", e));
+            page_id = page.get_next_page_id();
         }
 
         debug!(
diff --git a/src/sql/execution/executors/insert_executor.rs b/src/sql/execution/executors/insert_executor.rs
index 05c03b7..80676bb 100644
--- a/src/sql/execution/executors/insert_executor.rs
+++ b/src/sql/execution/executors/insert_executor.rs
@@ -237,24 +237,31 @@ impl InsertExecutor {
     ) -> Result<usize, DBError> {
         debug!("Processing TRUE bulk insert of {} rows", values_batch.len());
 
-        // Use the new TRUE bulk insert method with batched operations
-        match transactional_table_heap.bulk_insert_tuples_from_values(
-            values_batch,
-            schema,
-            txn_context,
-        ) {
-            Ok(rids) => {
-                info!(
-                    "✓ TRUE bulk insert completed successfully: {} rows inserted",
-                    rids
-                );
-                Ok(rids)
-            },
-            Err(e) => {
-                error!("✗ TRUE bulk insert failed: {}", e);
-                Err(DBError::Execution(format!("Bulk insert failed: {}", e)))
-            },
+        for values in values_batch {
+            self.insert_row(
+                values.clone(),
+                schema,
+                transactional_table_heap,
+                txn_context.clone(),
+            )
+            .map_err(|e| DBError::Execution(format!("Bulk insert failed: {}", e)))?;
         }
+        Ok(values_batch.len())
+    }
+
+    /// Inserts one row and adds it to the indexes of the table.
+    fn insert_row(
+        &self,
+        values: Vec<crate::types_db::value::Value>,
+        schema: &Schema,
+        transactional_table_heap: &TransactionalTableHeap,
+        txn_context: Arc<crate::sql::execution::transaction_context::TransactionContext>,
+    ) -> Result<RID, String> {
+        let rid = transactional_table_heap.insert_tuple_from_values(values, schema, txn_context)?;
+        let binding = self.context.read();
+        let catalog_guard = binding.get_catalog().read();
+        catalog_guard.index_row(self.plan.get_table_name(), rid)?;
+        Ok(rid)
     }
 
     /// Validates all foreign key constraints for a row before insertion.
@@ -556,9 +563,13 @@ impl AbstractExecutor for InsertExecutor {
                         &schema,
                     )
                     .map_err(insert_error)?;
-                    transactional_table_heap
-                        .insert_tuple_from_values(values, &schema, txn_context.clone())
-                        .map_err(insert_error)?;
+                    self.insert_row(
+                        values,
+                        &schema,
+                        &transactional_table_heap,
+                        txn_context.clone(),
+                    )
+                    .map_err(insert_error)?;
                     insert_count += 1;
                 }
             } else if values_to_insert.len() >= BATCH_INSERT_THRESHOLD {
@@ -602,9 +613,10 @@ impl AbstractExecutor for InsertExecutor {
                 } else {
                     // Single row - fall back to individual insert
                     for values in values_to_insert {
-                        match transactional_table_heap.insert_tuple_from_values(
+                        match self.insert_row(
                             values.clone(),
                             &schema,
+                            &transactional_table_heap,
                             txn_context.clone(),
                         ) {
                             Ok(_rid) => {
@@ -659,9 +671,10 @@ impl AbstractExecutor for InsertExecutor {
                         )));
                     }
 
-                    match transactional_table_heap.insert_tuple_from_values(
+                    match self.insert_row(
                         mapped_values,
                         &schema,
+                        &transactional_table_heap,
                         txn_context.clone(),
                     ) {
                         Ok(_rid) => {
diff --git a/src/sql/execution/executors/update_executor.rs b/src/sql/execution/executors/update_executor.rs
index 5cbeb77..5d4c288 100644
--- a/src/sql/execution/executors/update_executor.rs
+++ b/src/sql/execution/executors/update_executor.rs
@@ -162,7 +162,12 @@ impl AbstractExecutor for UpdateExecutor {
                     rid,
                     txn_context.clone(),
                 ) {
-                    Ok(_) => {
+                    Ok(new_rid) => {
+                        let binding = self.context.read();
+                        let catalog_guard = binding.get_catalog().read();
+                        catalog_guard
+                            .index_row(self.plan.get_table_name(), new_rid)
+                            .map_err(|e| DBError::Execution(format!("Update failed: {}", e)))?;
                         update_count += 1;
                         trace!(
                             "Successfully updated tuple #{} with RID {:?}",
diff --git a/src/sql/optimizer/optimizer_impl.rs b/src/sql/optimizer/optimizer_impl.rs
index aad5634..397dbec 100644
--- a/src/sql/optimizer/optimizer_impl.rs
+++ b/src/sql/optimizer/optimizer_impl.rs
@@ -685,7 +685,8 @@ impl Optimizer {
                     for index_info in indexes {
                         let key_attrs = index_info.get_key_attrs();
 
-                        if !key_attrs.is_empty()
+                        // An index on several columns holds no entries
+                        if key_attrs.len() == 1
                             && let Some(table_info) = catalog.get_table(table_name)
                         {
                             let table_schema = table_info.get_table_schema();
-- 
2.43.0

