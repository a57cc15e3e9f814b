From 417fa516d8ff1897d38c0844035dacef7d314b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:16 +0000
Subject: [PATCH 01/34] fix: parse_timezone no longer panics on empty or
 non-ASCII input

---
 xsd-types/src/types/utils.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xsd-types/src/types/utils.rs b/xsd-types/src/types/utils.rs
index bb4dc88..7f3659f 100644
--- a/xsd-types/src/types/utils.rs
+++ b/xsd-types/src/types/utils.rs
@@ -6,7 +6,8 @@ pub fn parse_timezone(s: &str) -> Result<FixedOffset, String> {
         return Ok(FixedOffset::east_opt(0).unwrap());
     }
 
-    let tokens: Vec<&str> = s[1..].split(':').collect();
+    let tokens: Vec<&str> =
+        s.get(1..).ok_or_else(|| "bad timezone format".to_string())?.split(':').collect();
     if tokens.len() != 2 || tokens[0].len() != 2 || tokens[1].len() != 2 {
         return Err("bad timezone format".to_string());
     }
-- 
2.43.0


From bf8be84009b1361d16357d307fd7f1018492b7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:48 +0000
Subject: [PATCH 02/34] fix: gDay, gMonth and gMonthDay parsing no longer
 panics inside a multi-byte character

---
 xsd-types/src/types/gday.rs      | 2 +-
 xsd-types/src/types/gmonth.rs    | 2 +-
 xsd-types/src/types/gmonthday.rs | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/xsd-types/src/types/gday.rs b/xsd-types/src/types/gday.rs
index 74fcfe4..093e038 100644
--- a/xsd-types/src/types/gday.rs
+++ b/xsd-types/src/types/gday.rs
@@ -31,7 +31,7 @@ impl FromStr for GDay {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         fn parse_value(s: &str) -> Result<i32, String> {
-            if s.len() != 5 || &s[0..3] != "---" {
+            if s.len() != 5 || !s.starts_with("---") {
                 return Err("bad gDay format".to_string());
             }
             let token = &s[3..5];
diff --git a/xsd-types/src/types/gmonth.rs b/xsd-types/src/types/gmonth.rs
index 2ce2ca3..549fdd2 100644
--- a/xsd-types/src/types/gmonth.rs
+++ b/xsd-types/src/types/gmonth.rs
@@ -31,7 +31,7 @@ impl FromStr for GMonth {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         fn parse_value(s: &str) -> Result<i32, String> {
-            if s.len() != 4 || &s[0..2] != "--" {
+            if s.len() != 4 || !s.starts_with("--") {
                 return Err("bad gMonth format".to_string());
             }
             let token = &s[2..4];
diff --git a/xsd-types/src/types/gmonthday.rs b/xsd-types/src/types/gmonthday.rs
index 183c96a..5b51f94 100644
--- a/xsd-types/src/types/gmonthday.rs
+++ b/xsd-types/src/types/gmonthday.rs
@@ -50,7 +50,7 @@ impl FromStr for GMonthDay {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         fn parse_value(s: &str) -> Result<(i32, i32), String> {
-            if s.len() != 7 || &s[0..2] != "--" || &s[4..5] != "-" {
+            if s.len() != 7 || !s.starts_with("--") || s.get(4..5) != Some("-") {
                 return Err("bad gMonthDay format".to_string());
             }
 
-- 
2.43.0


From f6cfe8f34b1f2acba6160e9fda170a5684152731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:46 +0000
Subject: [PATCH 03/34] fix: printing gYear/gYearMonth with the smallest i32
 year no longer overflows

---
 xsd-types/src/types/gyear.rs      | 4 ++--
 xsd-types/src/types/gyearmonth.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/xsd-types/src/types/gyear.rs b/xsd-types/src/types/gyear.rs
index 7943e8b..a9572d7 100644
--- a/xsd-types/src/types/gyear.rs
+++ b/xsd-types/src/types/gyear.rs
@@ -88,8 +88,8 @@ impl fmt::Display for GYear {
             }
         } else {
             match self.timezone {
-                Some(tz) => write!(f, "-{:04}{}", -self.value, tz),
-                None => write!(f, "-{:04}", -self.value),
+                Some(tz) => write!(f, "-{:04}{}", self.value.unsigned_abs(), tz),
+                None => write!(f, "-{:04}", self.value.unsigned_abs()),
             }
         }
     }
diff --git a/xsd-types/src/types/gyearmonth.rs b/xsd-types/src/types/gyearmonth.rs
index 38a3a09..efc05fa 100644
--- a/xsd-types/src/types/gyearmonth.rs
+++ b/xsd-types/src/types/gyearmonth.rs
@@ -117,8 +117,8 @@ impl fmt::Display for GYearMonth {
             }
         } else {
             match self.timezone {
-                Some(tz) => write!(f, "-{:04}-{:02}{}", -self.year, self.month, tz),
-                None => write!(f, "-{:04}-{:02}", -self.year, self.month),
+                Some(tz) => write!(f, "-{:04}-{:02}{}", self.year.unsigned_abs(), self.month, tz),
+                None => write!(f, "-{:04}-{:02}", self.year.unsigned_abs(), self.month),
             }
         }
     }
-- 
2.43.0


From 932459b3da53a8183fdc2d462d65fbde7cf51e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:01 +0000
Subject: [PATCH 04/34] fix: integer types reject '_' separators,
 nonNegativeInteger accepts -0

---
 xsd-types/src/types/integer.rs              | 4 +++-
 xsd-types/src/types/negative_integer.rs     | 4 +++-
 xsd-types/src/types/non_negative_integer.rs | 6 +++++-
 xsd-types/src/types/non_positive_integer.rs | 4 +++-
 xsd-types/src/types/positive_integer.rs     | 5 ++++-
 xsd-types/src/types/utils.rs                | 9 +++++++++
 6 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/xsd-types/src/types/integer.rs b/xsd-types/src/types/integer.rs
index 610189c..ad89f8d 100644
--- a/xsd-types/src/types/integer.rs
+++ b/xsd-types/src/types/integer.rs
@@ -3,6 +3,8 @@ use std::{fmt, str::FromStr};
 use num_bigint::{BigInt, ParseBigIntError, ToBigInt};
 use xsd_macro_utils::UtilsDefaultSerde;
 
+use crate::types::utils::parse_bigint;
+
 // https://www.w3.org/TR/xmlschema-2/#integer
 #[derive(Default, Clone, PartialEq, PartialOrd, Debug, UtilsDefaultSerde)]
 pub struct Integer(pub BigInt);
@@ -23,7 +25,7 @@ impl FromStr for Integer {
     type Err = ParseBigIntError;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        Ok(Integer(BigInt::from_str(s)?))
+        Ok(Integer(parse_bigint(s)?))
     }
 }
 
diff --git a/xsd-types/src/types/negative_integer.rs b/xsd-types/src/types/negative_integer.rs
index 009a293..a04da5e 100644
--- a/xsd-types/src/types/negative_integer.rs
+++ b/xsd-types/src/types/negative_integer.rs
@@ -3,6 +3,8 @@ use std::{fmt, str::FromStr};
 use num_bigint::{BigInt, ToBigInt};
 use xsd_macro_utils::UtilsDefaultSerde;
 
+use crate::types::utils::parse_bigint;
+
 // https://www.w3.org/TR/xmlschema-2/#negativeInteger
 #[derive(Default, Clone, PartialEq, PartialOrd, Debug, UtilsDefaultSerde)]
 pub struct NegativeInteger(pub BigInt);
@@ -23,7 +25,7 @@ impl FromStr for NegativeInteger {
     type Err = String;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        let value = BigInt::from_str(s).map_err(|e| e.to_string())?;
+        let value = parse_bigint(s).map_err(|e| e.to_string())?;
         if value >= 0.to_bigint().unwrap() {
             Err("Bad value for NegativeInteger".to_string())
         } else {
diff --git a/xsd-types/src/types/non_negative_integer.rs b/xsd-types/src/types/non_negative_integer.rs
index 044781a..e1d2047 100644
--- a/xsd-types/src/types/non_negative_integer.rs
+++ b/xsd-types/src/types/non_negative_integer.rs
@@ -3,6 +3,8 @@ use std::{fmt, str::FromStr};
 use num_bigint::{BigUint, ToBigUint};
 use xsd_macro_utils::UtilsDefaultSerde;
 
+use crate::types::utils::parse_bigint;
+
 // https://www.w3.org/TR/xmlschema-2/#nonNegativeInteger
 #[derive(Default, Clone, PartialEq, PartialOrd, Debug, UtilsDefaultSerde)]
 pub struct NonNegativeInteger(pub BigUint);
@@ -23,7 +25,9 @@ impl FromStr for NonNegativeInteger {
     type Err = String;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        let value = BigUint::from_str(s).map_err(|e| e.to_string())?;
+        let value = parse_bigint(s).map_err(|e| e.to_string())?;
+        let value =
+            value.to_biguint().ok_or_else(|| "Bad value for NonNegativeInteger".to_string())?;
         if value < 0.to_biguint().unwrap() {
             Err("Bad value for NonNegativeInteger".to_string())
         } else {
diff --git a/xsd-types/src/types/non_positive_integer.rs b/xsd-types/src/types/non_positive_integer.rs
index b0565a6..9546af9 100644
--- a/xsd-types/src/types/non_positive_integer.rs
+++ b/xsd-types/src/types/non_positive_integer.rs
@@ -3,6 +3,8 @@ use std::{fmt, str::FromStr};
 use num_bigint::{BigInt, ToBigInt};
 use xsd_macro_utils::UtilsDefaultSerde;
 
+use crate::types::utils::parse_bigint;
+
 // https://www.w3.org/TR/xmlschema-2/#nonPositiveInteger
 #[derive(Default, Clone, PartialEq, PartialOrd, Debug, UtilsDefaultSerde)]
 pub struct NonPositiveInteger(pub BigInt);
@@ -23,7 +25,7 @@ impl FromStr for NonPositiveInteger {
     type Err = String;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        let value = BigInt::from_str(s).map_err(|e| e.to_string())?;
+        let value = parse_bigint(s).map_err(|e| e.to_string())?;
         if value > 0.to_bigint().unwrap() {
             Err("Bad value for NonPositiveInteger".to_string())
         } else {
diff --git a/xsd-types/src/types/positive_integer.rs b/xsd-types/src/types/positive_integer.rs
index ea98080..117b637 100644
--- a/xsd-types/src/types/positive_integer.rs
+++ b/xsd-types/src/types/positive_integer.rs
@@ -3,6 +3,8 @@ use std::{fmt, str::FromStr};
 use num_bigint::{BigUint, ToBigUint};
 use xsd_macro_utils::UtilsDefaultSerde;
 
+use crate::types::utils::parse_bigint;
+
 // https://www.w3.org/TR/xmlschema-2/#positiveInteger
 #[derive(Default, Clone, PartialEq, PartialOrd, Debug, UtilsDefaultSerde)]
 pub struct PositiveInteger(pub BigUint);
@@ -23,7 +25,8 @@ impl FromStr for PositiveInteger {
     type Err = String;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        let value = BigUint::from_str(s).map_err(|e| e.to_string())?;
+        let value = parse_bigint(s).map_err(|e| e.to_string())?;
+        let value = value.to_biguint().ok_or_else(|| "Bad value for PositiveInteger".to_string())?;
         if value <= 0.to_biguint().unwrap() {
             Err("Bad value for PositiveInteger".to_string())
         } else {
diff --git a/xsd-types/src/types/utils.rs b/xsd-types/src/types/utils.rs
index 7f3659f..9f1d86f 100644
--- a/xsd-types/src/types/utils.rs
+++ b/xsd-types/src/types/utils.rs
@@ -1,4 +1,13 @@
+use std::str::FromStr;
+
 use chrono::FixedOffset;
+use num_bigint::{BigInt, ParseBigIntError};
+
+// Parses an XSD integer literal: optional sign and decimal digits.
+// Unlike `BigInt::from_str`, it does not allow '_' as a digit separator.
+pub(crate) fn parse_bigint(s: &str) -> Result<BigInt, ParseBigIntError> {
+    BigInt::from_str(if s.contains('_') { "_" } else { s })
+}
 
 // Parses ISO 8601 timezone.
 pub fn parse_timezone(s: &str) -> Result<FixedOffset, String> {
-- 
2.43.0


From 6fde997271ab9c65f7d4941a4901dc502bd1f09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:02 +0000
Subject: [PATCH 05/34] fix: default positiveInteger/negativeInteger is a value
 of the type (1, -1) instead of 0

---
 xsd-types/src/types/negative_integer.rs | 9 ++++++++-
 xsd-types/src/types/positive_integer.rs | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/xsd-types/src/types/negative_integer.rs b/xsd-types/src/types/negative_integer.rs
index a04da5e..5884a64 100644
--- a/xsd-types/src/types/negative_integer.rs
+++ b/xsd-types/src/types/negative_integer.rs
@@ -6,7 +6,7 @@ use xsd_macro_utils::UtilsDefaultSerde;
 use crate::types::utils::parse_bigint;
 
 // https://www.w3.org/TR/xmlschema-2/#negativeInteger
-#[derive(Default, Clone, PartialEq, PartialOrd, Debug, UtilsDefaultSerde)]
+#[derive(Clone, PartialEq, PartialOrd, Debug, UtilsDefaultSerde)]
 pub struct NegativeInteger(pub BigInt);
 
 impl NegativeInteger {
@@ -21,6 +21,13 @@ impl ToBigInt for NegativeInteger {
     }
 }
 
+// Zero is not in the value space.
+impl Default for NegativeInteger {
+    fn default() -> NegativeInteger {
+        Self((-1).to_bigint().unwrap())
+    }
+}
+
 impl FromStr for NegativeInteger {
     type Err = String;
 
diff --git a/xsd-types/src/types/positive_integer.rs b/xsd-types/src/types/positive_integer.rs
index 117b637..73e17fd 100644
--- a/xsd-types/src/types/positive_integer.rs
+++ b/xsd-types/src/types/positive_integer.rs
@@ -6,7 +6,7 @@ use xsd_macro_utils::UtilsDefaultSerde;
 use crate::types::utils::parse_bigint;
 
 // https://www.w3.org/TR/xmlschema-2/#positiveInteger
-#[derive(Default, Clone, PartialEq, PartialOrd, Debug, UtilsDefaultSerde)]
+#[derive(Clone, PartialEq, PartialOrd, Debug, UtilsDefaultSerde)]
 pub struct PositiveInteger(pub BigUint);
 
 impl PositiveInteger {
@@ -21,6 +21,13 @@ impl ToBigUint for PositiveInteger {
     }
 }
 
+// Zero is not in the value space.
+impl Default for PositiveInteger {
+    fn default() -> PositiveInteger {
+        Self(1.to_biguint().unwrap())
+    }
+}
+
 impl FromStr for PositiveInteger {
     type Err = String;
 
-- 
2.43.0


From 5e1025ec8dabe69869ce53ccb6459d98f5f561cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:27 +0000
Subject: [PATCH 06/34] fix: decimal parsing rejects exponents, '_' separators
 and misplaced signs

---
 xsd-types/src/types/decimal.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xsd-types/src/types/decimal.rs b/xsd-types/src/types/decimal.rs
index c5fcd6c..f1bb8dc 100644
--- a/xsd-types/src/types/decimal.rs
+++ b/xsd-types/src/types/decimal.rs
@@ -20,6 +20,11 @@ impl FromStr for Decimal {
     type Err = ParseBigDecimalError;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
+        // Unlike XSD, `BigDecimal` allows exponents, digit separators and misplaced signs.
+        let unsigned = s.strip_prefix(|c| c == '+' || c == '-').unwrap_or(s);
+        if unsigned.chars().any(|c| !c.is_ascii_digit() && c != '.') {
+            return Err(ParseBigDecimalError::Other("bad decimal format".to_string()));
+        }
         Ok(Decimal(BigDecimal::from_str(s)?))
     }
 }
-- 
2.43.0


From 0a34d7a6e003ab833dea931b4911b4cd2b35bea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:28 +0000
Subject: [PATCH 07/34] fix: decimal is printed without exponent

---
 xsd-types/src/types/decimal.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/xsd-types/src/types/decimal.rs b/xsd-types/src/types/decimal.rs
index f1bb8dc..4a030a6 100644
--- a/xsd-types/src/types/decimal.rs
+++ b/xsd-types/src/types/decimal.rs
@@ -1,6 +1,7 @@
 use std::{fmt, str::FromStr};
 
 use bigdecimal::{BigDecimal, ParseBigDecimalError};
+use num_bigint::Sign;
 use xsd_macro_utils::UtilsDefaultSerde;
 
 #[derive(Default, Clone, PartialEq, PartialOrd, Debug, UtilsDefaultSerde)]
@@ -31,7 +32,20 @@ impl FromStr for Decimal {
 
 impl fmt::Display for Decimal {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        write!(f, "{}", self.0)
+        // `BigDecimal` may use scientific notation, which is not allowed in XSD.
+        let (value, scale) = self.0.as_bigint_and_exponent();
+        let sign = if value.sign() == Sign::Minus { "-" } else { "" };
+        let digits = value.magnitude().to_str_radix(10);
+        if digits == "0" || scale == 0 {
+            return write!(f, "{}{}", sign, digits);
+        }
+        let scale_abs = scale.unsigned_abs() as usize;
+        if scale < 0 {
+            return write!(f, "{}{}{}", sign, digits, "0".repeat(scale_abs));
+        }
+        let digits = "0".repeat((scale_abs + 1).saturating_sub(digits.len())) + &digits;
+        let (int, fract) = digits.split_at(digits.len() - scale_abs);
+        write!(f, "{}{}.{}", sign, int, fract)
     }
 }
 
-- 
2.43.0


From 4a9c0cd680afad823cea7c386a8bd7a64884baf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:30 +0000
Subject: [PATCH 08/34] fix: time keeps fractional seconds

---
 xsd-types/src/types/time.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xsd-types/src/types/time.rs b/xsd-types/src/types/time.rs
index baa2d26..54c42c0 100644
--- a/xsd-types/src/types/time.rs
+++ b/xsd-types/src/types/time.rs
@@ -32,7 +32,7 @@ impl FromStr for Time {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         fn parse_naive_time(s: &str) -> Result<NaiveTime, String> {
-            NaiveTime::parse_from_str(s, "%H:%M:%S").map_err(|e| e.to_string())
+            NaiveTime::parse_from_str(s, "%H:%M:%S%.f").map_err(|e| e.to_string())
         }
 
         if let Some(s) = s.strip_suffix('Z') {
@@ -76,7 +76,7 @@ impl FromStr for Time {
 
 impl fmt::Display for Time {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        let fmt = StrftimeItems::new("%H:%M:%S");
+        let fmt = StrftimeItems::new("%H:%M:%S%.f");
         match self.timezone {
             Some(tz) => write!(f, "{}{}", self.value.format_with_items(fmt.clone()), tz),
             None => write!(f, "{}", self.value.format_with_items(fmt.clone())),
-- 
2.43.0


From 5f38d6df75702446ea3e762eec2da408b44b5a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:25 +0000
Subject: [PATCH 09/34] fix: duration parsing neither overflows, drops dangling
 numbers nor loses precision of seconds

---
 xsd-types/src/types/duration.rs | 79 +++++++++++++++------------------
 1 file changed, 35 insertions(+), 44 deletions(-)

diff --git a/xsd-types/src/types/duration.rs b/xsd-types/src/types/duration.rs
index e352b9c..035be79 100644
--- a/xsd-types/src/types/duration.rs
+++ b/xsd-types/src/types/duration.rs
@@ -43,17 +43,21 @@ impl FromStr for Duration {
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         fn fill_component(
             context: &mut ParsingContext,
+            text: &str,
             component: &mut u64,
             idx: i32,
             name: &str,
             symbol: char,
         ) -> Result<(), String> {
-            if context.is_number_empty {
-                return Err(format!(
-                    "No value is specified for {}, so '{}' must not be present",
-                    name, symbol
-                ));
-            }
+            let start = match context.number_start {
+                Some(start) => start,
+                None => {
+                    return Err(format!(
+                        "No value is specified for {}, so '{}' must not be present",
+                        name, symbol
+                    ))
+                }
+            };
 
             if context.is_dot_found {
                 return Err("Only the seconds can be expressed as a decimal".into());
@@ -63,23 +67,26 @@ impl FromStr for Duration {
                 return Err("Bad order of duration components".into());
             }
 
-            *component = context.number;
+            *component = text[start..].parse().map_err(|_| format!("Bad value for {}", name))?;
             context.last_filled_component = idx;
-            context.number = 0;
-            context.is_number_empty = true;
+            context.number_start = None;
 
             Ok(())
         }
 
         fn fill_seconds(
             context: &mut ParsingContext,
+            text: &str,
             seconds: &mut f64,
         ) -> Result<(), &'static str> {
-            if context.is_number_empty {
-                return Err("No value is specified for seconds, so 'S' must not be present");
-            }
+            let start = match context.number_start {
+                Some(start) => start,
+                None => {
+                    return Err("No value is specified for seconds, so 'S' must not be present")
+                }
+            };
 
-            if context.is_dot_found && context.denom == 1 {
+            if text.ends_with('.') {
                 return Err("At least one digit must follow the decimal point if it appears");
             }
 
@@ -87,10 +94,9 @@ impl FromStr for Duration {
                 return Err("Bad order of duration components");
             }
 
-            *seconds = context.number as f64 + context.numer as f64 / context.denom as f64;
+            *seconds = text[start..].parse().map_err(|_| "Bad value for seconds")?;
             context.last_filled_component = 6;
-            context.number = 0;
-            context.is_number_empty = true;
+            context.number_start = None;
 
             Ok(())
         }
@@ -123,7 +129,7 @@ impl FromStr for Duration {
                         return Err("Symbol 'T' occurred twice".into());
                     }
 
-                    if context.number > 0 {
+                    if context.number_start.is_some() {
                         return Err("Symbol 'T' occurred after a number".into());
                     }
 
@@ -133,29 +139,29 @@ impl FromStr for Duration {
 
                 // Duration components:
                 'Y' => {
-                    fill_component(&mut context, &mut dur.years, 1, "years", 'Y')?;
+                    fill_component(&mut context, &s[..i], &mut dur.years, 1, "years", 'Y')?;
                 }
                 'M' => {
                     if context.is_t_found {
-                        fill_component(&mut context, &mut dur.minutes, 5, "minutes", 'M')?;
+                        fill_component(&mut context, &s[..i], &mut dur.minutes, 5, "minutes", 'M')?;
                     } else {
-                        fill_component(&mut context, &mut dur.months, 2, "months", 'M')?;
+                        fill_component(&mut context, &s[..i], &mut dur.months, 2, "months", 'M')?;
                     }
                 }
                 'D' => {
-                    fill_component(&mut context, &mut dur.days, 3, "days", 'D')?;
+                    fill_component(&mut context, &s[..i], &mut dur.days, 3, "days", 'D')?;
                 }
                 'H' => {
                     if !context.is_t_found {
                         return Err("No symbol 'T' found before hours components".into());
                     }
-                    fill_component(&mut context, &mut dur.hours, 4, "hours", 'H')?;
+                    fill_component(&mut context, &s[..i], &mut dur.hours, 4, "hours", 'H')?;
                 }
                 'S' => {
                     if !context.is_t_found {
                         return Err("No symbol 'T' found before seconds components".into());
                     }
-                    fill_seconds(&mut context, &mut dur.seconds)?;
+                    fill_seconds(&mut context, &s[..i], &mut dur.seconds)?;
                 }
 
                 // Number:
@@ -164,7 +170,7 @@ impl FromStr for Duration {
                         return Err("Dot occurred twice".into());
                     }
 
-                    if context.is_number_empty {
+                    if context.number_start.is_none() {
                         return Err("No digits before dot".into());
                     }
 
@@ -175,22 +181,14 @@ impl FromStr for Duration {
                         return Err("Incorrect character occurred".into());
                     }
 
-                    if context.is_dot_found {
-                        context.numer *= 10;
-                        context.numer +=
-                            digit.to_digit(10).expect("error converting a digit") as u64;
-                        context.denom *= 10;
-                    } else {
-                        context.number *= 10;
-                        context.number +=
-                            digit.to_digit(10).expect("error converting a digit") as u64;
-                        context.is_number_empty = false;
+                    if context.number_start.is_none() {
+                        context.number_start = Some(i);
                     }
                 }
             }
         }
 
-        if context.number > 0 {
+        if context.number_start.is_some() {
             return Err("Number at the end of the string".into());
         }
 
@@ -257,13 +255,9 @@ struct ParsingContext {
     is_t_found: bool,           // Is 'T' delimiter occurred.
     last_filled_component: i32, // 1 to 6 for Year to Minute.
 
-    number: u64,
-    is_number_empty: bool,
+    number_start: Option<usize>, // Position of the first digit of the current number.
 
     is_dot_found: bool,
-    // Numerator and denominator of seconds fraction part.
-    numer: u64,
-    denom: u64,
 }
 
 impl ParsingContext {
@@ -273,12 +267,9 @@ impl ParsingContext {
             is_t_found: false,
             last_filled_component: 0,
 
-            number: 0,
-            is_number_empty: true,
+            number_start: None,
 
             is_dot_found: false,
-            numer: 0,
-            denom: 1,
         }
     }
 }
-- 
2.43.0


From 2382c66bafb34b3aaa92310a7d250902852b688c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:26 +0000
Subject: [PATCH 10/34] fix: duration conversion rejects negative and too long
 durations

---
 xsd-types/src/types/duration.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/xsd-types/src/types/duration.rs b/xsd-types/src/types/duration.rs
index 035be79..9dac9c6 100644
--- a/xsd-types/src/types/duration.rs
+++ b/xsd-types/src/types/duration.rs
@@ -19,11 +19,21 @@ impl Duration {
     pub fn to_std_duration(&self) -> Result<std::time::Duration, String> {
         if self.years > 0 || self.months > 0 {
             Err("Duration with months or years require a starting date to be converted".into())
+        } else if self.is_negative {
+            Err("Negative duration cannot be converted".into())
         } else {
             let secs = self.seconds as u64;
 
             let nanos = ((self.seconds - secs as f64) * 1e9) as u32;
-            let secs = secs + 60 * (self.minutes + 60 * (self.hours + 24 * self.days));
+            let secs = self
+                .days
+                .checked_mul(24)
+                .and_then(|hours| hours.checked_add(self.hours))
+                .and_then(|hours| hours.checked_mul(60))
+                .and_then(|minutes| minutes.checked_add(self.minutes))
+                .and_then(|minutes| minutes.checked_mul(60))
+                .and_then(|seconds| seconds.checked_add(secs))
+                .ok_or("Duration is too long to be converted")?;
 
             Ok(std::time::Duration::new(secs, nanos))
         }
-- 
2.43.0


From 29fef5fc6c2e6127603698e5fb7a68e493346da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:52 +0000
Subject: [PATCH 11/34] fix: duration conversion no longer panics on huge
 seconds and rounds fractions to the nearest nanosecond

---
 xsd-types/src/types/duration.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/xsd-types/src/types/duration.rs b/xsd-types/src/types/duration.rs
index 9dac9c6..c047cc7 100644
--- a/xsd-types/src/types/duration.rs
+++ b/xsd-types/src/types/duration.rs
@@ -22,20 +22,17 @@ impl Duration {
         } else if self.is_negative {
             Err("Negative duration cannot be converted".into())
         } else {
-            let secs = self.seconds as u64;
+            let seconds = std::time::Duration::try_from_secs_f64(self.seconds)
+                .map_err(|e| e.to_string())?;
 
-            let nanos = ((self.seconds - secs as f64) * 1e9) as u32;
-            let secs = self
-                .days
+            self.days
                 .checked_mul(24)
                 .and_then(|hours| hours.checked_add(self.hours))
                 .and_then(|hours| hours.checked_mul(60))
                 .and_then(|minutes| minutes.checked_add(self.minutes))
                 .and_then(|minutes| minutes.checked_mul(60))
-                .and_then(|seconds| seconds.checked_add(secs))
-                .ok_or("Duration is too long to be converted")?;
-
-            Ok(std::time::Duration::new(secs, nanos))
+                .and_then(|secs| std::time::Duration::from_secs(secs).checked_add(seconds))
+                .ok_or_else(|| "Duration is too long to be converted".to_string())
         }
     }
 
-- 
2.43.0


From be1b413d5f32651868b3e53401875c1cb6fe43b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:52 +0000
Subject: [PATCH 12/34] fix: elements with minOccurs="0" maxOccurs="1" are
 optional

---
 xsd-parser/src/parser/element.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xsd-parser/src/parser/element.rs b/xsd-parser/src/parser/element.rs
index 19d5cbd..6118d7d 100644
--- a/xsd-parser/src/parser/element.rs
+++ b/xsd-parser/src/parser/element.rs
@@ -150,7 +150,7 @@ pub fn element_modifier(node: &Node) -> TypeModifier {
                 if val > 1 {
                     TypeModifier::Array
                 } else {
-                    TypeModifier::None
+                    TypeModifier::Option
                 }
             }
         },
-- 
2.43.0


From a7ada2b0255a06055493fe149096cbe5bcc21be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:54 +0000
Subject: [PATCH 13/34] fix: names equal to the keyword try are escaped

---
 wsdl-parser/src/generator/mod.rs  | 1 +
 xsd-parser/src/generator/utils.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/wsdl-parser/src/generator/mod.rs b/wsdl-parser/src/generator/mod.rs
index fe1858f..e9a8346 100644
--- a/wsdl-parser/src/generator/mod.rs
+++ b/wsdl-parser/src/generator/mod.rs
@@ -178,6 +178,7 @@ const RS_KEYWORDS: &[&str] = &[
     "super",
     "trait",
     "true",
+    "try",
     "type",
     "typeof",
     "unsafe",
diff --git a/xsd-parser/src/generator/utils.rs b/xsd-parser/src/generator/utils.rs
index ed94780..308444c 100644
--- a/xsd-parser/src/generator/utils.rs
+++ b/xsd-parser/src/generator/utils.rs
@@ -169,6 +169,7 @@ const RS_KEYWORDS: &[&str] = &[
     "super",
     "trait",
     "true",
+    "try",
     "type",
     "typeof",
     "unsafe",
-- 
2.43.0


From 78200be98b2f2e5f0b467c814036edefb1685a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:55 +0000
Subject: [PATCH 14/34] fix: the local part of a qualified type name is made a
 valid identifier

---
 wsdl-parser/src/generator/mod.rs    | 9 ++++-----
 xsd-parser/src/generator/default.rs | 9 ++++-----
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/wsdl-parser/src/generator/mod.rs b/wsdl-parser/src/generator/mod.rs
index e9a8346..f5e93df 100644
--- a/wsdl-parser/src/generator/mod.rs
+++ b/wsdl-parser/src/generator/mod.rs
@@ -81,11 +81,11 @@ fn default_format_type(type_name: &str, target_ns: Option<&Namespace>) -> Cow<'s
     let (prefix, name) = split_name(type_name);
     let option_tns = target_ns.as_ref().and_then(|ns| ns.name());
 
-    let pascalized_name = filter_type_name(to_pascal_case(name).as_str());
+    let pascalized_name = sanitize(filter_type_name(to_pascal_case(name).as_str()));
 
     let qname = |prefix| format!("{}::{}", prefix, pascalized_name);
 
-    let res = match (prefix, option_tns) {
+    match (prefix, option_tns) {
         (Some(ns), Some(tns)) => {
             if ns == tns {
                 pascalized_name
@@ -95,9 +95,8 @@ fn default_format_type(type_name: &str, target_ns: Option<&Namespace>) -> Cow<'s
         }
         (Some(ns), None) => qname(ns),
         _ => pascalized_name,
-    };
-
-    sanitize(res).into()
+    }
+    .into()
 }
 
 pub fn default_format_name(name: &str) -> String {
diff --git a/xsd-parser/src/generator/default.rs b/xsd-parser/src/generator/default.rs
index 35bae27..54dc1c7 100644
--- a/xsd-parser/src/generator/default.rs
+++ b/xsd-parser/src/generator/default.rs
@@ -25,11 +25,11 @@ pub fn default_format_type(type_name: &str, target_ns: &Option<Namespace>) -> Co
     let (prefix, name) = split_name(type_name);
     let option_tns = target_ns.as_ref().and_then(|ns| ns.name());
 
-    let pascalized_name = filter_type_name(to_pascal_case(name).as_str());
+    let pascalized_name = sanitize(filter_type_name(to_pascal_case(name).as_str()));
 
     let qname = |prefix| format!("{}::{}", prefix, pascalized_name);
 
-    let res = match (prefix, option_tns) {
+    match (prefix, option_tns) {
         (Some(ns), Some(tns)) => {
             if ns == tns {
                 pascalized_name
@@ -39,9 +39,8 @@ pub fn default_format_type(type_name: &str, target_ns: &Option<Namespace>) -> Co
         }
         (Some(ns), None) => qname(ns),
         _ => pascalized_name,
-    };
-
-    sanitize(res).into()
+    }
+    .into()
 }
 
 pub fn default_modify_type(type_name: &str, modifiers: &[TypeModifier]) -> Cow<'static, str> {
-- 
2.43.0


From d30fd34965625dfc06851f8348cd16db5d1cf529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:33 +0000
Subject: [PATCH 15/34] fix: types declared before their base get the fields of
 all ancestors

---
 xsd-parser/src/parser/types.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/xsd-parser/src/parser/types.rs b/xsd-parser/src/parser/types.rs
index 1a88243..f685077 100644
--- a/xsd-parser/src/parser/types.rs
+++ b/xsd-parser/src/parser/types.rs
@@ -38,14 +38,23 @@ impl Struct {
     pub fn extend_base(&self, types: &HashMap<&String, &Self>) {
         self.fields.borrow_mut().iter_mut().for_each(|f| f.extend_base(types));
 
-        let mut fields = self
-            .fields
-            .borrow()
+        // The bases are taken out before they are followed, so a cycle of extensions ends.
+        let (bases, own): (Vec<_>, Vec<_>) =
+            self.fields.take().into_iter().partition(|f| f.name.as_str() == tag::BASE);
+        self.fields.replace(own);
+
+        let mut fields = bases
             .iter()
-            .filter(|f| f.name.as_str() == tag::BASE)
             .flat_map(|f| {
                 let key = f.type_name.split(':').last().unwrap().to_string();
-                types.get(&key).map(|s| s.fields.borrow().clone()).unwrap_or_default()
+                types
+                    .get(&key)
+                    .map(|s| {
+                        // A base declared later in the schema has not got the fields of its own base yet.
+                        s.extend_base(types);
+                        s.fields.borrow().clone()
+                    })
+                    .unwrap_or_default()
             })
             .filter(|f| {
                 //TODO: remove this workaround for fields names clash
@@ -55,8 +64,6 @@ impl Struct {
 
         self.fields.borrow_mut().append(&mut fields);
 
-        self.fields.borrow_mut().retain(|field| field.name.as_str() != tag::BASE);
-
         for subtype in &self.subtypes {
             if let RsEntity::Struct(s) = subtype {
                 s.extend_base(types);
-- 
2.43.0


From 0c54a4e51dfb6aef3872c728b5acf7b1d2e9b0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:35 +0000
Subject: [PATCH 16/34] fix: types with content keep their attribute groups,
 and the content is not lost when they follow it

---
 xsd-parser/src/parser/complex_type.rs |  1 +
 xsd-parser/src/parser/extension.rs    | 11 +++--------
 xsd-parser/src/parser/restriction.rs  | 20 +++++++-------------
 3 files changed, 11 insertions(+), 21 deletions(-)

diff --git a/xsd-parser/src/parser/complex_type.rs b/xsd-parser/src/parser/complex_type.rs
index bed4dcc..2dbcd23 100644
--- a/xsd-parser/src/parser/complex_type.rs
+++ b/xsd-parser/src/parser/complex_type.rs
@@ -54,6 +54,7 @@ pub fn parse_complex_type(node: &Node, parent: &Node) -> RsEntity {
     match &mut res {
         RsEntity::Struct(st) => {
             st.fields.borrow_mut().append(&mut fields);
+            st.attribute_groups.borrow_mut().append(&mut attribute_groups_to_aliases(node));
             st.name = name.to_string();
         }
         RsEntity::Enum(en) => {
diff --git a/xsd-parser/src/parser/extension.rs b/xsd-parser/src/parser/extension.rs
index 1341b5a..0b78aaa 100644
--- a/xsd-parser/src/parser/extension.rs
+++ b/xsd-parser/src/parser/extension.rs
@@ -10,10 +10,8 @@ use crate::parser::{
     xsd_elements::{ElementType, ExtensionType, XsdNode},
 };
 
-const AVAILABLE_CONTENT_TYPES: [ElementType; 6] = [
+const AVAILABLE_CONTENT_TYPES: [ElementType; 4] = [
     ElementType::All, // Not presented in ONVIF
-    ElementType::Attribute,
-    ElementType::AttributeGroup,
     ElementType::Choice,
     ElementType::Group, // Not presented in ONVIF
     ElementType::Sequence,
@@ -64,17 +62,14 @@ fn complex_content_extension(node: &Node) -> RsEntity {
 
     let content = node
         .children()
-        .filter(|n| {
-            n.is_element()
-                && n.xsd_type() != ElementType::Attribute
-                && AVAILABLE_CONTENT_TYPES.contains(&n.xsd_type())
-        })
+        .filter(|n| n.is_element() && AVAILABLE_CONTENT_TYPES.contains(&n.xsd_type()))
         .last();
 
     if let Some(cont) = content {
         let mut res = parse_node(&cont, node);
         if let RsEntity::Struct(s) = &mut res {
             s.fields.borrow_mut().append(&mut fields);
+            s.attribute_groups.borrow_mut().append(&mut attribute_groups_to_aliases(node));
             s.comment = get_documentation(node);
             return res;
         }
diff --git a/xsd-parser/src/parser/restriction.rs b/xsd-parser/src/parser/restriction.rs
index 76eb173..9ca8e61 100644
--- a/xsd-parser/src/parser/restriction.rs
+++ b/xsd-parser/src/parser/restriction.rs
@@ -16,14 +16,11 @@ use crate::parser::{
     xsd_elements::{ElementType, FacetType, RestrictionType, XsdNode},
 };
 
-const AVAILABLE_CONTENT_TYPES: [ElementType; 7] = [
-    ElementType::All, // Not presented in ONVIF
-    ElementType::AnyAttribute,
-    ElementType::Attribute,
-    ElementType::AttributeGroup, // Not presented in ONVIF
-    ElementType::Choice,         // Not presented in ONVIF
-    ElementType::Group,          // Not presented in ONVIF
-    ElementType::Sequence,       // Not presented in ONVIF
+const AVAILABLE_CONTENT_TYPES: [ElementType; 4] = [
+    ElementType::All,      // Not presented in ONVIF
+    ElementType::Choice,   // Not presented in ONVIF
+    ElementType::Group,    // Not presented in ONVIF
+    ElementType::Sequence, // Not presented in ONVIF
 ];
 
 pub fn parse_restriction(node: &Node, _: &Node) -> RsEntity {
@@ -76,11 +73,7 @@ fn complex_content_restriction(node: &Node) -> RsEntity {
 
     let content = node
         .children()
-        .filter(|n| {
-            n.is_element()
-                && n.xsd_type() != ElementType::Attribute
-                && AVAILABLE_CONTENT_TYPES.contains(&n.xsd_type())
-        })
+        .filter(|n| n.is_element() && AVAILABLE_CONTENT_TYPES.contains(&n.xsd_type()))
         .last();
 
     if let Some(cont) = content {
@@ -88,6 +81,7 @@ fn complex_content_restriction(node: &Node) -> RsEntity {
         if let RsEntity::Struct(s) = &mut res {
             s.comment = get_documentation(node);
             s.fields.borrow_mut().append(&mut fields);
+            s.attribute_groups.borrow_mut().append(&mut attribute_groups_to_aliases(node));
             return res;
         }
     }
-- 
2.43.0


From c567d041cf5b2e7860eef02670bb8f9ac4fca96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:36 +0000
Subject: [PATCH 17/34] fix: attribute groups of a base type are inherited
 whatever the order of the types

---
 xsd-parser/src/parser/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xsd-parser/src/parser/mod.rs b/xsd-parser/src/parser/mod.rs
index e03275f..4344b0d 100644
--- a/xsd-parser/src/parser/mod.rs
+++ b/xsd-parser/src/parser/mod.rs
@@ -54,10 +54,15 @@ pub fn parse(text: &str) -> Result<RsFile, ()> {
     }
     for ty in &schema_rs.types {
         if let RsEntity::Struct(st) = ty {
-            st.extend_base(&map);
             st.extend_attribute_group(&map);
         }
     }
+    // After the attribute groups, so that those of the bases are inherited as well.
+    for ty in &schema_rs.types {
+        if let RsEntity::Struct(st) = ty {
+            st.extend_base(&map);
+        }
+    }
 
     Ok(schema_rs)
 }
-- 
2.43.0


From a142ff83bc9bc00739eec3818b4164a46aa8980f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:38 +0000
Subject: [PATCH 18/34] fix: line breaks in import attributes do not leave the
 comment

---
 xsd-parser/src/generator/import.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xsd-parser/src/generator/import.rs b/xsd-parser/src/generator/import.rs
index 09c377c..198886d 100644
--- a/xsd-parser/src/generator/import.rs
+++ b/xsd-parser/src/generator/import.rs
@@ -2,7 +2,9 @@ use crate::{generator::Generator, parser::types::Import};
 
 pub trait ImportGenerator {
     fn generate(&self, entity: &Import, _gen: &Generator) -> String {
-        format!("//use {}  {};\n", entity.location, entity.name)
+        // A line break would end the comment.
+        let line = |s: &str| s.replace('\n', " ");
+        format!("//use {}  {};\n", line(&entity.location), line(&entity.name))
     }
 }
 
-- 
2.43.0


From bb2cc346175ab9ef6518a4a4d76415f00f39883b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:39 +0000
Subject: [PATCH 19/34] fix: list types reject invalid items instead of
 dropping them

---
 xsd-macro-utils/src/tuple.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xsd-macro-utils/src/tuple.rs b/xsd-macro-utils/src/tuple.rs
index 0d2dc2f..ff0a803 100644
--- a/xsd-macro-utils/src/tuple.rs
+++ b/xsd-macro-utils/src/tuple.rs
@@ -28,8 +28,8 @@ fn from_str(ast: &syn::DeriveInput) -> syn::Result<TokenStream> {
         Type::Vec(subtype) => match Type::from_path(subtype) {
             Type::String(subtype) | Type::Struct(subtype) | Type::Simple(subtype) => quote! {
                 s.split_whitespace()
-                    .filter_map(|s| <#subtype as ::std::str::FromStr>::from_str(s).ok())
-                    .collect()
+                    .map(|s| <#subtype as ::std::str::FromStr>::from_str(s).map_err(|e| e.to_string()))
+                    .collect::<::std::result::Result<_, _>>()?
             },
             _ => return Err(syn::Error::new(subtype.span(), "Not implemented for this subtype")),
         },
-- 
2.43.0


From 41808d9bb89e9397c57ecd0cb07bd1078be16a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:40 +0000
Subject: [PATCH 20/34] fix: operations whose messages have parts with a type
 or no parts at all

---
 wsdl-parser/src/generator/function.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/wsdl-parser/src/generator/function.rs b/wsdl-parser/src/generator/function.rs
index 29c845c..8a641b1 100644
--- a/wsdl-parser/src/generator/function.rs
+++ b/wsdl-parser/src/generator/function.rs
@@ -55,7 +55,10 @@ impl<'a> Function<'a> {
         Function {
             generic_params: vec![GENERIC_TRANSPORT],
             arguments: get_input_params(input_message),
-            return_type: output_message.and_then(|m| m.parts()[0].element()).unwrap_or(""),
+            return_type: output_message
+                .and_then(|m| m.parts().first())
+                .and_then(|p| p.element().or_else(|| p.type_()))
+                .unwrap_or(""),
             documentation: operation.documentation(),
             name: operation.name(),
         }
@@ -71,7 +74,7 @@ fn get_input_params<'a>(input: Option<&'a Message<'_>>) -> Vec<Param<'a>> {
 
     if input.parts().len() == 1 {
         // ONVIF case
-        result.push(Param { name: "request", typename: input.parts()[0].element().unwrap() })
+        result.push(Param { name: "request", ..Param::new(&input.parts()[0]) })
     } else {
         result.append(&mut input.parts().iter().map(Param::new).collect());
     };
-- 
2.43.0


From 696260fe776e137d2fc40adf9f586e171ef09a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:41 +0000
Subject: [PATCH 21/34] fix: operations without output return the unit type

---
 wsdl-parser/src/generator/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wsdl-parser/src/generator/mod.rs b/wsdl-parser/src/generator/mod.rs
index f5e93df..2d57c38 100644
--- a/wsdl-parser/src/generator/mod.rs
+++ b/wsdl-parser/src/generator/mod.rs
@@ -45,7 +45,7 @@ fn generate_function(func: &Function<'_>, target_ns: Option<&Namespace>) -> Stri
             .map(|p| format!("{}: &{}", p.name, ftype(p.typename)))
             .collect::<Vec<String>>()
             .join(",\n    "),
-        return_type = ftype(func.return_type),
+        return_type = if func.return_type.is_empty() { "()".into() } else { ftype(func.return_type) },
         body = REQUEST_FUNC_BODY
     )
 }
-- 
2.43.0


From 2104daf438acd3fe976cf5a42c1203670baef381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:42 +0000
Subject: [PATCH 22/34] fix: the order of the generated functions does not
 depend on hashing

---
 wsdl-parser/src/generator/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wsdl-parser/src/generator/mod.rs b/wsdl-parser/src/generator/mod.rs
index 2d57c38..3a72fea 100644
--- a/wsdl-parser/src/generator/mod.rs
+++ b/wsdl-parser/src/generator/mod.rs
@@ -10,7 +10,10 @@ pub mod function;
 pub fn generate(definitions: &Definitions) -> String {
     let mut res = vec![];
 
-    for port_type in definitions.port_types().values() {
+    let mut port_types = definitions.port_types().values().collect::<Vec<_>>();
+    port_types.sort_by_key(|port_type| port_type.name());
+
+    for port_type in port_types {
         for op in port_type.operations() {
             let func = Function::new(op, definitions);
             res.push(generate_function(&func, definitions.target_namespace()));
-- 
2.43.0


From 568736c00c947e0951e621ee2a605764addf327c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:44 +0000
Subject: [PATCH 23/34] fix: enumeration values with quotes and backslashes are
 escaped

---
 xsd-parser/src/generator/enum_case.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xsd-parser/src/generator/enum_case.rs b/xsd-parser/src/generator/enum_case.rs
index a5580db..fc74bb4 100644
--- a/xsd-parser/src/generator/enum_case.rs
+++ b/xsd-parser/src/generator/enum_case.rs
@@ -45,7 +45,7 @@ pub trait EnumCaseGenerator {
         let (prefix, field_name) = split_name(entity.name.as_str());
         match prefix {
             Some(p) => format!(
-                "{indent}#[yaserde(prefix = \"{prefix}\", rename = \"{rename}\")]\n",
+                "{indent}#[yaserde(prefix = {prefix:?}, rename = {rename:?})]\n",
                 indent = gen.base().indent(),
                 prefix = p,
                 rename = field_name
@@ -55,7 +55,7 @@ pub trait EnumCaseGenerator {
                     "".into()
                 } else {
                     format!(
-                        "{indent}#[yaserde(rename = \"{rename}\")]\n",
+                        "{indent}#[yaserde(rename = {rename:?})]\n",
                         indent = gen.base().indent(),
                         rename = field_name
                     )
-- 
2.43.0


From b001393c4697bf8c61ed249b6d97b87721ae64a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:22 +0000
Subject: [PATCH 24/34] fix: a nested type that extends the type around it does
 not panic

---
 xsd-parser/src/parser/types.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/xsd-parser/src/parser/types.rs b/xsd-parser/src/parser/types.rs
index f685077..0a05b64 100644
--- a/xsd-parser/src/parser/types.rs
+++ b/xsd-parser/src/parser/types.rs
@@ -36,8 +36,20 @@ impl Struct {
     }
 
     pub fn extend_base(&self, types: &HashMap<&String, &Self>) {
-        self.fields.borrow_mut().iter_mut().for_each(|f| f.extend_base(types));
+        if self.fields.borrow().iter().any(|f| f.name.as_str() == tag::BASE) {
+            self.append_base_fields(types);
+        }
+
+        self.fields.borrow().iter().for_each(|f| f.extend_base(types));
+
+        for subtype in &self.subtypes {
+            if let RsEntity::Struct(s) = subtype {
+                s.extend_base(types);
+            }
+        }
+    }
 
+    fn append_base_fields(&self, types: &HashMap<&String, &Self>) {
         // The bases are taken out before they are followed, so a cycle of extensions ends.
         let (bases, own): (Vec<_>, Vec<_>) =
             self.fields.take().into_iter().partition(|f| f.name.as_str() == tag::BASE);
@@ -63,12 +75,6 @@ impl Struct {
             .collect::<Vec<StructField>>();
 
         self.fields.borrow_mut().append(&mut fields);
-
-        for subtype in &self.subtypes {
-            if let RsEntity::Struct(s) = subtype {
-                s.extend_base(types);
-            }
-        }
     }
 
     pub fn extend_attribute_group(&self, types: &HashMap<&String, &Self>) {
@@ -97,8 +103,8 @@ pub struct StructField {
 }
 
 impl StructField {
-    pub fn extend_base(&mut self, types: &HashMap<&String, &Struct>) {
-        for subtype in &mut self.subtypes {
+    pub fn extend_base(&self, types: &HashMap<&String, &Struct>) {
+        for subtype in &self.subtypes {
             if let RsEntity::Struct(st) = subtype {
                 st.extend_base(types);
             }
-- 
2.43.0


From 81b7a97ef182da5b6c1ee804c5aebad48c4a3f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:54 +0000
Subject: [PATCH 25/34] fix: types of nested elements get their attribute
 groups

---
 xsd-parser/src/parser/types.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/xsd-parser/src/parser/types.rs b/xsd-parser/src/parser/types.rs
index 0a05b64..08f8d08 100644
--- a/xsd-parser/src/parser/types.rs
+++ b/xsd-parser/src/parser/types.rs
@@ -89,6 +89,20 @@ impl Struct {
             .collect::<Vec<StructField>>();
 
         self.fields.borrow_mut().append(&mut fields);
+
+        // Types declared inside this one have attribute groups of their own.
+        for field in self.fields.borrow().iter() {
+            for subtype in &field.subtypes {
+                if let RsEntity::Struct(st) = subtype {
+                    st.extend_attribute_group(types);
+                }
+            }
+        }
+        for subtype in &self.subtypes {
+            if let RsEntity::Struct(st) = subtype {
+                st.extend_attribute_group(types);
+            }
+        }
     }
 }
 
-- 
2.43.0


From c939f9c762055df62fcdd7a94a3e3898a43c7c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:55 +0000
Subject: [PATCH 26/34] fix: types with a choice get their attribute groups and
 can be extended

---
 xsd-parser/src/parser/mod.rs   | 18 ++++++------------
 xsd-parser/src/parser/types.rs |  9 +++++++++
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/xsd-parser/src/parser/mod.rs b/xsd-parser/src/parser/mod.rs
index 4344b0d..a8de47e 100644
--- a/xsd-parser/src/parser/mod.rs
+++ b/xsd-parser/src/parser/mod.rs
@@ -42,26 +42,20 @@ pub fn parse(text: &str) -> Result<RsFile, ()> {
         root.children().filter(|e| e.is_element()).last().expect("Schema element is required");
 
     let schema_rs = parse_schema(&schema);
-    for ty in &schema_rs.types {
-        if let RsEntity::Struct(st) = ty {
-            map.extend(st.get_types_map());
-        }
+    for st in schema_rs.types.iter().flat_map(|ty| ty.structs()) {
+        map.extend(st.get_types_map());
     }
     for ag in &schema_rs.attribute_groups {
         if let RsEntity::Struct(st) = ag {
             map.extend(st.get_types_map());
         }
     }
-    for ty in &schema_rs.types {
-        if let RsEntity::Struct(st) = ty {
-            st.extend_attribute_group(&map);
-        }
+    for st in schema_rs.types.iter().flat_map(|ty| ty.structs()) {
+        st.extend_attribute_group(&map);
     }
     // After the attribute groups, so that those of the bases are inherited as well.
-    for ty in &schema_rs.types {
-        if let RsEntity::Struct(st) = ty {
-            st.extend_base(&map);
-        }
+    for st in schema_rs.types.iter().flat_map(|ty| ty.structs()) {
+        st.extend_base(&map);
     }
 
     Ok(schema_rs)
diff --git a/xsd-parser/src/parser/types.rs b/xsd-parser/src/parser/types.rs
index 08f8d08..bb4e541 100644
--- a/xsd-parser/src/parser/types.rs
+++ b/xsd-parser/src/parser/types.rs
@@ -232,6 +232,15 @@ impl RsEntity {
         }
     }
 
+    /// The struct an entity is or, for a choice, the one that is generated next to the enumeration.
+    pub(crate) fn structs(&self) -> Vec<&Struct> {
+        match self {
+            RsEntity::Struct(s) => vec![s],
+            RsEntity::Enum(e) => e.subtypes.iter().flat_map(|s| s.structs()).collect(),
+            _ => vec![],
+        }
+    }
+
     pub fn set_name(&mut self, name: &str) {
         use RsEntity::*;
         match self {
-- 
2.43.0


From 5666c64a0c0f21032f15955b1359b48f801afb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:38 +0000
Subject: [PATCH 27/34] fix: only elements of the enclosing type itself are
 made recursive

---
 xsd-parser/src/parser/all.rs      | 2 +-
 xsd-parser/src/parser/sequence.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/xsd-parser/src/parser/all.rs b/xsd-parser/src/parser/all.rs
index 04d3e9b..4f4375f 100644
--- a/xsd-parser/src/parser/all.rs
+++ b/xsd-parser/src/parser/all.rs
@@ -26,7 +26,7 @@ fn elements_to_fields(choice: &Node, parent_name: &str) -> Vec<StructField> {
         .filter(|n| n.is_element() && n.xsd_type() != ElementType::Annotation)
         .map(|n| match parse_node(&n, choice) {
             RsEntity::StructField(mut sf) => {
-                if sf.type_name.ends_with(parent_name) {
+                if sf.type_name.split(':').last() == Some(parent_name) {
                     sf.type_modifiers.push(TypeModifier::Recursive)
                 }
                 sf
diff --git a/xsd-parser/src/parser/sequence.rs b/xsd-parser/src/parser/sequence.rs
index 48b8a19..bdbec4b 100644
--- a/xsd-parser/src/parser/sequence.rs
+++ b/xsd-parser/src/parser/sequence.rs
@@ -26,7 +26,7 @@ fn elements_to_fields(sequence: &Node, parent_name: &str) -> Vec<StructField> {
         .filter(|n| n.is_element() && n.xsd_type() != ElementType::Annotation)
         .map(|n| match parse_node(&n, sequence) {
             RsEntity::StructField(mut sf) => {
-                if sf.type_name.ends_with(parent_name) {
+                if sf.type_name.split(':').last() == Some(parent_name) {
                     sf.type_modifiers.push(TypeModifier::Recursive)
                 }
                 sf
-- 
2.43.0


From d7bfcf9e427b98a2c2d3fc68d20f0d33fb7a8b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:10 +0000
Subject: [PATCH 28/34] fix: the alias of a documented element stays a comment

---
 xsd-parser/src/generator/alias.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xsd-parser/src/generator/alias.rs b/xsd-parser/src/generator/alias.rs
index 7908df2..8ef89f9 100644
--- a/xsd-parser/src/generator/alias.rs
+++ b/xsd-parser/src/generator/alias.rs
@@ -3,7 +3,7 @@ use crate::{generator::Generator, parser::types::Alias};
 pub trait AliasGenerator {
     fn generate(&self, entity: &Alias, gen: &Generator) -> String {
         format!(
-            "//{comment} pub type {name} = {original};\n",
+            "{comment}// pub type {name} = {original};\n",
             comment = self.format_comment(entity.comment.as_deref(), gen),
             name = self.format_name(entity.name.as_str(), gen),
             original = self.format_original_type(entity.original.as_str(), gen)
-- 
2.43.0


From f554045963abf256162c3f66cb2d5d08b02d406b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:57 +0000
Subject: [PATCH 29/34] fix: enumeration values without an ASCII letter or
 digit have no variant name

---
 xsd-parser/src/parser/restriction.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xsd-parser/src/parser/restriction.rs b/xsd-parser/src/parser/restriction.rs
index 9ca8e61..5d4b4ec 100644
--- a/xsd-parser/src/parser/restriction.rs
+++ b/xsd-parser/src/parser/restriction.rs
@@ -128,7 +128,9 @@ fn is_simple_enumerations(node: &Node) -> bool {
 
 fn is_simple_enumeration(node: &Node) -> bool {
     let val = node.attr_value().expect("Value required for xsd:enumeration");
-    !val.is_empty() && val.chars().all(|c| c.is_alphanumeric() || c == '-')
+    // The name of the variant is made of the ASCII letters and digits.
+    val.chars().any(|c| c.is_ascii_alphanumeric())
+        && val.chars().all(|c| c.is_alphanumeric() || c == '-')
 }
 
 #[cfg(test)]
-- 
2.43.0


From e50a71ce52e23d1ecf3acdbb7a91151d4f268d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:38 +0000
Subject: [PATCH 30/34] fix: attribute groups and types of the same name are
 kept apart

---
 xsd-parser/src/parser/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xsd-parser/src/parser/mod.rs b/xsd-parser/src/parser/mod.rs
index a8de47e..0c75814 100644
--- a/xsd-parser/src/parser/mod.rs
+++ b/xsd-parser/src/parser/mod.rs
@@ -45,13 +45,15 @@ pub fn parse(text: &str) -> Result<RsFile, ()> {
     for st in schema_rs.types.iter().flat_map(|ty| ty.structs()) {
         map.extend(st.get_types_map());
     }
+    // Types and attribute groups may have the same name.
+    let mut groups = HashMap::new();
     for ag in &schema_rs.attribute_groups {
         if let RsEntity::Struct(st) = ag {
-            map.extend(st.get_types_map());
+            groups.extend(st.get_types_map());
         }
     }
     for st in schema_rs.types.iter().flat_map(|ty| ty.structs()) {
-        st.extend_attribute_group(&map);
+        st.extend_attribute_group(&groups);
     }
     // After the attribute groups, so that those of the bases are inherited as well.
     for st in schema_rs.types.iter().flat_map(|ty| ty.structs()) {
-- 
2.43.0


From 27fb35ccfb5073aa1889008bf692ca3892f7a8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:46 +0000
Subject: [PATCH 31/34] fix: attribute groups that refer to other groups

---
 xsd-parser/src/parser/attribute_group.rs |  3 ++-
 xsd-parser/src/parser/types.rs           | 12 ++++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/xsd-parser/src/parser/attribute_group.rs b/xsd-parser/src/parser/attribute_group.rs
index 4704b80..b21351f 100644
--- a/xsd-parser/src/parser/attribute_group.rs
+++ b/xsd-parser/src/parser/attribute_group.rs
@@ -3,7 +3,7 @@ use roxmltree::Node;
 use crate::parser::{
     node_parser::parse_node,
     types::{Alias, RsEntity, Struct, StructField},
-    utils::get_documentation,
+    utils::{attribute_groups_to_aliases, get_documentation},
     xsd_elements::{ElementType, XsdNode},
 };
 
@@ -31,6 +31,7 @@ fn parse_global_attribute_group(node: &Node) -> RsEntity {
     RsEntity::Struct(Struct {
         name: name.to_string(),
         fields: std::cell::RefCell::new(fields),
+        attribute_groups: std::cell::RefCell::new(attribute_groups_to_aliases(node)),
         ..Default::default()
     })
 }
diff --git a/xsd-parser/src/parser/types.rs b/xsd-parser/src/parser/types.rs
index bb4e541..72bbec7 100644
--- a/xsd-parser/src/parser/types.rs
+++ b/xsd-parser/src/parser/types.rs
@@ -78,13 +78,21 @@ impl Struct {
     }
 
     pub fn extend_attribute_group(&self, types: &HashMap<&String, &Self>) {
+        // The references are taken out before they are followed, so a cycle of groups ends.
         let mut fields = self
             .attribute_groups
-            .borrow()
+            .take()
             .iter()
             .flat_map(|f| {
                 let key = f.original.split(':').last().unwrap().to_string();
-                types.get(&key).map(|s| s.fields.borrow().clone()).unwrap_or_default()
+                types
+                    .get(&key)
+                    .map(|s| {
+                        // A group may refer to other groups.
+                        s.extend_attribute_group(types);
+                        s.fields.borrow().clone()
+                    })
+                    .unwrap_or_default()
             })
             .collect::<Vec<StructField>>();
 
-- 
2.43.0


From dcfad5778602212aadd93c92e6c54c3340cde9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:48 +0000
Subject: [PATCH 32/34] fix: generating a struct no longer changes the parsed
 schema

---
 xsd-parser/src/generator/struct.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/xsd-parser/src/generator/struct.rs b/xsd-parser/src/generator/struct.rs
index af01513..ab6ff9e 100644
--- a/xsd-parser/src/generator/struct.rs
+++ b/xsd-parser/src/generator/struct.rs
@@ -2,7 +2,7 @@ use std::borrow::Cow;
 
 use crate::{
     generator::{validator::gen_validate_impl, Generator},
-    parser::types::Struct,
+    parser::types::{Struct, StructField},
 };
 
 pub trait StructGenerator {
@@ -21,17 +21,20 @@ pub trait StructGenerator {
     fn fields(&self, entity: &Struct, gen: &Generator) -> String {
         let mod_name = self.mod_name(entity, gen);
 
-        entity.fields.borrow_mut().iter_mut().for_each(|f| {
-            if !f.subtypes.is_empty() {
-                f.type_name = format!("{}::{}", mod_name, f.type_name)
-            }
-        });
-
         let fields = entity
             .fields
             .borrow()
             .iter()
-            .map(|f| gen.struct_field_gen().generate(f, gen))
+            .map(|f| {
+                if f.subtypes.is_empty() {
+                    gen.struct_field_gen().generate(f, gen)
+                } else {
+                    // the type of the field is generated in the module of the struct
+                    let type_name = format!("{}::{}", mod_name, f.type_name);
+                    let field = StructField { type_name, ..f.clone() };
+                    gen.struct_field_gen().generate(&field, gen)
+                }
+            })
             .filter(|s| !s.is_empty())
             .collect::<Vec<String>>()
             .join("\n\n");
-- 
2.43.0


From d336444cf2b4f90edeefea189743fd900b200caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:21 +0000
Subject: [PATCH 33/34] fix: resolve base types and attribute groups of schemas
 embedded in a WSDL document

---
 wsdl-parser-cli/src/main.rs  |  8 +++++---
 xsd-parser/src/parser/mod.rs | 15 +++++++++++----
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/wsdl-parser-cli/src/main.rs b/wsdl-parser-cli/src/main.rs
index 1843bed..3b9d3f3 100644
--- a/wsdl-parser-cli/src/main.rs
+++ b/wsdl-parser-cli/src/main.rs
@@ -8,7 +8,7 @@ use anyhow::Context;
 use clap::Parser;
 use roxmltree::{Document, Node};
 use wsdl_parser::{generator::generate, parser::definitions::Definitions};
-use xsd_parser::{generator::builder::GeneratorBuilder, parser::schema::parse_schema};
+use xsd_parser::{generator::builder::GeneratorBuilder, parser::parse_schema_element};
 
 #[derive(Parser)]
 #[clap(name = env!("CARGO_PKG_NAME"))]
@@ -64,8 +64,10 @@ fn process_single_file(input_path: &Path, output_path: Option<&Path>) -> anyhow:
     let gen = GeneratorBuilder::default().build();
     let schemas =
         definitions.types().iter().flat_map(|t| t.schemas()).collect::<Vec<Node<'_, '_>>>();
-    let mut code =
-        schemas.iter().map(|f| gen.generate_rs_file(&parse_schema(f))).collect::<Vec<String>>();
+    let mut code = schemas
+        .iter()
+        .map(|f| gen.generate_rs_file(&parse_schema_element(f)))
+        .collect::<Vec<String>>();
 
     code.push(generate(&definitions));
     let code = code.join("");
diff --git a/xsd-parser/src/parser/mod.rs b/xsd-parser/src/parser/mod.rs
index 0c75814..c8d0580 100644
--- a/xsd-parser/src/parser/mod.rs
+++ b/xsd-parser/src/parser/mod.rs
@@ -25,6 +25,8 @@ pub mod xsd_elements;
 
 use std::collections::HashMap;
 
+use roxmltree::Node;
+
 use crate::parser::{
     schema::parse_schema,
     types::{RsEntity, RsFile},
@@ -36,12 +38,17 @@ pub fn parse(text: &str) -> Result<RsFile, ()> {
     let doc = roxmltree::Document::parse(text).expect("Parse document error");
     let root = doc.root();
 
-    let mut map = HashMap::new();
-
     let schema =
         root.children().filter(|e| e.is_element()).last().expect("Schema element is required");
 
-    let schema_rs = parse_schema(&schema);
+    Ok(parse_schema_element(&schema))
+}
+
+/// Parses a `schema` element and resolves the base types and attribute groups of its types
+pub fn parse_schema_element<'input>(schema: &Node<'_, 'input>) -> RsFile<'input> {
+    let schema_rs = parse_schema(schema);
+
+    let mut map = HashMap::new();
     for st in schema_rs.types.iter().flat_map(|ty| ty.structs()) {
         map.extend(st.get_types_map());
     }
@@ -60,5 +67,5 @@ pub fn parse(text: &str) -> Result<RsFile, ()> {
         st.extend_base(&map);
     }
 
-    Ok(schema_rs)
+    schema_rs
 }
-- 
2.43.0


From 09f2bea3efd09e254f7a9885db400d40d6dbf02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:14 +0000
Subject: [PATCH 34/34] fix: an anonymous union as the item type of a list has
 a name

---
 xsd-parser/src/parser/list.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/xsd-parser/src/parser/list.rs b/xsd-parser/src/parser/list.rs
index a5db2c1..7904f9c 100644
--- a/xsd-parser/src/parser/list.rs
+++ b/xsd-parser/src/parser/list.rs
@@ -4,7 +4,7 @@ use crate::parser::{
     constants::attribute,
     node_parser::parse_node,
     types::{RsEntity, TupleStruct, TypeModifier},
-    utils::find_child,
+    utils::{find_child, get_parent_name},
 };
 
 pub fn parse_list(list: &Node) -> RsEntity {
@@ -16,11 +16,17 @@ pub fn parse_list(list: &Node) -> RsEntity {
             );
 
             match parse_node(&nested_simple_type, list) {
-                RsEntity::Enum(en) => TupleStruct {
-                    type_name: en.name.clone(),
-                    subtypes: vec![RsEntity::Enum(en)],
-                    ..Default::default()
-                },
+                RsEntity::Enum(mut en) => {
+                    // An anonymous union has no name of its own.
+                    if en.name.is_empty() {
+                        en.name = format!("{}Union", get_parent_name(list));
+                    }
+                    TupleStruct {
+                        type_name: en.name.clone(),
+                        subtypes: vec![RsEntity::Enum(en)],
+                        ..Default::default()
+                    }
+                }
                 RsEntity::TupleStruct(ts) => ts,
                 _ => unreachable!(),
             }
-- 
2.43.0

