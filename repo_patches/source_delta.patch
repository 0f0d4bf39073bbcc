From b191c6917b78f8c1ef2c858e9f329dbcef274448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:29 +0000
Subject: [PATCH 01/36] fix: refuse non-ASCII or too short text instead of
 panicking when extracting primitives

---
 src/cesr/core/counter/mod.rs | 15 ++++++++++-----
 src/cesr/core/indexer/mod.rs |  8 ++++----
 src/cesr/core/matter/mod.rs  |  7 +++----
 src/cesr/core/util.rs        | 11 +++++++++++
 4 files changed, 28 insertions(+), 13 deletions(-)

diff --git a/src/cesr/core/counter/mod.rs b/src/cesr/core/counter/mod.rs
index b94ef26..655cc47 100644
--- a/src/cesr/core/counter/mod.rs
+++ b/src/cesr/core/counter/mod.rs
@@ -217,8 +217,14 @@ impl Counter {
             return err!(Error::EmptyMaterial("empty qb64".to_string()));
         }
 
-        // we validated there will be a char here, above.
-        let first = &qb64[..2];
+        if qb64.len() < 2 {
+            return err!(Error::Shortage(format!(
+                "insufficient material for start of code: qb64 size = {}",
+                qb64.len()
+            )));
+        }
+
+        let first = util::b64_slice(qb64, 0, 2)?;
 
         let hs = tables::hardage(first)? as usize;
         if qb64.len() < hs {
@@ -228,8 +234,7 @@ impl Counter {
             )));
         }
 
-        // bounds already checked
-        let hard = &qb64[..hs];
+        let hard = util::b64_slice(qb64, 0, hs)?;
         let szg = tables::sizage(hard)?;
         let cs = szg.hs + szg.ss;
 
@@ -240,7 +245,7 @@ impl Counter {
             )));
         }
 
-        let count_b64 = &qb64[szg.hs as usize..cs as usize];
+        let count_b64 = util::b64_slice(qb64, szg.hs as usize, cs as usize)?;
         let count = util::b64_to_u64(count_b64)? as u32;
 
         self.code = hard.to_string();
diff --git a/src/cesr/core/indexer/mod.rs b/src/cesr/core/indexer/mod.rs
index d6f5e97..4b211b6 100644
--- a/src/cesr/core/indexer/mod.rs
+++ b/src/cesr/core/indexer/mod.rs
@@ -394,7 +394,7 @@ pub trait Indexer: Default {
             )));
         }
 
-        let hard = &qb64[..hs];
+        let hard = util::b64_slice(qb64, 0, hs)?;
         let szg = tables::sizage(hard)?;
 
         // both hard + soft code size
@@ -408,8 +408,8 @@ pub trait Indexer: Default {
             )));
         }
 
-        let index = util::b64_to_u32(&qb64[hs..(hs + ms as usize)])?;
-        let odx = &qb64[(hs + ms as usize)..(hs + (ms + szg.os) as usize)];
+        let index = util::b64_to_u32(util::b64_slice(qb64, hs, hs + ms as usize)?)?;
+        let odx = util::b64_slice(qb64, hs + ms as usize, hs + (ms + szg.os) as usize)?;
 
         let mut ondex: Option<u32> = None;
         if CurrentSigCodex::has_code(hard) {
@@ -458,7 +458,7 @@ pub trait Indexer: Default {
             )));
         }
 
-        let qb64 = &qb64[..fs as usize];
+        let qb64 = util::b64_slice(qb64, 0, fs as usize)?;
         let ps = cs % 4;
         let pbs = 2 * if ps != 0 { ps } else { szg.ls };
 
diff --git a/src/cesr/core/matter/mod.rs b/src/cesr/core/matter/mod.rs
index fe9f663..a617842 100644
--- a/src/cesr/core/matter/mod.rs
+++ b/src/cesr/core/matter/mod.rs
@@ -329,8 +329,7 @@ pub trait Matter: Default {
             )));
         }
 
-        // bounds already checked
-        let hard = &qb64[..hs];
+        let hard = util::b64_slice(qb64, 0, hs)?;
         let szg = tables::sizage(hard)?;
         let cs = szg.hs + szg.ss;
 
@@ -349,7 +348,7 @@ pub trait Matter: Default {
                     qb64.len(),
                 )));
             }
-            let soft = &qb64[szg.hs as usize..cs as usize];
+            let soft = util::b64_slice(qb64, szg.hs as usize, cs as usize)?;
             let size = util::b64_to_u32(soft)?;
             ((size * 4) + cs, size)
         } else {
@@ -363,7 +362,7 @@ pub trait Matter: Default {
             )));
         }
 
-        let trim = &qb64[..fs as usize];
+        let trim = util::b64_slice(qb64, 0, fs as usize)?;
         let ps = cs % 4;
         let pbs = 2 * if ps != 0 { ps } else { szg.ls };
 
diff --git a/src/cesr/core/util.rs b/src/cesr/core/util.rs
index 40fee97..7508445 100644
--- a/src/cesr/core/util.rs
+++ b/src/cesr/core/util.rs
@@ -142,6 +142,17 @@ pub fn b64_index_to_char(i: u8) -> Result<char> {
     })
 }
 
+/// Slice of `b64` from byte `start` to byte `end`, which must exist and consist of whole characters.
+pub fn b64_slice(b64: &str, start: usize, end: usize) -> Result<&str> {
+    match b64.get(start..end) {
+        Some(s) => Ok(s),
+        None => err!(Error::Parsing(format!(
+            "no whole characters from {start} to {end} in material of size {}",
+            b64.len()
+        ))),
+    }
+}
+
 pub fn b64_to_u32(b64: &str) -> Result<u32> {
     let mut out: u32 = 0;
 
-- 
2.43.0


From 8e1800a3525a9c3082e4ba340bdac92048d51ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:46 +0000
Subject: [PATCH 02/36] fix: refuse variable size material without room for its
 lead bytes instead of panicking

---
 src/cesr/core/matter/mod.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/cesr/core/matter/mod.rs b/src/cesr/core/matter/mod.rs
index a617842..da2ce97 100644
--- a/src/cesr/core/matter/mod.rs
+++ b/src/cesr/core/matter/mod.rs
@@ -391,6 +391,14 @@ pub trait Matter: Default {
             let mut paw = Vec::<u8>::new();
             b64_engine::URL_SAFE.decode_vec(&trim[cs as usize..], &mut paw)?;
 
+            if paw.len() < szg.ls as usize {
+                return err!(Error::Shortage(format!(
+                    "insufficient material for lead bytes: size = {}, ls = {}",
+                    paw.len(),
+                    szg.ls
+                )));
+            }
+
             let mut li: u32 = 0;
             for b in &paw[..szg.ls as usize] {
                 li = (li * 256) + (*b as u32);
@@ -465,6 +473,13 @@ pub trait Matter: Default {
             )));
         }
 
+        if bfs < bcs + szg.ls {
+            return err!(Error::Shortage(format!(
+                "insufficient material for lead bytes: bfs = {bfs}, bcs = {bcs}, ls = {}",
+                szg.ls
+            )));
+        }
+
         let mut trim = qb2[..bfs as usize].to_vec();
         let ps = cs % 4;
         let pbs = 2 * if ps != 0 { ps } else { szg.ls };
-- 
2.43.0


From 4794c4c0fc87aaf86f862841afe29c306af2fe0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:38 +0000
Subject: [PATCH 03/36] fix: leave lead bytes out of the raw material of
 indexed primitives

---
 src/cesr/core/indexer/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cesr/core/indexer/mod.rs b/src/cesr/core/indexer/mod.rs
index 4b211b6..819e064 100644
--- a/src/cesr/core/indexer/mod.rs
+++ b/src/cesr/core/indexer/mod.rs
@@ -131,7 +131,7 @@ pub trait Indexer: Default {
             fs = (index * 4) + cs
         }
 
-        let rize = (fs - cs) * 3 / 4;
+        let rize = (fs - cs) * 3 / 4 - szg.ls;
         if raw.len() < rize as usize {
             return err!(Error::Shortage(format!(
                 "insufficient raw material: raw size = '{}', rize = '{rize}'",
@@ -497,7 +497,7 @@ pub trait Indexer: Default {
                 }
             }
 
-            paw[ps as usize..].to_owned()
+            paw[szg.ls as usize..].to_owned()
         };
 
         self.set_code(hard);
-- 
2.43.0


From 96a8dd59faf7e05c23998d0d281fa1e3200c08a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:05 +0000
Subject: [PATCH 04/36] fix: refuse padding characters inside qualified
 material

---
 src/cesr/core/indexer/mod.rs | 5 +++++
 src/cesr/core/matter/mod.rs  | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/src/cesr/core/indexer/mod.rs b/src/cesr/core/indexer/mod.rs
index 819e064..9d9abe9 100644
--- a/src/cesr/core/indexer/mod.rs
+++ b/src/cesr/core/indexer/mod.rs
@@ -500,6 +500,11 @@ pub trait Indexer: Default {
             paw[szg.ls as usize..].to_owned()
         };
 
+        // padding characters within the material decode to fewer bytes than the code requires
+        if raw.len() + szg.ls as usize != (qb64.len() - cs as usize) * 3 / 4 {
+            return err!(Error::Conversion(format!("Improperly qualified material = '{qb64}'.")));
+        }
+
         self.set_code(hard);
         self.set_raw(&raw);
         self.set_index(index);
diff --git a/src/cesr/core/matter/mod.rs b/src/cesr/core/matter/mod.rs
index da2ce97..bd8aa3b 100644
--- a/src/cesr/core/matter/mod.rs
+++ b/src/cesr/core/matter/mod.rs
@@ -415,6 +415,12 @@ pub trait Matter: Default {
             raw
         };
 
+        // padding characters within the material decode to fewer bytes than the code requires
+        if raw.len() + szg.ls as usize != (trim.len() - cs as usize) * 3 / 4 {
+            raw.zeroize();
+            return err!(Error::Conversion("improperly qualified material".to_string()));
+        }
+
         self.set_code(hard);
         self.set_size(size);
         self.set_raw(&raw);
-- 
2.43.0


From abbd0353eb5c5ab47bdfc6a9c584ea4f2fba8374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:28 +0000
Subject: [PATCH 05/36] fix: refuse unknown variable size codes instead of
 panicking or keeping them

---
 src/cesr/core/matter/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cesr/core/matter/mod.rs b/src/cesr/core/matter/mod.rs
index bd8aa3b..f3a93b7 100644
--- a/src/cesr/core/matter/mod.rs
+++ b/src/cesr/core/matter/mod.rs
@@ -55,6 +55,9 @@ pub trait Matter: Default {
         let mut code = code.to_string();
         let rize =
             if tables::SMALL_VRZ_DEX.contains(&first) || tables::LARGE_VRZ_DEX.contains(&first) {
+                // only known codes are whole ASCII codes of their hard size
+                tables::sizage(&code)?;
+
                 let rize = raw.len() as u32;
 
                 let ls = (3 - (rize % 3)) % 3;
-- 
2.43.0


From 2476f9d08b8fe482c97cf9b7b07993bca33dfd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:41 +0000
Subject: [PATCH 06/36] fix: bound index and ondex by their own sizes in binary
 indexed primitives

---
 src/cesr/core/indexer/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cesr/core/indexer/mod.rs b/src/cesr/core/indexer/mod.rs
index 9d9abe9..619f9b5 100644
--- a/src/cesr/core/indexer/mod.rs
+++ b/src/cesr/core/indexer/mod.rs
@@ -293,13 +293,13 @@ pub trait Indexer: Default {
         let cs = szg.hs + szg.ss;
         let ms = szg.ss - szg.os;
 
-        if index > 64_u32.pow(szg.ss) - 1 {
+        if index > 64_u32.pow(ms) - 1 {
             return err!(Error::InvalidVarIndex(format!(
                 "Invalid index = '{index}' for code = '{code}'."
             )));
         }
 
-        if szg.os == 1 && ondex > 64_u32.pow(szg.os) - 1 {
+        if szg.os > 0 && ondex > 64_u32.pow(szg.os) - 1 {
             return err!(Error::InvalidVarIndex(format!(
                 "Invalid ondex = '{ondex}' for os = '{}' and code = '{code}'.",
                 szg.os
-- 
2.43.0


From 7d4348b39cc6400f6aa03fe0ee21ef34288d9d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:05 +0000
Subject: [PATCH 07/36] fix: refuse an ondex that a single index code cannot
 carry

---
 src/cesr/core/indexer/mod.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/cesr/core/indexer/mod.rs b/src/cesr/core/indexer/mod.rs
index 619f9b5..5797e7e 100644
--- a/src/cesr/core/indexer/mod.rs
+++ b/src/cesr/core/indexer/mod.rs
@@ -98,11 +98,9 @@ pub trait Indexer: Default {
             )));
         }
 
-        if BothSigCodex::has_code(code) {
-            if ondex.is_none() {
-                // when not provided make ondex match index
-                ondex = Some(index);
-            }
+        if BothSigCodex::has_code(code) && ondex.is_none() {
+            // when not provided make ondex match index
+            ondex = Some(index);
         } else if let Some(o) = ondex {
             if o != index && szg.os == 0 {
                 return err!(Error::InvalidVarIndex(format!(
-- 
2.43.0


From f8c3f4cf67a063e50bdf2f558ad34ec2b51aaae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:07 +0000
Subject: [PATCH 08/36] fix: refuse foreign codes in number, salt and prefix
 encodings

---
 src/cesr/core/number.rs   | 2 ++
 src/cesr/core/salter.rs   | 2 ++
 src/prefexing/prefixer.rs | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/src/cesr/core/number.rs b/src/cesr/core/number.rs
index d5a27f9..11c0eec 100644
--- a/src/cesr/core/number.rs
+++ b/src/cesr/core/number.rs
@@ -90,6 +90,8 @@ impl Number {
             Matter::new(Some(code), raw, qb64b, qb64, qb2)?
         };
 
+        validate_code(&number.code())?;
+
         Ok(number)
     }
 
diff --git a/src/cesr/core/salter.rs b/src/cesr/core/salter.rs
index e8984a2..161b2af 100644
--- a/src/cesr/core/salter.rs
+++ b/src/cesr/core/salter.rs
@@ -55,6 +55,8 @@ impl Salter {
                 Matter::new(Some(code), raw, qb64b, qb64, qb2)?
             };
 
+        validate_code(&salter.code())?;
+
         salter.tier = tier.unwrap_or(Tierage::low).to_string();
         Ok(salter)
     }
diff --git a/src/prefexing/prefixer.rs b/src/prefexing/prefixer.rs
index ed1ce86..de69308 100644
--- a/src/prefexing/prefixer.rs
+++ b/src/prefexing/prefixer.rs
@@ -304,6 +304,8 @@ impl Prefixer {
             Matter::new(Some(&code), Some(&raw), None, None, None)?
         };
 
+        validate_code(&prefixer.code())?;
+
         Ok(prefixer)
     }
 
-- 
2.43.0


From b38a722104916411b61edf8cba56de7c73f704d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:18 +0000
Subject: [PATCH 09/36] fix: refuse a too short or non-ASCII encoded threshold
 instead of panicking

---
 src/cesr/core/tholder.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cesr/core/tholder.rs b/src/cesr/core/tholder.rs
index c3dfdfc..d188f60 100644
--- a/src/cesr/core/tholder.rs
+++ b/src/cesr/core/tholder.rs
@@ -266,7 +266,12 @@ impl Tholder {
         let limen = String::from_utf8(limen.to_vec())?;
 
         let hs = matter::hardage(limen.chars().next().unwrap())? as usize;
-        let code = &limen[..hs];
+        let code = match limen.get(..hs) {
+            Some(code) => code,
+            None => {
+                return err!(Error::Shortage(format!("insufficient limen for code: hs = {hs}")))
+            }
+        };
 
         if number::Codex::has_code(code) {
             let number = Number::new(None, None, None, None, None, Some(&limen), None)?;
-- 
2.43.0


From a070fbd190accf2bcd8c6873ee98bbf56ba79c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:33 +0000
Subject: [PATCH 10/36] fix: refuse a threshold weight with a zero denominator
 instead of panicking

---
 src/cesr/core/tholder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cesr/core/tholder.rs b/src/cesr/core/tholder.rs
index d188f60..fc3ef77 100644
--- a/src/cesr/core/tholder.rs
+++ b/src/cesr/core/tholder.rs
@@ -52,6 +52,9 @@ fn values_to_rationals(value: &Value) -> Result<Vec<Vec<Rational32>>> {
                 if numer < 0 || denom < 0 {
                     return err!(Error::Value("negative weights do not make sense".to_string()));
                 }
+                if denom == 0 {
+                    return err!(Error::Value(format!("weight {numer}/{denom} divides by zero")));
+                }
                 if numer > denom {
                     return err!(Error::Value(format!("weight {numer}/{denom} > 1")));
                 }
-- 
2.43.0


From bb8919a3daaba7ec1a39be9a76a8c82384c7f151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:50 +0000
Subject: [PATCH 11/36] fix: refuse threshold weights with more than one
 fraction separator

---
 src/cesr/core/tholder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cesr/core/tholder.rs b/src/cesr/core/tholder.rs
index fc3ef77..2665d7a 100644
--- a/src/cesr/core/tholder.rs
+++ b/src/cesr/core/tholder.rs
@@ -39,9 +39,9 @@ fn values_to_rationals(value: &Value) -> Result<Vec<Vec<Rational32>>> {
             let parts: Vec<&str> = weight.split(separator).collect();
             if parts.len() != 2 {
                 // must be 0 or 1
-                if parts[0] == "0" {
+                if weight == "0" {
                     clause.push(Rational32::new(0, 1));
-                } else if parts[0] == "1" {
+                } else if weight == "1" {
                     clause.push(Rational32::new(1, 1));
                 } else {
                     return err!(Error::Value("integral weight must be 0 or 1".to_string()));
-- 
2.43.0


From 3c6785be6ab9a443caa60dc5a2c2e953a9d0ce31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:05 +0000
Subject: [PATCH 12/36] fix: add up threshold weights without overflow

---
 src/cesr/core/tholder.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/cesr/core/tholder.rs b/src/cesr/core/tholder.rs
index 2665d7a..8dd149b 100644
--- a/src/cesr/core/tholder.rs
+++ b/src/cesr/core/tholder.rs
@@ -9,7 +9,7 @@ use crate::{
 };
 
 use lazy_static::lazy_static;
-use num_rational::Rational32;
+use num_rational::{BigRational, Rational32};
 
 #[derive(Debug, Clone, PartialEq)]
 pub struct Tholder {
@@ -26,6 +26,11 @@ impl Default for Tholder {
     }
 }
 
+// sums of weights with different denominators do not fit a fixed size
+fn rational_to_big(weight: &Rational32) -> BigRational {
+    BigRational::new((*weight.numer()).into(), (*weight.denom()).into())
+}
+
 fn values_to_rationals(value: &Value) -> Result<Vec<Vec<Rational32>>> {
     let threshold = value.to_vec()?;
     let separator = "/";
@@ -65,13 +70,13 @@ fn values_to_rationals(value: &Value) -> Result<Vec<Vec<Rational32>>> {
     }
 
     for clause in &*clauses {
-        let mut sum = Rational32::new(0, 1);
+        let mut sum = rational_to_big(&Rational32::new(0, 1));
 
         for weight in clause {
-            sum += weight;
+            sum += rational_to_big(weight);
         }
 
-        if sum < Rational32::new(1, 1) {
+        if sum < rational_to_big(&Rational32::new(1, 1)) {
             return err!(Error::Value(format!(
                 "invalid sith clause = {}, clause weight sums must be >= 1",
                 value.to_json()?
@@ -218,7 +223,7 @@ impl Tholder {
 
     fn satisfy_weighted(&self, indices: &[u32]) -> Result<bool> {
         lazy_static! {
-            static ref RATIONAL_ONE: Rational32 = Rational32::new(1, 1);
+            static ref RATIONAL_ONE: BigRational = rational_to_big(&Rational32::new(1, 1));
         }
 
         let mut indices = indices.to_vec();
@@ -234,10 +239,10 @@ impl Tholder {
 
         let mut wio: usize = 0;
         for clause in clauses {
-            let mut cw = Rational32::new(0, 1);
+            let mut cw = rational_to_big(&Rational32::new(0, 1));
             for weight in clause {
                 if sats[wio] {
-                    cw += weight;
+                    cw += rational_to_big(&weight);
                 }
                 wio += 1;
             }
-- 
2.43.0


From ed31d25fdaadd1c8ed591dbcfaaeda938335e2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:37 +0000
Subject: [PATCH 13/36] fix: report a weighted threshold unsatisfied for an
 index beyond its list instead of panicking

---
 src/cesr/core/tholder.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cesr/core/tholder.rs b/src/cesr/core/tholder.rs
index 8dd149b..ab44997 100644
--- a/src/cesr/core/tholder.rs
+++ b/src/cesr/core/tholder.rs
@@ -232,7 +232,10 @@ impl Tholder {
 
         let mut sats = vec![false; self.size() as usize];
         for index in indices {
-            sats[index as usize] = true
+            match sats.get_mut(index as usize) {
+                Some(sat) => *sat = true,
+                None => return Ok(false),
+            }
         }
 
         let clauses = values_to_rationals(&self.thold())?;
-- 
2.43.0


From 183a276045a4c6a4de365c330046405c51a58095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:50 +0000
Subject: [PATCH 14/36] fix: refuse an empty weighted threshold, which nobody's
 signature would satisfy

---
 src/cesr/core/tholder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cesr/core/tholder.rs b/src/cesr/core/tholder.rs
index ab44997..b71d249 100644
--- a/src/cesr/core/tholder.rs
+++ b/src/cesr/core/tholder.rs
@@ -378,6 +378,10 @@ impl Tholder {
 
     fn process_weighted(&mut self, thold: &Value) -> Result<()> {
         let threshold = &values_to_rationals(thold)?;
+        if threshold.is_empty() {
+            return err!(Error::Value("empty weight list".to_string()));
+        }
+
         let mut size = 0;
         for clause in threshold {
             size += clause.len() as u32;
-- 
2.43.0


From 77755de1bb0e395fe8eeded1d2199e58a2fe9a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:06 +0000
Subject: [PATCH 15/36] fix: count a repeated key index once toward a numeric
 threshold

---
 src/cesr/core/tholder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cesr/core/tholder.rs b/src/cesr/core/tholder.rs
index b71d249..f473432 100644
--- a/src/cesr/core/tholder.rs
+++ b/src/cesr/core/tholder.rs
@@ -214,6 +214,10 @@ impl Tholder {
     fn satisfy_numeric(&self, indices: &[u32]) -> Result<bool> {
         let thold = self.thold().to_i64()?;
 
+        let mut indices = indices.to_vec();
+        indices.sort();
+        indices.dedup();
+
         if thold > 0 && indices.len() >= thold as usize {
             return Ok(true);
         }
-- 
2.43.0


From b759e5190ccad7f228573aac0207c777faa6cf48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:38 +0000
Subject: [PATCH 16/36] fix: refuse Base64 numbers that do not fit instead of
 dropping their high bits

---
 src/cesr/core/util.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cesr/core/util.rs b/src/cesr/core/util.rs
index 7508445..ad49e3a 100644
--- a/src/cesr/core/util.rs
+++ b/src/cesr/core/util.rs
@@ -157,6 +157,10 @@ pub fn b64_to_u32(b64: &str) -> Result<u32> {
     let mut out: u32 = 0;
 
     for c in b64.chars() {
+        if out >> 26 != 0 {
+            return err!(Error::Conversion(format!("base64 number too large: '{b64}'")));
+        }
+
         out = (out << 6) + (b64_char_to_index(c)? as u32);
     }
 
@@ -167,6 +171,10 @@ pub fn b64_to_u64(b64: &str) -> Result<u64> {
     let mut out: u64 = 0;
 
     for c in b64.chars() {
+        if out >> 58 != 0 {
+            return err!(Error::Conversion(format!("base64 number too large: '{b64}'")));
+        }
+
         out = (out << 6) + (b64_char_to_index(c)? as u64);
     }
 
-- 
2.43.0


From d99f6f2e75d9ef656924207c6485e99d471a2336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:55 +0000
Subject: [PATCH 17/36] fix: convert every JSON number without a panic or a
 loss

---
 src/data.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/data.rs b/src/data.rs
index b96be4d..834e8cb 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -16,7 +16,7 @@ pub type Object = IndexMap<String, Value>;
 #[derive(Debug, PartialEq, Clone)]
 pub struct Number {
     f: f64,
-    i: i64,
+    i: i128,
     float: bool,
 }
 
@@ -28,7 +28,13 @@ impl From<f64> for Number {
 
 impl From<i64> for Number {
     fn from(i: i64) -> Self {
-        Self { f: 0.0, i, float: false }
+        Self { f: 0.0, i: i as i128, float: false }
+    }
+}
+
+impl From<u64> for Number {
+    fn from(i: u64) -> Self {
+        Self { f: 0.0, i: i as i128, float: false }
     }
 }
 
@@ -67,7 +73,7 @@ impl Value {
                     ));
                 }
 
-                Ok(number.i)
+                Ok(i64::try_from(number.i)?)
             }
             _ => err!(CESRError::Conversion("cannot convert to integer".to_string())),
         }
@@ -284,10 +290,12 @@ impl From<&JsonValue> for Value {
             JsonValue::Null => Self::Null,
             JsonValue::Bool(b) => Self::Boolean(*b),
             JsonValue::Number(n) => {
-                if n.to_string().contains('.') {
-                    Self::Number(Number::from(n.as_f64().unwrap()))
+                if let Some(i) = n.as_i64() {
+                    Self::Number(Number::from(i))
+                } else if let Some(i) = n.as_u64() {
+                    Self::Number(Number::from(i))
                 } else {
-                    Self::Number(Number::from(n.as_i64().unwrap()))
+                    Self::Number(Number::from(n.as_f64().unwrap()))
                 }
             }
             JsonValue::String(s) => Self::String(s.clone()),
@@ -338,7 +346,7 @@ impl TryFrom<&Value> for i64 {
         match v {
             Value::Number(n) => {
                 if !n.float {
-                    Ok(n.i)
+                    Ok(i64::try_from(n.i)?)
                 } else {
                     Ok(n.f as i64)
                 }
-- 
2.43.0


From 6e8b06fd35809c81bb6b2ed914f560b70310aed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:20 +0000
Subject: [PATCH 18/36] fix: refuse a serialization shorter than its version
 string says instead of panicking

---
 src/cesr/core/common.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/cesr/core/common.rs b/src/cesr/core/common.rs
index bac8701..dca918c 100644
--- a/src/cesr/core/common.rs
+++ b/src/cesr/core/common.rs
@@ -244,6 +244,13 @@ pub(crate) fn loads(raw: &[u8], size: Option<u32>, kind: Option<&str>) -> Result
     let kind = kind.unwrap_or(Serialage::JSON);
 
     if let Some(size) = size {
+        if raw.len() < size as usize {
+            return err!(Error::Shortage(format!(
+                "need more bytes: raw size = {}, size = {size}",
+                raw.len()
+            )));
+        }
+
         match kind {
             Serialage::JSON => {
                 let v: serde_json::Value =
-- 
2.43.0


From 8fb3e22aa80b889a44e7ed96d3dd2d9afa26b9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:36 +0000
Subject: [PATCH 19/36] fix: sniff a serialization that is followed by binary
 or non-UTF-8 material

---
 src/cesr/core/common.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/cesr/core/common.rs b/src/cesr/core/common.rs
index dca918c..7180585 100644
--- a/src/cesr/core/common.rs
+++ b/src/cesr/core/common.rs
@@ -2,7 +2,7 @@ use crate::data::{dat, Value};
 use crate::error::{err, Error, Result};
 
 use lazy_static::lazy_static;
-use regex::Regex;
+use regex::{bytes::Regex as BytesRegex, Regex};
 
 #[derive(Debug, Clone, PartialEq)]
 pub struct SizeifyResult {
@@ -281,6 +281,7 @@ pub(crate) fn dumps(ked: &Value, kind: Option<&str>) -> Result<Vec<u8>> {
 pub fn sniff(raw: &[u8]) -> Result<SniffResult> {
     lazy_static! {
         static ref REVER: Regex = Regex::new(REVER_STRING).unwrap();
+        static ref BREVER: BytesRegex = BytesRegex::new(REVER_STRING).unwrap();
     };
 
     if raw.len() < MINIMUM_SNIFF_SIZE {
@@ -290,8 +291,9 @@ pub fn sniff(raw: &[u8]) -> Result<SniffResult> {
         )));
     }
 
-    let raw = &String::from_utf8(raw.to_vec())?;
-    let start = match REVER.shortest_match(raw) {
+    // only the window a version string may be in, whatever bytes follow the serialization
+    let raw = &raw[..MINIMUM_SNIFF_SIZE];
+    let start = match BREVER.shortest_match(raw) {
         Some(m) => m - VERSION_FULL_SIZE,
         None => return err!(Error::Value(format!("invalid version string in raw = {raw:?}"))),
     };
@@ -302,7 +304,7 @@ pub fn sniff(raw: &[u8]) -> Result<SniffResult> {
         )));
     }
 
-    let vs = &raw[start..(start + VERSION_FULL_SIZE)];
+    let vs = std::str::from_utf8(&raw[start..(start + VERSION_FULL_SIZE)])?;
 
     let ident = REVER.replace_all(vs, "$ident").to_string();
     let major = u8::from_str_radix(&REVER.replace_all(vs, "$major"), 16)?;
-- 
2.43.0


From 9a7f0a43855436785b77c1b5cc1faf7648eadc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:11 +0000
Subject: [PATCH 20/36] fix: return an error for a missing document field
 instead of panicking

---
 src/cesr/core/creder.rs   |  6 +++---
 src/cesr/core/sadder.rs   |  6 +++---
 src/cesr/core/saider.rs   | 13 ++++++++++---
 src/cesr/core/serder.rs   |  6 +++---
 src/data.rs               | 11 +++++++++++
 src/prefexing/prefixer.rs |  4 ++--
 6 files changed, 32 insertions(+), 14 deletions(-)

diff --git a/src/cesr/core/creder.rs b/src/cesr/core/creder.rs
index c95215e..ad0f937 100644
--- a/src/cesr/core/creder.rs
+++ b/src/cesr/core/creder.rs
@@ -57,15 +57,15 @@ impl Creder {
     }
 
     pub fn issuer(&self) -> Result<String> {
-        self.ked()[Ids::i].to_string()
+        self.ked().get(Ids::i)?.to_string()
     }
 
     pub fn schema(&self) -> Result<String> {
-        self.ked()[Ids::s].to_string()
+        self.ked().get(Ids::s)?.to_string()
     }
 
     pub fn subject(&self) -> Value {
-        self.ked()[Ids::a].clone()
+        self.ked().get(Ids::a).cloned().unwrap_or(Value::Null)
     }
 
     pub fn status(&self) -> Result<Option<String>> {
diff --git a/src/cesr/core/sadder.rs b/src/cesr/core/sadder.rs
index ea3018a..36d52ba 100644
--- a/src/cesr/core/sadder.rs
+++ b/src/cesr/core/sadder.rs
@@ -114,7 +114,7 @@ pub trait Sadder: Default + Clone {
             None,
             None,
             None,
-            Some(&result.ked[Ids::d].to_string()?),
+            Some(&result.ked.get(Ids::d)?.to_string()?),
             None,
         )?);
 
@@ -144,7 +144,7 @@ pub trait Sadder: Default + Clone {
             None,
             None,
             None,
-            Some(&result.ked[Ids::d].to_string()?),
+            Some(&result.ked.get(Ids::d)?.to_string()?),
             None,
         )?);
 
@@ -174,7 +174,7 @@ pub trait Sadder: Default + Clone {
             None,
             None,
             None,
-            Some(&result.ked[Ids::d].to_string()?),
+            Some(&result.ked.get(Ids::d)?.to_string()?),
             None,
         )?);
 
diff --git a/src/cesr/core/saider.rs b/src/cesr/core/saider.rs
index 272cc74..ca7c000 100644
--- a/src/cesr/core/saider.rs
+++ b/src/cesr/core/saider.rs
@@ -61,7 +61,7 @@ fn derive(
     validate_code(code)?;
 
     let szg = matter::sizage(code)?;
-    let mut sad = sad.clone();
+    let mut sad = dat!(&sad.to_map()?);
 
     sad[label] = dat!(&String::from_utf8(vec![DUMMY; szg.fs as usize])?);
 
@@ -233,8 +233,15 @@ impl Saider {
             return Ok(false);
         }
 
-        if prefixed && sad[label].to_string()? != self.qb64()? {
-            return Ok(false);
+        if prefixed {
+            match sad.get(label) {
+                Ok(said) => {
+                    if said.to_string()? != self.qb64()? {
+                        return Ok(false);
+                    }
+                }
+                Err(_) => return Ok(false),
+            }
         }
 
         Ok(true)
diff --git a/src/cesr/core/serder.rs b/src/cesr/core/serder.rs
index 75445f1..de51a62 100644
--- a/src/cesr/core/serder.rs
+++ b/src/cesr/core/serder.rs
@@ -133,7 +133,7 @@ impl Serder {
     pub fn sner(&self) -> Result<Number> {
         let label = Ids::s;
 
-        Number::new(None, Some(&self.ked[label].to_string()?), None, None, None, None, None)
+        Number::new(None, Some(&self.ked.get(label)?.to_string()?), None, None, None, None, None)
     }
 
     pub fn sn(&self) -> Result<u128> {
@@ -173,7 +173,7 @@ impl Serder {
 
     pub fn pre(&self) -> Result<String> {
         let label = Ids::i;
-        self.ked[label].to_string()
+        self.ked.get(label)?.to_string()
     }
 
     pub fn preb(&self) -> Result<Vec<u8>> {
@@ -184,7 +184,7 @@ impl Serder {
         const ILKS: &[&str] = &[Ilkage::icp, Ilkage::rot, Ilkage::dip, Ilkage::drt];
 
         let label = Ids::t;
-        let ilk = self.ked[label].to_string()?;
+        let ilk = self.ked.get(label)?.to_string()?;
 
         Ok(ILKS.contains(&ilk.as_str()))
     }
diff --git a/src/data.rs b/src/data.rs
index 834e8cb..b239010 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -108,6 +108,17 @@ impl Value {
         }
     }
 
+    /// Value at a label of an object, an error when there is no such label
+    pub fn get(&self, label: &str) -> Result<&Value> {
+        match self {
+            Self::Object(map) => match map.get(label) {
+                Some(value) => Ok(value),
+                None => err!(CESRError::Value(format!("missing field labelled={label}"))),
+            },
+            _ => err!(CESRError::Conversion("cannot convert to map".to_string())),
+        }
+    }
+
     pub fn to_json(&self) -> Result<String> {
         Ok(match self {
             Self::Null => "null".to_string(),
diff --git a/src/prefexing/prefixer.rs b/src/prefexing/prefixer.rs
index de69308..db5dfc5 100644
--- a/src/prefexing/prefixer.rs
+++ b/src/prefexing/prefixer.rs
@@ -58,7 +58,7 @@ fn derive(ked: &Value, code: &str) -> Result<(Vec<u8>, String)> {
     const ILKS: &[&str] = &[Ilkage::icp, Ilkage::dip, Ilkage::vcp];
 
     let label = Ids::t;
-    let ilk = ked[label].to_string()?;
+    let ilk = ked.get(label)?.to_string()?;
     if !ILKS.contains(&ilk.as_str()) {
         return err!(Error::Value(format!("non-incepting ilk {ilk} found for prefix derivation")));
     }
@@ -334,7 +334,7 @@ impl Prefixer {
 
         let prefixed = prefixed.unwrap_or(false);
         let label = Ids::t;
-        let ilk = ked[label].to_string()?;
+        let ilk = ked.get(label)?.to_string()?;
         if !ILKS.contains(&ilk.as_str()) {
             return err!(Error::Value(format!(
                 "non-incepting ilk {ilk} found for prefix verification"
-- 
2.43.0


From 354740abc6dcb5be1d03951865e565baa2772d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:48 +0000
Subject: [PATCH 21/36] fix: cut pretty printed documents between characters
 instead of panicking

---
 src/cesr/core/sadder.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cesr/core/sadder.rs b/src/cesr/core/sadder.rs
index 36d52ba..8c9dc39 100644
--- a/src/cesr/core/sadder.rs
+++ b/src/cesr/core/sadder.rs
@@ -199,8 +199,11 @@ pub trait Sadder: Default + Clone {
         let v: serde_json::Value = serde_json::from_str(&self.ked().to_json()?)?;
         match serde_json::to_string_pretty(&v) {
             Ok(s) => {
-                let size = size.unwrap_or(1024);
+                let mut size = size.unwrap_or(1024);
                 if s.len() > size {
+                    while !s.is_char_boundary(size) {
+                        size -= 1;
+                    }
                     Ok(s[..size].to_string())
                 } else {
                     Ok(s)
-- 
2.43.0


From 05c5a6a8bd86c3aad7f83274ff34e2c352d4ae0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:05 +0000
Subject: [PATCH 22/36] fix: keep the field order when leaving out ignored
 fields of a self-addressed document

---
 src/cesr/core/saider.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cesr/core/saider.rs b/src/cesr/core/saider.rs
index ca7c000..53824b6 100644
--- a/src/cesr/core/saider.rs
+++ b/src/cesr/core/saider.rs
@@ -76,7 +76,7 @@ fn derive(
     let mut map = sad.to_map()?;
     for key in ignore.unwrap_or(&[]) {
         if map.contains_key(*key) {
-            map.remove(*key);
+            map.shift_remove(*key);
         }
     }
     let ser = dat!(&map);
-- 
2.43.0


From 5f80449157d045698cc826664d985d9b65b41a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:22 +0000
Subject: [PATCH 23/36] fix: derive non-transferable prefixes from events with
 empty lists

---
 src/prefexing/prefixer.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/prefexing/prefixer.rs b/src/prefexing/prefixer.rs
index db5dfc5..66fab5f 100644
--- a/src/prefexing/prefixer.rs
+++ b/src/prefexing/prefixer.rs
@@ -87,6 +87,13 @@ fn derive(ked: &Value, code: &str) -> Result<(Vec<u8>, String)> {
     }
 }
 
+fn is_empty(value: &Value) -> Result<bool> {
+    match value {
+        Value::Array(array) => Ok(array.is_empty()),
+        _ => Ok(value.to_string()?.is_empty()),
+    }
+}
+
 fn derive_nontransferable(ked: &Value, code: &str) -> Result<(Vec<u8>, String)> {
     let ked = ked.clone();
     let map = ked.to_map()?;
@@ -112,17 +119,17 @@ fn derive_nontransferable(ked: &Value, code: &str) -> Result<(Vec<u8>, String)>
     }
 
     let label = Ids::n;
-    if map.contains_key(label) && !ked[label].to_string()?.is_empty() {
+    if map.contains_key(label) && !is_empty(&ked[label])? {
         return err!(Error::Derivation("non-empty nxt for transferable derivation".to_string()));
     }
 
     let label = Ids::b;
-    if map.contains_key(label) && !ked[label].to_string()?.is_empty() {
+    if map.contains_key(label) && !is_empty(&ked[label])? {
         return err!(Error::Derivation("non-empty 'b' for transferable derivation".to_string()));
     }
 
     let label = Ids::a;
-    if map.contains_key(label) && !ked[label].to_string()?.is_empty() {
+    if map.contains_key(label) && !is_empty(&ked[label])? {
         return err!(Error::Derivation("non-empty 'a' for transferable derivation".to_string()));
     }
 
-- 
2.43.0


From 554e300adc4844fd2b908d085e6f2eae35b2ec72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:39 +0000
Subject: [PATCH 24/36] fix: refuse to size a document where another text would
 be taken for its version string

---
 src/cesr/core/common.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cesr/core/common.rs b/src/cesr/core/common.rs
index 7180585..f8157db 100644
--- a/src/cesr/core/common.rs
+++ b/src/cesr/core/common.rs
@@ -211,6 +211,11 @@ pub fn sizeify(ked: &Value, kind: Option<&str>) -> Result<SizeifyResult> {
     let mut ked = ked.clone();
     ked["v"] = dat!(&vs);
 
+    if raw != dumps(&ked, Some(&kind))? {
+        // something that looks like a version string precedes the version string
+        return err!(Error::Value(format!("misplaced version string in raw = {raw:?}")));
+    }
+
     Ok(SizeifyResult { raw, ident: result.ident, kind, ked, version: result.version })
 }
 
-- 
2.43.0


From f6423cdca9a1095a950ca6fcdcf47056f626897b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:32 +0000
Subject: [PATCH 25/36] fix: strip exactly a leading path, whatever parts it
 shares with the rest

---
 src/pathing/pather.rs | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/src/pathing/pather.rs b/src/pathing/pather.rs
index 71a5cbe..5891b79 100644
--- a/src/pathing/pather.rs
+++ b/src/pathing/pather.rs
@@ -134,22 +134,13 @@ impl Pather {
     }
 
     pub fn strip(&self, root: &Self) -> Result<Self> {
-        let mut root_path = root.path()?.to_vec()?;
-        let mut path = self.path()?.to_vec()?;
+        let root_path = root.path()?.to_vec()?;
+        let path = self.path()?.to_vec()?;
 
-        let hashmap: std::collections::HashMap<String, usize> =
-            path.iter().enumerate().map(|(x, y)| (y.to_string().unwrap(), x)).collect();
-
-        if root_path.len() > path.len() {
-            return Ok(self.clone());
-        }
-
-        root_path.reverse();
-        for p in root_path {
-            path.remove(hashmap[&p.to_string()?]);
+        match path.strip_prefix(root_path.as_slice()) {
+            Some(path) => Pather::new_with_path(&dat!(path)),
+            None => Ok(self.clone()),
         }
-
-        Pather::new_with_path(&dat!(path.as_slice()))
     }
 
     pub fn starts_with(&self, path: &Self) -> Result<bool> {
-- 
2.43.0


From ac84c44d32447b1b552ed362bc4d14894d8f2433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:46 +0000
Subject: [PATCH 26/36] fix: compare leading paths by their parts, not their
 text

---
 src/pathing/pather.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pathing/pather.rs b/src/pathing/pather.rs
index 5891b79..e060e9f 100644
--- a/src/pathing/pather.rs
+++ b/src/pathing/pather.rs
@@ -144,7 +144,7 @@ impl Pather {
     }
 
     pub fn starts_with(&self, path: &Self) -> Result<bool> {
-        Ok(self.bext()?.starts_with(&path.bext()?))
+        Ok(self.path()?.to_vec()?.starts_with(&path.path()?.to_vec()?))
     }
 
     pub fn resolve(&self, sad: &Value) -> Result<Value> {
-- 
2.43.0


From 8e21d82a5f63fb962b15c6e4fa20945bf935202b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:19 +0000
Subject: [PATCH 27/36] fix: derive keys of a salty creator at the tier of its
 salter

---
 src/signify/creating.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/signify/creating.rs b/src/signify/creating.rs
index 5b4c116..124fa74 100644
--- a/src/signify/creating.rs
+++ b/src/signify/creating.rs
@@ -56,6 +56,7 @@ impl SaltyCreator {
         } else {
             salty_creator.salter = Salter::new(tier, None, None, None, salt, None).unwrap();
         }
+        salty_creator.tier = salty_creator.salter.tier();
 
         Ok(salty_creator)
     }
-- 
2.43.0


From 67a99033fac141ecc55084743ac2479add54bb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:33 +0000
Subject: [PATCH 28/36] fix: refuse a malformed salt for a salty creator
 instead of panicking

---
 src/signify/creating.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/signify/creating.rs b/src/signify/creating.rs
index 124fa74..e28da40 100644
--- a/src/signify/creating.rs
+++ b/src/signify/creating.rs
@@ -54,7 +54,7 @@ impl SaltyCreator {
         if let Some(s) = salter {
             salty_creator.salter = s;
         } else {
-            salty_creator.salter = Salter::new(tier, None, None, None, salt, None).unwrap();
+            salty_creator.salter = Salter::new(tier, None, None, None, salt, None)?;
         }
         salty_creator.tier = salty_creator.salter.tier();
 
-- 
2.43.0


From 4151b374bca7c4fc7c12ea31b2945522c0401165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:47 +0000
Subject: [PATCH 29/36] fix: number the keys of a salty creator past 65535
 instead of overflowing

---
 src/signify/creating.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/signify/creating.rs b/src/signify/creating.rs
index e28da40..22b5985 100644
--- a/src/signify/creating.rs
+++ b/src/signify/creating.rs
@@ -104,7 +104,7 @@ impl SaltyCreator {
 
         let mut signers = vec![];
         for (i, c) in codes.iter().enumerate() {
-            let path = format!("{}{:x}{:x}", stem, &ridx, kidx + i as u16);
+            let path = format!("{}{:x}{:x}", stem, &ridx, kidx as usize + i);
             signers.push(
                 self.salter
                     .signer(Some(c), Some(transferable), Some(&path), Some(&self.tier), Some(temp))
-- 
2.43.0


From 3b3b8fd9610840de120e8ff5ff09c447768c7478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:44 +0000
Subject: [PATCH 30/36] fix: refuse datetimes that would be cut short or read
 back changed

---
 src/cesr/core/dater.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/cesr/core/dater.rs b/src/cesr/core/dater.rs
index b4f1cc6..2efa518 100644
--- a/src/cesr/core/dater.rs
+++ b/src/cesr/core/dater.rs
@@ -54,7 +54,18 @@ impl Dater {
         let dater: Self = if raw.is_none() && qb64b.is_none() && qb64.is_none() && qb2.is_none() {
             let b64 = if let Some(dts) = dts { iso_8601_to_b64(dts) } else { now_as_b64() };
             let qb64 = format!("{}{}", matter::Codex::DateTime, &b64);
-            Matter::new(code, raw, qb64b, Some(&qb64), qb2)?
+            let dater: Self = Matter::new(code, raw, qb64b, Some(&qb64), qb2)?;
+
+            // the primitive carries exactly 32 characters, of which 'c', 'd' and 'p' are stand-ins
+            if let Some(dts) = dts {
+                if dater.dts()? != dts {
+                    return err!(Error::Value(format!(
+                        "datetime cannot be carried: dts = '{dts}'"
+                    )));
+                }
+            }
+
+            dater
         } else {
             Matter::new(code, raw, qb64b, qb64, qb2)?
         };
-- 
2.43.0


From 745a3ef6219438cb406db896117f16602800f70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:20 +0000
Subject: [PATCH 31/36] fix: read qualified text that is followed by binary
 material

---
 src/cesr/core/counter/mod.rs | 4 ++--
 src/cesr/core/indexer/mod.rs | 4 ++--
 src/cesr/core/matter/mod.rs  | 4 ++--
 src/cesr/core/util.rs        | 9 +++++++++
 4 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/cesr/core/counter/mod.rs b/src/cesr/core/counter/mod.rs
index 655cc47..a650182 100644
--- a/src/cesr/core/counter/mod.rs
+++ b/src/cesr/core/counter/mod.rs
@@ -138,10 +138,10 @@ impl Counter {
     }
 
     pub fn new_with_qb64b(qb64b: &[u8]) -> Result<Self> {
-        let qb64 = String::from_utf8(qb64b.to_vec())?;
+        let qb64 = util::leading_text(qb64b)?;
 
         let mut counter: Counter = Default::default();
-        counter.exfil(&qb64)?;
+        counter.exfil(qb64)?;
         Ok(counter)
     }
 
diff --git a/src/cesr/core/indexer/mod.rs b/src/cesr/core/indexer/mod.rs
index 5797e7e..5cef4e1 100644
--- a/src/cesr/core/indexer/mod.rs
+++ b/src/cesr/core/indexer/mod.rs
@@ -159,10 +159,10 @@ pub trait Indexer: Default {
     where
         Self: Sized,
     {
-        let qb64 = String::from_utf8(qb64b.to_vec())?;
+        let qb64 = util::leading_text(qb64b)?;
 
         let mut i: Self = Self::default();
-        i.exfil(&qb64)?;
+        i.exfil(qb64)?;
         Ok(i)
     }
 
diff --git a/src/cesr/core/matter/mod.rs b/src/cesr/core/matter/mod.rs
index f3a93b7..f505e88 100644
--- a/src/cesr/core/matter/mod.rs
+++ b/src/cesr/core/matter/mod.rs
@@ -129,10 +129,10 @@ pub trait Matter: Default {
     where
         Self: Sized,
     {
-        let qb64 = String::from_utf8(qb64b.to_vec())?;
+        let qb64 = util::leading_text(qb64b)?;
 
         let mut matter = Self::default();
-        matter.exfil(&qb64)?;
+        matter.exfil(qb64)?;
         Ok(matter)
     }
 
diff --git a/src/cesr/core/util.rs b/src/cesr/core/util.rs
index ad49e3a..99afb94 100644
--- a/src/cesr/core/util.rs
+++ b/src/cesr/core/util.rs
@@ -153,6 +153,15 @@ pub fn b64_slice(b64: &str, start: usize, end: usize) -> Result<&str> {
     }
 }
 
+/// Text that `bytes` starts with, up to any binary material that follows it in a stream.
+pub fn leading_text(bytes: &[u8]) -> Result<&str> {
+    match std::str::from_utf8(bytes) {
+        Ok(s) => Ok(s),
+        Err(e) if e.valid_up_to() > 0 => Ok(std::str::from_utf8(&bytes[..e.valid_up_to()])?),
+        Err(e) => Err(e.into()),
+    }
+}
+
 pub fn b64_to_u32(b64: &str) -> Result<u32> {
     let mut out: u32 = 0;
 
-- 
2.43.0


From a53f5567e40225c6e4827e14f5fe6814c55d52ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:55 +0000
Subject: [PATCH 32/36] hook: open message assembly and the random creator
 under cfg keride_verif

---
 src/messaging.rs        | 14 ++++++++++++++
 src/receipting.rs       | 12 ++++++++++++
 src/signify/creating.rs | 11 +++++++++++
 3 files changed, 37 insertions(+)

diff --git a/src/messaging.rs b/src/messaging.rs
index 6fd5a7c..db8ec43 100644
--- a/src/messaging.rs
+++ b/src/messaging.rs
@@ -64,3 +64,17 @@ fn messagize(
 
     Ok(message + &atc)
 }
+
+/// Opens `messagize` to the verification harness. The seal is given as its prefix, sequence number,
+/// digest and whether it is a last-event seal.
+#[cfg(keride_verif)]
+pub fn verif_messagize(
+    serder: &Serder,
+    sigers: Option<&[Siger]>,
+    seal: Option<(&str, &str, &str, Option<bool>)>,
+    wigers: Option<&[Siger]>,
+    cigars: Option<&[Cigar]>,
+) -> Result<String> {
+    let seal = seal.map(|(i, s, d, last)| Seal::new(i, s, d, last));
+    messagize(serder, sigers, seal.as_ref(), wigers, cigars)
+}
diff --git a/src/receipting.rs b/src/receipting.rs
index 64d7792..8ebb795 100644
--- a/src/receipting.rs
+++ b/src/receipting.rs
@@ -33,3 +33,15 @@ fn receipt(
 
     Serder::new_with_ked(&ked, None, None)
 }
+
+/// Opens `receipt` to the verification harness.
+#[cfg(keride_verif)]
+pub fn verif_receipt(
+    pre: &str,
+    sn: u128,
+    said: &str,
+    version: Option<&Version>,
+    kind: Option<&str>,
+) -> Result<Serder> {
+    receipt(pre, sn, said, version, kind)
+}
diff --git a/src/signify/creating.rs b/src/signify/creating.rs
index 22b5985..ed67fe4 100644
--- a/src/signify/creating.rs
+++ b/src/signify/creating.rs
@@ -157,6 +157,17 @@ impl RandyCreator {
     }
 }
 
+/// Opens the private functions of the random creator to the verification harness.
+#[cfg(keride_verif)]
+pub fn verif_randy_create(
+    codes: Option<Vec<&str>>,
+    count: Option<u16>,
+    code: Option<&str>,
+    transferable: Option<bool>,
+) -> Vec<Signer> {
+    RandyCreator::new().create(codes, count, code, transferable)
+}
+
 #[cfg(test)]
 mod test {
     use crate::cesr::{
-- 
2.43.0


From 1800d5ea4df6ec525e671d97d0f8cb8e0aae4450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:49 +0000
Subject: [PATCH 33/36] fix: report non-transferable P-256 keys as such

---
 src/cesr/core/matter/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cesr/core/matter/mod.rs b/src/cesr/core/matter/mod.rs
index f505e88..497ffee 100644
--- a/src/cesr/core/matter/mod.rs
+++ b/src/cesr/core/matter/mod.rs
@@ -174,8 +174,12 @@ pub trait Matter: Default {
     }
 
     fn transferable(&self) -> bool {
-        const CODES: &[&str] =
-            &[tables::Codex::Ed25519N, tables::Codex::ECDSA_256k1N, tables::Codex::Ed448N];
+        const CODES: &[&str] = &[
+            tables::Codex::Ed25519N,
+            tables::Codex::ECDSA_256k1N,
+            tables::Codex::ECDSA_256r1N,
+            tables::Codex::Ed448N,
+        ];
 
         !CODES.contains(&self.code().as_str())
     }
-- 
2.43.0


From 9ac66a606366f2cf53699dfed9be3811dbe64140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:17 +0000
Subject: [PATCH 34/36] fix: wipe the copies of seeds and salts made while
 importing, exporting, signing and deriving

---
 src/cesr/core/matter/mod.rs | 2 +-
 src/cesr/core/salter.rs     | 4 ++--
 src/cesr/core/util.rs       | 3 +++
 src/signing/signer.rs       | 8 ++++----
 4 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/cesr/core/matter/mod.rs b/src/cesr/core/matter/mod.rs
index 497ffee..37ed343 100644
--- a/src/cesr/core/matter/mod.rs
+++ b/src/cesr/core/matter/mod.rs
@@ -150,7 +150,7 @@ pub trait Matter: Default {
     }
 
     fn qb64b(&self) -> Result<Vec<u8>> {
-        Ok(self.qb64()?.as_bytes().to_vec())
+        Ok(self.qb64()?.into_bytes())
     }
 
     fn qb2(&self) -> Result<Vec<u8>> {
diff --git a/src/cesr/core/salter.rs b/src/cesr/core/salter.rs
index 161b2af..c8a1788 100644
--- a/src/cesr/core/salter.rs
+++ b/src/cesr/core/salter.rs
@@ -1,4 +1,4 @@
-use zeroize::{Zeroize, ZeroizeOnDrop};
+use zeroize::{Zeroize, ZeroizeOnDrop, Zeroizing};
 
 use crate::signing::signer::Signer;
 use crate::{
@@ -94,7 +94,7 @@ impl Salter {
         let path = path.unwrap_or("");
         let size = size.unwrap_or(32);
 
-        let seed = salt::stretch(path.as_bytes(), &self.raw(), size, tier)?;
+        let seed = salt::stretch(path.as_bytes(), &Zeroizing::new(self.raw()), size, tier)?;
 
         Ok(seed)
     }
diff --git a/src/cesr/core/util.rs b/src/cesr/core/util.rs
index 99afb94..382249b 100644
--- a/src/cesr/core/util.rs
+++ b/src/cesr/core/util.rs
@@ -284,6 +284,9 @@ pub fn nab_sextets(binary: &[u8], count: usize) -> Result<Vec<u8>> {
         return err!(Error::TooSmall(n - binary.len()));
     }
 
+    // only the bytes that hold the sextets are copied
+    let binary = &binary[..n];
+
     let bps = 3 - (binary.len() % 3);
     let mut padded = vec![0; binary.len() + bps];
     padded[..binary.len()].copy_from_slice(binary);
diff --git a/src/signing/signer.rs b/src/signing/signer.rs
index 383b79b..10577d4 100644
--- a/src/signing/signer.rs
+++ b/src/signing/signer.rs
@@ -1,4 +1,4 @@
-use zeroize::{Zeroize, ZeroizeOnDrop};
+use zeroize::{Zeroize, ZeroizeOnDrop, Zeroizing};
 
 use crate::cesr::core::{
     cigar::Cigar,
@@ -151,7 +151,7 @@ impl Signer {
             _ => return err!(Error::UnexpectedCode(self.code())),
         };
 
-        let sig = sign::sign(&self.code(), &self.raw(), ser)?;
+        let sig = sign::sign(&self.code(), &Zeroizing::new(self.raw()), ser)?;
         Cigar::new(Some(&self.verfer()), Some(code), Some(&sig), None, None, None)
     }
 
@@ -203,7 +203,7 @@ impl Signer {
             (code, Some(ondex))
         };
 
-        let sig = sign::sign(&self.code(), &self.raw(), ser)?;
+        let sig = sign::sign(&self.code(), &Zeroizing::new(self.raw()), ser)?;
         Siger::new(
             Some(&self.verfer()),
             Some(index),
@@ -221,7 +221,7 @@ impl Signer {
     }
 
     fn derive_and_assign_verfer(&mut self, transferable: bool) -> Result<()> {
-        self.verfer = derive_verfer(&self.code(), &self.raw(), transferable)?;
+        self.verfer = derive_verfer(&self.code(), &Zeroizing::new(self.raw()), transferable)?;
         Ok(())
     }
 }
-- 
2.43.0


From cd1e353d3c6e65927e5a668d4bb4cb4b145ed61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:18 +0000
Subject: [PATCH 35/36] fix: refuse a message whose signature lists are empty

---
 src/messaging.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/messaging.rs b/src/messaging.rs
index db8ec43..a90b7d1 100644
--- a/src/messaging.rs
+++ b/src/messaging.rs
@@ -21,6 +21,11 @@ fn messagize(
     let message = String::from_utf8(serder.raw())?;
     let mut atc = "".to_string();
 
+    // an empty list attaches nothing
+    let sigers = sigers.filter(|sigers| !sigers.is_empty());
+    let wigers = wigers.filter(|wigers| !wigers.is_empty());
+    let cigars = cigars.filter(|cigars| !cigars.is_empty());
+
     if sigers.is_none() && wigers.is_none() && cigars.is_none() {
         return err!(Error::Value("missing attached signatures".to_string()));
     }
-- 
2.43.0


From e2441c09538acaa5d0b726acedf87a7928618f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:20 +0000
Subject: [PATCH 36/36] fix: add up threshold weights without reducing every
 sum

---
 src/cesr/core/tholder.rs | 43 +++++++++++++++++++---------------------
 1 file changed, 20 insertions(+), 23 deletions(-)

diff --git a/src/cesr/core/tholder.rs b/src/cesr/core/tholder.rs
index f473432..557bc8a 100644
--- a/src/cesr/core/tholder.rs
+++ b/src/cesr/core/tholder.rs
@@ -8,8 +8,8 @@ use crate::{
     error::{err, Error, Result},
 };
 
-use lazy_static::lazy_static;
 use num_rational::{BigRational, Rational32};
+use std::collections::BTreeMap;
 
 #[derive(Debug, Clone, PartialEq)]
 pub struct Tholder {
@@ -26,9 +26,21 @@ impl Default for Tholder {
     }
 }
 
-// sums of weights with different denominators do not fit a fixed size
-fn rational_to_big(weight: &Rational32) -> BigRational {
-    BigRational::new((*weight.numer()).into(), (*weight.denom()).into())
+// sums of weights with different denominators do not fit a fixed size, and reducing every one of them
+// takes longer than it saves
+fn sums_to_one<'a>(weights: impl Iterator<Item = &'a Rational32>) -> bool {
+    let mut sums: BTreeMap<i32, i64> = BTreeMap::new();
+    for weight in weights {
+        *sums.entry(*weight.denom()).or_default() += i64::from(*weight.numer());
+    }
+
+    let (mut numer, mut denom) = BigRational::new_raw(0.into(), 1.into()).into_raw();
+    for (d, n) in sums {
+        numer = numer * d + &denom * n;
+        denom *= d;
+    }
+
+    numer >= denom
 }
 
 fn values_to_rationals(value: &Value) -> Result<Vec<Vec<Rational32>>> {
@@ -70,13 +82,7 @@ fn values_to_rationals(value: &Value) -> Result<Vec<Vec<Rational32>>> {
     }
 
     for clause in &*clauses {
-        let mut sum = rational_to_big(&Rational32::new(0, 1));
-
-        for weight in clause {
-            sum += rational_to_big(weight);
-        }
-
-        if sum < rational_to_big(&Rational32::new(1, 1)) {
+        if !sums_to_one(clause.iter()) {
             return err!(Error::Value(format!(
                 "invalid sith clause = {}, clause weight sums must be >= 1",
                 value.to_json()?
@@ -226,10 +232,6 @@ impl Tholder {
     }
 
     fn satisfy_weighted(&self, indices: &[u32]) -> Result<bool> {
-        lazy_static! {
-            static ref RATIONAL_ONE: BigRational = rational_to_big(&Rational32::new(1, 1));
-        }
-
         let mut indices = indices.to_vec();
         indices.sort();
         indices.dedup();
@@ -246,16 +248,11 @@ impl Tholder {
 
         let mut wio: usize = 0;
         for clause in clauses {
-            let mut cw = rational_to_big(&Rational32::new(0, 1));
-            for weight in clause {
-                if sats[wio] {
-                    cw += rational_to_big(&weight);
-                }
-                wio += 1;
-            }
-            if cw < *RATIONAL_ONE {
+            let signed = clause.iter().zip(&sats[wio..]).filter(|(_, sat)| **sat);
+            if !sums_to_one(signed.map(|(weight, _)| weight)) {
                 return Ok(false);
             }
+            wio += clause.len();
         }
 
         Ok(true)
-- 
2.43.0

