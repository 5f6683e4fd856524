From 1a877fd6dcc75923b6e7d4895a3350ad42978f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:57 +0000
Subject: [PATCH 01/18] fix: combine a field builder's bit offset with its
 pending bit width

---
 svd-rs/src/field.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svd-rs/src/field.rs b/svd-rs/src/field.rs
index 7fe336f..5919969 100644
--- a/svd-rs/src/field.rs
+++ b/svd-rs/src/field.rs
@@ -163,7 +163,7 @@ impl FieldInfoBuilder {
     pub fn bit_offset(mut self, value: u32) -> Self {
         if let Some(bit_range) = self.bit_range.as_mut() {
             bit_range.offset = value;
-        } else if let Some(width) = self.bit_offset {
+        } else if let Some(width) = self.bit_width {
             self.bit_range = Some(BitRange::from_offset_width(value, width));
             self.bit_width = None;
         } else {
-- 
2.43.0


From 199fd80c8d99961f9d598fc47577b0961192cf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:57 +0000
Subject: [PATCH 02/18] fix: keep derivedFrom given when modifying enumerated
 values

---
 svd-rs/src/enumeratedvalues.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/svd-rs/src/enumeratedvalues.rs b/svd-rs/src/enumeratedvalues.rs
index aff085f..7446546 100644
--- a/svd-rs/src/enumeratedvalues.rs
+++ b/svd-rs/src/enumeratedvalues.rs
@@ -114,6 +114,7 @@ impl EnumeratedValues {
         lvl: ValidateLevel,
     ) -> Result<(), SvdError> {
         if builder.derived_from.is_some() {
+            self.derived_from = builder.derived_from;
             self.name = None;
             self.usage = None;
             self.values = Vec::new();
-- 
2.43.0


From 5757a6475a8744567902d6c33a0aee1aaf12dafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:50 +0000
Subject: [PATCH 03/18] fix: report an empty writeConstraint instead of
 panicking

---
 svd-parser/src/writeconstraint.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/svd-parser/src/writeconstraint.rs b/svd-parser/src/writeconstraint.rs
index 38f46ac..3d63f6a 100644
--- a/svd-parser/src/writeconstraint.rs
+++ b/svd-parser/src/writeconstraint.rs
@@ -7,7 +7,9 @@ impl Parse for WriteConstraint {
     type Config = Config;
 
     fn parse(tree: &Node, _config: &Self::Config) -> Result<Self, Self::Error> {
-        let child = tree.first_element_child().unwrap();
+        let child = tree
+            .first_element_child()
+            .ok_or_else(|| SVDError::UnknownWriteConstraint.at(tree.id()))?;
         if child.next_sibling_element().is_some() {
             return Err(SVDError::MoreThanOneWriteConstraint.at(tree.id()));
         }
-- 
2.43.0


From 3dc0dc918c4b4a1eabeb6c08b94ed591c7d5d489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:50 +0000
Subject: [PATCH 04/18] fix: report a bit range too wide for u32 instead of
 overflowing

---
 svd-parser/src/bitrange.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/svd-parser/src/bitrange.rs b/svd-parser/src/bitrange.rs
index 0fb8ec4..315939e 100644
--- a/svd-parser/src/bitrange.rs
+++ b/svd-parser/src/bitrange.rs
@@ -89,7 +89,9 @@ impl Parse for BitRange {
         }
         Ok(Self {
             offset: start,
-            width: end - start + 1,
+            width: (end - start)
+                .checked_add(1)
+                .ok_or_else(|| SVDError::InvalidBitRange(InvalidBitRange::Size).at(tree.id()))?,
             range_type,
         })
     }
-- 
2.43.0


From b47b65c778329f9befef2fdb76f18f1ffe5ace1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:50 +0000
Subject: [PATCH 05/18] fix: report an invalid isDefault value

---
 svd-parser/src/enumeratedvalue.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/svd-parser/src/enumeratedvalue.rs b/svd-parser/src/enumeratedvalue.rs
index e83856e..effdb0e 100644
--- a/svd-parser/src/enumeratedvalue.rs
+++ b/svd-parser/src/enumeratedvalue.rs
@@ -1,5 +1,6 @@
 use super::*;
 use crate::svd::EnumeratedValue;
+use crate::types::BoolParse;
 
 impl Parse for EnumeratedValue {
     type Object = Self;
@@ -15,7 +16,7 @@ impl Parse for EnumeratedValue {
             .name(tree.get_child_text("name")?)
             .description(tree.get_child_text_opt("description")?)
             .value(optional::<u64>("value", tree, &())?)
-            .is_default(tree.get_child_bool("isDefault").ok())
+            .is_default(optional::<BoolParse>("isDefault", tree, &())?)
             .build(config.validate_level)
             .map_err(|e| SVDError::from(e).at(tree.id()))
     }
-- 
2.43.0


From 6dd03f7efb1bc88fee85dd0e3b23c9317f5d6307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:50 +0000
Subject: [PATCH 06/18] fix: reject reversed bit ranges in
 BitRange::from_bit_range

---
 svd-rs/src/bitrange.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svd-rs/src/bitrange.rs b/svd-rs/src/bitrange.rs
index 5741899..9bdcf08 100644
--- a/svd-rs/src/bitrange.rs
+++ b/svd-rs/src/bitrange.rs
@@ -70,7 +70,7 @@ impl BitRange {
         let lsb = parts.next()?.parse::<u32>().ok()?;
         Some(Self {
             offset: lsb,
-            width: msb - lsb + 1,
+            width: msb.checked_sub(lsb)?.checked_add(1)?,
             range_type: BitRangeType::BitRange,
         })
     }
-- 
2.43.0


From 0a3f65c191c32cd6136a4e46a5de6b942a29eddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:50 +0000
Subject: [PATCH 07/18] fix: sort offsets above i32::MAX correctly in
 descending order

---
 svd-encoder/src/device.rs     | 2 +-
 svd-encoder/src/peripheral.rs | 2 +-
 svd-encoder/src/register.rs   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/svd-encoder/src/device.rs b/svd-encoder/src/device.rs
index 378e653..7d73705 100644
--- a/svd-encoder/src/device.rs
+++ b/svd-encoder/src/device.rs
@@ -99,7 +99,7 @@ fn sort_peripherals(refs: &mut [&Peripheral], sorting: Option<Sorting>) {
         match sorting {
             Sorting::Offset => refs.sort_by_key(|p| p.base_address),
             Sorting::OffsetReversed => {
-                refs.sort_by_key(|p| -(p.base_address as i32));
+                refs.sort_by_key(|p| std::cmp::Reverse(p.base_address));
             }
             Sorting::Name => refs.sort_by_key(|p| &p.name),
         }
diff --git a/svd-encoder/src/peripheral.rs b/svd-encoder/src/peripheral.rs
index f464961..156331e 100644
--- a/svd-encoder/src/peripheral.rs
+++ b/svd-encoder/src/peripheral.rs
@@ -144,7 +144,7 @@ fn sort_register_cluster(refs: &mut [&RegisterCluster], sorting: Option<Sorting>
         match sorting {
             Sorting::Offset => refs.sort_by_key(|r| r.address_offset()),
             Sorting::OffsetReversed => {
-                refs.sort_by_key(|r| -(r.address_offset() as i32));
+                refs.sort_by_key(|r| std::cmp::Reverse(r.address_offset()));
             }
             Sorting::Name => refs.sort_by_key(|r| r.name()),
         }
diff --git a/svd-encoder/src/register.rs b/svd-encoder/src/register.rs
index b4b4aa8..2418c97 100644
--- a/svd-encoder/src/register.rs
+++ b/svd-encoder/src/register.rs
@@ -116,7 +116,7 @@ fn sort_fields(refs: &mut [&Field], sorting: Option<Sorting>) {
         match sorting {
             Sorting::Offset => refs.sort_by_key(|f| f.bit_offset()),
             Sorting::OffsetReversed => {
-                refs.sort_by_key(|f| -(f.bit_offset() as i32));
+                refs.sort_by_key(|f| std::cmp::Reverse(f.bit_offset()));
             }
             Sorting::Name => refs.sort_by_key(|f| &f.name),
         }
-- 
2.43.0


From dda7b9dd440579f30aed2ff45cb0af5f87450daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:50 +0000
Subject: [PATCH 08/18] fix: derive the description of a cluster

---
 svd-rs/src/derive_from.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/svd-rs/src/derive_from.rs b/svd-rs/src/derive_from.rs
index 9578852..ef92c0a 100644
--- a/svd-rs/src/derive_from.rs
+++ b/svd-rs/src/derive_from.rs
@@ -13,6 +13,7 @@ pub trait DeriveFrom {
 impl DeriveFrom for ClusterInfo {
     fn derive_from(&self, other: &Self) -> Self {
         let mut derived = self.clone();
+        derived.description = derived.description.or_else(|| other.description.clone());
         derived.default_register_properties = derived
             .default_register_properties
             .derive_from(&other.default_register_properties);
-- 
2.43.0


From d8ea4a5ed15524538eec2648c270d2957d22229a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:50 +0000
Subject: [PATCH 09/18] fix: derive the datatype of a register

---
 svd-rs/src/derive_from.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/svd-rs/src/derive_from.rs b/svd-rs/src/derive_from.rs
index ef92c0a..2ba0239 100644
--- a/svd-rs/src/derive_from.rs
+++ b/svd-rs/src/derive_from.rs
@@ -72,6 +72,7 @@ impl DeriveFrom for RegisterInfo {
         let mut derived = self.clone();
         derived.description = derived.description.or_else(|| other.description.clone());
         derived.properties = derived.properties.derive_from(&other.properties);
+        derived.datatype = derived.datatype.or(other.datatype);
         derived.fields = derived.fields.or_else(|| other.fields.clone());
         derived.write_constraint = derived.write_constraint.or(other.write_constraint);
         derived.read_action = derived.read_action.or(other.read_action);
-- 
2.43.0


From c6bf945b603ad42534987c2816ee2def31a4e417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:50 +0000
Subject: [PATCH 10/18] fix: keep the scope of content inherited through a
 chain of derivedFrom

---
 svd-parser/src/expand.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/svd-parser/src/expand.rs b/svd-parser/src/expand.rs
index 73f418f..7236c32 100644
--- a/svd-parser/src/expand.rs
+++ b/svd-parser/src/expand.rs
@@ -412,7 +412,7 @@ pub fn derive_cluster(
     }
     *c = c.derive_from(d);
     if let Some(dpath) = d.derived_from.as_ref() {
-        cpath = derive_cluster(c, dpath, &rdpath, index)?;
+        cpath = derive_cluster(c, dpath, &rdpath, index)?.or(cpath);
     }
     Ok(cpath)
 }
@@ -447,7 +447,7 @@ pub fn derive_register(
     }
     *r = r.derive_from(d);
     if let Some(dpath) = d.derived_from.as_ref() {
-        rpath = derive_register(r, dpath, &rdpath, index)?;
+        rpath = derive_register(r, dpath, &rdpath, index)?.or(rpath);
     }
     Ok(rpath)
 }
@@ -482,7 +482,7 @@ pub fn derive_field(
     }
     *f = f.derive_from(d);
     if let Some(dpath) = d.derived_from.as_ref() {
-        fpath = derive_field(f, dpath, &rdpath, index)?;
+        fpath = derive_field(f, dpath, &rdpath, index)?.or(fpath);
     }
     Ok(fpath)
 }
@@ -647,7 +647,7 @@ pub fn derive_peripheral(
     }
     *p = p.derive_from(d);
     if let Some(dpath) = d.derived_from.as_ref() {
-        path = derive_peripheral(p, dpath, index)?;
+        path = derive_peripheral(p, dpath, index)?.or(path);
     }
     Ok(path)
 }
-- 
2.43.0


From c0631366af8f2619d4aae2c69f47a73c2e820625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:50 +0000
Subject: [PATCH 11/18] fix: accept a missing dimIndex when deserializing

---
 svd-rs/src/dimelement.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/svd-rs/src/dimelement.rs b/svd-rs/src/dimelement.rs
index b351f05..5dfedc6 100644
--- a/svd-rs/src/dimelement.rs
+++ b/svd-rs/src/dimelement.rs
@@ -22,6 +22,7 @@ pub struct DimElement {
     #[cfg_attr(
         feature = "serde",
         serde(
+            default,
             deserialize_with = "ser_de::deserialize_dim_index",
             serialize_with = "ser_de::serialize_dim_index",
             skip_serializing_if = "Option::is_none"
-- 
2.43.0


From 2a5c03933825fae7d2737ccf5fb649a37090cafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:13 +0000
Subject: [PATCH 12/18] fix: resolve a field's derivedFrom given as
 REGISTER.FIELD instead of panicking

---
 svd-parser/src/expand.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/svd-parser/src/expand.rs b/svd-parser/src/expand.rs
index 7236c32..d3d87a8 100644
--- a/svd-parser/src/expand.rs
+++ b/svd-parser/src/expand.rs
@@ -458,7 +458,15 @@ pub fn derive_field(
     rpath: &RegisterPath,
     index: &Index,
 ) -> Result<Option<FieldPath>> {
-    let (dregister, dname) = FieldPath::parse_str(dpath);
+    let (dregister, dname) = match dpath.rsplit_once('.') {
+        Some((dregister, dname)) => {
+            let (dblock, rname) = RegisterPath::parse_str(dregister);
+            // REG.FIELD: register of the same block
+            let dblock = dblock.unwrap_or_else(|| rpath.block.clone());
+            (Some(dblock.new_register(rname)), dname)
+        }
+        None => (None, dpath),
+    };
     let rdpath;
     let field_path;
     if let Some(dregister) = dregister {
-- 
2.43.0


From 17780733a0667eac334c31797b9a5f9c180d16ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:39 +0000
Subject: [PATCH 13/18] fix: reject a bit range with more than two parts

---
 svd-parser/src/bitrange.rs | 8 ++++++--
 svd-rs/src/bitrange.rs     | 3 +++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/svd-parser/src/bitrange.rs b/svd-parser/src/bitrange.rs
index 315939e..f1f2717 100644
--- a/svd-parser/src/bitrange.rs
+++ b/svd-parser/src/bitrange.rs
@@ -31,7 +31,7 @@ impl Parse for BitRange {
                 }
 
                 let mut parts = text[1..text.len() - 1].split(':');
-                (
+                let range = (
                     parts
                         .next()
                         .ok_or_else(|| {
@@ -51,7 +51,11 @@ impl Parse for BitRange {
                             SVDError::InvalidBitRange(InvalidBitRange::ParseError).at(tree.id())
                         })?,
                     BitRangeType::BitRange,
-                )
+                );
+                if parts.next().is_some() {
+                    return Err(SVDError::InvalidBitRange(InvalidBitRange::Syntax).at(tree.id()));
+                }
+                range
             // TODO: Consider matching instead so we can say which of these tags are missing
             } else if let (Some(lsb), Some(msb)) = (tree.get_child("lsb"), tree.get_child("msb")) {
                 (
diff --git a/svd-rs/src/bitrange.rs b/svd-rs/src/bitrange.rs
index 9bdcf08..7a9a4c9 100644
--- a/svd-rs/src/bitrange.rs
+++ b/svd-rs/src/bitrange.rs
@@ -68,6 +68,9 @@ impl BitRange {
         let mut parts = text[1..text.len() - 1].split(':');
         let msb = parts.next()?.parse::<u32>().ok()?;
         let lsb = parts.next()?.parse::<u32>().ok()?;
+        if parts.next().is_some() {
+            return None;
+        }
         Some(Self {
             offset: lsb,
             width: msb.checked_sub(lsb)?.checked_add(1)?,
-- 
2.43.0


From 0bf333c9d424ed5669b69abfb40a24dbdd34d5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:42 +0000
Subject: [PATCH 14/18] fix: report reversed msb and lsb when deserializing a
 bit range

---
 svd-rs/src/bitrange.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/svd-rs/src/bitrange.rs b/svd-rs/src/bitrange.rs
index 7a9a4c9..f6cffda 100644
--- a/svd-rs/src/bitrange.rs
+++ b/svd-rs/src/bitrange.rs
@@ -142,7 +142,12 @@ mod ser_de {
                     bit_offset,
                     bit_width,
                 } => Ok(BitRange::from_offset_width(bit_offset, bit_width)),
-                SerBitRange::MsbLsb { msb, lsb } => Ok(BitRange::from_msb_lsb(msb, lsb)),
+                SerBitRange::MsbLsb { msb, lsb } => {
+                    if msb.checked_sub(lsb).and_then(|w| w.checked_add(1)).is_none() {
+                        return Err(serde::de::Error::custom("Invalid msb and lsb"));
+                    }
+                    Ok(BitRange::from_msb_lsb(msb, lsb))
+                }
             }
         }
     }
-- 
2.43.0


From d5b785976ff7bfd212fedbc844b2074e158a2fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:50 +0000
Subject: [PATCH 15/18] fix: msb of a bit range ending at the last
 representable bit overflowed

---
 svd-rs/src/bitrange.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svd-rs/src/bitrange.rs b/svd-rs/src/bitrange.rs
index f6cffda..6527a0c 100644
--- a/svd-rs/src/bitrange.rs
+++ b/svd-rs/src/bitrange.rs
@@ -37,7 +37,7 @@ impl BitRange {
     }
     /// Get the position of the most significant bit
     pub fn msb(&self) -> u32 {
-        self.offset + self.width - 1
+        self.offset + (self.width - 1)
     }
     /// Get the bit range in the format `[<msb>:<lsb>]`
     pub fn bit_range(&self) -> String {
-- 
2.43.0


From c5c2ef266e9984684bd32a9cc68dcd0c711e3832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:52 +0000
Subject: [PATCH 16/18] fix: indexes_as_range overflowed on an index list
 spanning all u32 values

---
 svd-rs/src/dimelement.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svd-rs/src/dimelement.rs b/svd-rs/src/dimelement.rs
index 5dfedc6..3bc7b4e 100644
--- a/svd-rs/src/dimelement.rs
+++ b/svd-rs/src/dimelement.rs
@@ -179,7 +179,7 @@ impl DimElement {
         }
         let min = *integers.iter().min()?;
         let max = *integers.iter().max()?;
-        if max - min + 1 != self.dim {
+        if max - min != self.dim - 1 {
             return None;
         }
         for (&i, r) in integers.iter().zip(min..=max) {
-- 
2.43.0


From 7c260bf59f1f311d98957cd741fdacb3bbf36ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:20 +0000
Subject: [PATCH 17/18] fix: derivation cycles overflowed the stack, and equal
 names in different scopes were taken for one

---
 svd-parser/src/expand.rs | 92 ++++++++++++++++++++++++++++++++++------
 1 file changed, 78 insertions(+), 14 deletions(-)

diff --git a/svd-parser/src/expand.rs b/svd-parser/src/expand.rs
index d3d87a8..d49c229 100644
--- a/svd-parser/src/expand.rs
+++ b/svd-parser/src/expand.rs
@@ -387,6 +387,18 @@ pub fn derive_cluster(
     dpath: &str,
     path: &BlockPath,
     index: &Index,
+) -> Result<Option<BlockPath>> {
+    let own = path.new_cluster(&c.name);
+    derive_cluster_chain(c, dpath, path, index, &mut vec![own])
+}
+
+/// `chain` contains the path of the derived cluster and of those it was already derived from
+fn derive_cluster_chain(
+    c: &mut Cluster,
+    dpath: &str,
+    path: &BlockPath,
+    index: &Index,
+    chain: &mut Vec<BlockPath>,
 ) -> Result<Option<BlockPath>> {
     let (dparent, dname) = BlockPath::parse_str(dpath);
     let rdpath;
@@ -398,9 +410,10 @@ pub fn derive_cluster(
         cluster_path = path.new_cluster(dname);
         rdpath = path.clone();
     }
-    if &rdpath == path && dname == &c.name {
+    if chain.contains(&cluster_path) {
         return Err(anyhow!("Cluster {cluster_path} is self-derived"));
     }
+    chain.push(cluster_path.clone());
     let d = index
         .clusters
         .get(&cluster_path)
@@ -412,7 +425,7 @@ pub fn derive_cluster(
     }
     *c = c.derive_from(d);
     if let Some(dpath) = d.derived_from.as_ref() {
-        cpath = derive_cluster(c, dpath, &rdpath, index)?.or(cpath);
+        cpath = derive_cluster_chain(c, dpath, &rdpath, index, chain)?.or(cpath);
     }
     Ok(cpath)
 }
@@ -422,6 +435,18 @@ pub fn derive_register(
     dpath: &str,
     path: &BlockPath,
     index: &Index,
+) -> Result<Option<RegisterPath>> {
+    let own = path.new_register(&r.name);
+    derive_register_chain(r, dpath, path, index, &mut vec![own])
+}
+
+/// `chain` contains the path of the derived register and of those it was already derived from
+fn derive_register_chain(
+    r: &mut Register,
+    dpath: &str,
+    path: &BlockPath,
+    index: &Index,
+    chain: &mut Vec<RegisterPath>,
 ) -> Result<Option<RegisterPath>> {
     let (dblock, dname) = RegisterPath::parse_str(dpath);
     let rdpath;
@@ -433,9 +458,10 @@ pub fn derive_register(
         reg_path = path.new_register(dname);
         rdpath = path.clone();
     }
-    if &rdpath == path && dname == &r.name {
+    if chain.contains(&reg_path) {
         return Err(anyhow!("Register {reg_path} is self-derived"));
     }
+    chain.push(reg_path.clone());
     let d = index
         .registers
         .get(&reg_path)
@@ -447,7 +473,7 @@ pub fn derive_register(
     }
     *r = r.derive_from(d);
     if let Some(dpath) = d.derived_from.as_ref() {
-        rpath = derive_register(r, dpath, &rdpath, index)?.or(rpath);
+        rpath = derive_register_chain(r, dpath, &rdpath, index, chain)?.or(rpath);
     }
     Ok(rpath)
 }
@@ -457,6 +483,18 @@ pub fn derive_field(
     dpath: &str,
     rpath: &RegisterPath,
     index: &Index,
+) -> Result<Option<FieldPath>> {
+    let own = rpath.new_field(&f.name);
+    derive_field_chain(f, dpath, rpath, index, &mut vec![own])
+}
+
+/// `chain` contains the path of the derived field and of those it was already derived from
+fn derive_field_chain(
+    f: &mut Field,
+    dpath: &str,
+    rpath: &RegisterPath,
+    index: &Index,
+    chain: &mut Vec<FieldPath>,
 ) -> Result<Option<FieldPath>> {
     let (dregister, dname) = match dpath.rsplit_once('.') {
         Some((dregister, dname)) => {
@@ -476,9 +514,10 @@ pub fn derive_field(
         field_path = rpath.new_field(dname);
         rdpath = rpath.clone();
     }
-    if &rdpath == rpath && dname == &f.name {
+    if chain.contains(&field_path) {
         return Err(anyhow!("Field {field_path} is self-derived"));
     }
+    chain.push(field_path.clone());
     let d = index
         .fields
         .get(&field_path)
@@ -490,7 +529,7 @@ pub fn derive_field(
     }
     *f = f.derive_from(d);
     if let Some(dpath) = d.derived_from.as_ref() {
-        fpath = derive_field(f, dpath, &rdpath, index)?.or(fpath);
+        fpath = derive_field_chain(f, dpath, &rdpath, index, chain)?.or(fpath);
     }
     Ok(fpath)
 }
@@ -579,6 +618,18 @@ pub fn derive_enumerated_values(
     if Some(dpath) == ev.name.as_deref() {
         return Err(anyhow!("EnumeratedValues {fpath}.{dpath} is self-derived"));
     }
+    let own = ev.name.as_deref().map(|name| fpath.new_enum(name));
+    derive_enumerated_values_chain(ev, dpath, fpath, index, &mut own.into_iter().collect())
+}
+
+/// `chain` contains the path of the derived values and of those they were already derived from
+fn derive_enumerated_values_chain(
+    ev: &mut EnumeratedValues,
+    dpath: &str,
+    fpath: &FieldPath,
+    index: &Index,
+    chain: &mut Vec<EnumPath>,
+) -> Result<EnumPath> {
     let mut v: Vec<&str> = dpath.split('.').collect();
     let dname = v.pop().unwrap();
     let d = if v.is_empty() {
@@ -613,17 +664,18 @@ pub fn derive_enumerated_values(
             };
             FieldPath::new(rdpath, fdname)
         };
-        if &fdpath == fpath && Some(dname) == ev.name.as_deref() {
-            return Err(anyhow!("EnumeratedValues {fpath}.{dname} is self-derived"));
-        }
         let epath = EnumPath::new(fdpath, dname);
         index.evs.get(&epath).map(|d| (d, epath))
     };
 
     if let Some((d, epath)) = d {
+        if chain.contains(&epath) {
+            return Err(anyhow!("EnumeratedValues {epath} is self-derived"));
+        }
+        chain.push(epath.clone());
         *ev = ev.derive_from(d);
         if let Some(dpath) = d.derived_from.as_ref() {
-            derive_enumerated_values(ev, dpath, &epath.field, index)
+            derive_enumerated_values_chain(ev, dpath, &epath.field, index, chain)
         } else {
             Ok(epath)
         }
@@ -641,11 +693,23 @@ pub fn derive_peripheral(
     dpath: &str,
     index: &Index,
 ) -> Result<Option<BlockPath>> {
-    if dpath == &p.name {
-        return Err(anyhow!("Peripheral {dpath} is self-derived"));
-    }
+    let own = BlockPath::new(&p.name);
+    derive_peripheral_chain(p, dpath, index, &mut vec![own])
+}
+
+/// `chain` contains the path of the derived peripheral and of those it was already derived from
+fn derive_peripheral_chain(
+    p: &mut Peripheral,
+    dpath: &str,
+    index: &Index,
+    chain: &mut Vec<BlockPath>,
+) -> Result<Option<BlockPath>> {
     let mut path = None;
     let derpath = BlockPath::new(dpath);
+    if chain.contains(&derpath) {
+        return Err(anyhow!("Peripheral {dpath} is self-derived"));
+    }
+    chain.push(derpath.clone());
     let d = index
         .peripherals
         .get(&derpath)
@@ -655,7 +719,7 @@ pub fn derive_peripheral(
     }
     *p = p.derive_from(d);
     if let Some(dpath) = d.derived_from.as_ref() {
-        path = derive_peripheral(p, dpath, index)?.or(path);
+        path = derive_peripheral_chain(p, dpath, index, chain)?.or(path);
     }
     Ok(path)
 }
-- 
2.43.0


From 157b4af69dbca5edeec4a39aa5960cc7c6299e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:04 +0000
Subject: [PATCH 18/18] fix: a cluster derived from one that encloses it was
 expanded without end

---
 svd-parser/src/expand.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/svd-parser/src/expand.rs b/svd-parser/src/expand.rs
index d49c229..64ed26e 100644
--- a/svd-parser/src/expand.rs
+++ b/svd-parser/src/expand.rs
@@ -341,14 +341,16 @@ impl<'a> Index<'a> {
     }
 }
 
+/// `outer` contains the paths the contents of the enclosing clusters come from
 fn expand_register_cluster(
     regs: &mut Vec<RegisterCluster>,
     rc: RegisterCluster,
     path: &BlockPath,
     index: &Index,
+    outer: &mut Vec<BlockPath>,
 ) -> Result<()> {
     match rc {
-        RegisterCluster::Cluster(c) => expand_cluster_array(regs, c, path, index)?,
+        RegisterCluster::Cluster(c) => expand_cluster_array(regs, c, path, index, outer)?,
         RegisterCluster::Register(r) => expand_register_array(regs, r, path, index)?,
     }
     Ok(())
@@ -359,17 +361,23 @@ fn expand_cluster_array(
     mut c: Cluster,
     path: &BlockPath,
     index: &Index,
+    outer: &mut Vec<BlockPath>,
 ) -> Result<()> {
     let mut cpath = None;
     let dpath = c.derived_from.take();
     if let Some(dpath) = dpath {
         cpath = derive_cluster(&mut c, &dpath, path, index)?;
     }
+    if let Some(cpath) = cpath.as_ref().filter(|cpath| outer.contains(cpath)) {
+        return Err(anyhow!("Cluster {cpath} contains itself"));
+    }
     let cpath = cpath.unwrap_or_else(|| path.new_cluster(&c.name));
 
+    outer.push(cpath.clone());
     for rc in take(&mut c.children) {
-        expand_register_cluster(&mut c.children, rc, &cpath, index)?;
+        expand_register_cluster(&mut c.children, rc, &cpath, index, outer)?;
     }
+    outer.pop();
 
     match c {
         Cluster::Single(c) => expand_cluster(regs, c),
@@ -741,7 +749,7 @@ pub fn expand(indevice: &Device) -> Result<Device> {
         let path = path.unwrap_or_else(|| BlockPath::new(&p.name));
         if let Some(regs) = p.registers.as_mut() {
             for rc in take(regs) {
-                expand_register_cluster(regs, rc, &path, &index)?;
+                expand_register_cluster(regs, rc, &path, &index, &mut Vec::new())?;
             }
         }
         match p {
-- 
2.43.0

