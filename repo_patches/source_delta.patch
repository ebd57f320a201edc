From 89c0698db775959b3511c3014dd1e0db44b520e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:07 +0000
Subject: [PATCH 01/19] fix: resolve content inherited through a chain where it
 is defined

A derived element whose supplier is itself derived forgot the path of the
element its content came from, so references inside that content were
looked up in the wrong place.
---
 svd-parser/src/expand.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/svd-parser/src/expand.rs b/svd-parser/src/expand.rs
index 73f418f..7236c32 100644
--- a/svd-parser/src/expand.rs
+++ b/svd-parser/src/expand.rs
@@ -412,7 +412,7 @@ pub fn derive_cluster(
     }
     *c = c.derive_from(d);
     if let Some(dpath) = d.derived_from.as_ref() {
-        cpath = derive_cluster(c, dpath, &rdpath, index)?;
+        cpath = derive_cluster(c, dpath, &rdpath, index)?.or(cpath);
     }
     Ok(cpath)
 }
@@ -447,7 +447,7 @@ pub fn derive_register(
     }
     *r = r.derive_from(d);
     if let Some(dpath) = d.derived_from.as_ref() {
-        rpath = derive_register(r, dpath, &rdpath, index)?;
+        rpath = derive_register(r, dpath, &rdpath, index)?.or(rpath);
     }
     Ok(rpath)
 }
@@ -482,7 +482,7 @@ pub fn derive_field(
     }
     *f = f.derive_from(d);
     if let Some(dpath) = d.derived_from.as_ref() {
-        fpath = derive_field(f, dpath, &rdpath, index)?;
+        fpath = derive_field(f, dpath, &rdpath, index)?.or(fpath);
     }
     Ok(fpath)
 }
@@ -647,7 +647,7 @@ pub fn derive_peripheral(
     }
     *p = p.derive_from(d);
     if let Some(dpath) = d.derived_from.as_ref() {
-        path = derive_peripheral(p, dpath, index)?;
+        path = derive_peripheral(p, dpath, index)?.or(path);
     }
     Ok(path)
 }
-- 
2.43.0


From b744c85e4fb4db5ee54f4e8ebec5aad001f1b032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:18 +0000
Subject: [PATCH 02/19] fix: report circular derivation instead of recursing
 without end

Cycles of derivedFrom longer than one element, and clusters that contain a
cluster derived from themselves, overflowed the stack. The check for
self-derivation also rejected chains that pass an element of the same name
in another block.
---
 svd-parser/src/expand.rs | 107 ++++++++++++++++++++++++++++++++-------
 1 file changed, 89 insertions(+), 18 deletions(-)

diff --git a/svd-parser/src/expand.rs b/svd-parser/src/expand.rs
index 7236c32..6184f73 100644
--- a/svd-parser/src/expand.rs
+++ b/svd-parser/src/expand.rs
@@ -346,9 +346,10 @@ fn expand_register_cluster(
     rc: RegisterCluster,
     path: &BlockPath,
     index: &Index,
+    parents: &mut Vec<BlockPath>,
 ) -> Result<()> {
     match rc {
-        RegisterCluster::Cluster(c) => expand_cluster_array(regs, c, path, index)?,
+        RegisterCluster::Cluster(c) => expand_cluster_array(regs, c, path, index, parents)?,
         RegisterCluster::Register(r) => expand_register_array(regs, r, path, index)?,
     }
     Ok(())
@@ -359,6 +360,7 @@ fn expand_cluster_array(
     mut c: Cluster,
     path: &BlockPath,
     index: &Index,
+    parents: &mut Vec<BlockPath>,
 ) -> Result<()> {
     let mut cpath = None;
     let dpath = c.derived_from.take();
@@ -367,9 +369,14 @@ fn expand_cluster_array(
     }
     let cpath = cpath.unwrap_or_else(|| path.new_cluster(&c.name));
 
+    if parents.contains(&cpath) {
+        return Err(anyhow!("Cluster {cpath} contains itself"));
+    }
+    parents.push(cpath.clone());
     for rc in take(&mut c.children) {
-        expand_register_cluster(&mut c.children, rc, &cpath, index)?;
+        expand_register_cluster(&mut c.children, rc, &cpath, index, parents)?;
     }
+    parents.pop();
 
     match c {
         Cluster::Single(c) => expand_cluster(regs, c),
@@ -382,11 +389,34 @@ fn expand_cluster_array(
     Ok(())
 }
 
+/// Fails if a chain of derived elements comes back to an element it already passed
+fn check_not_visited<T>(
+    visited: &mut Vec<*const T>,
+    d: &T,
+    path: &impl fmt::Display,
+) -> Result<()> {
+    if visited.iter().any(|v| std::ptr::eq(*v, d)) {
+        return Err(anyhow!("circular derivation through {path}"));
+    }
+    visited.push(d);
+    Ok(())
+}
+
 pub fn derive_cluster(
     c: &mut Cluster,
     dpath: &str,
     path: &BlockPath,
     index: &Index,
+) -> Result<Option<BlockPath>> {
+    derive_cluster_chain(c, dpath, path, index, &mut Vec::new())
+}
+
+fn derive_cluster_chain(
+    c: &mut Cluster,
+    dpath: &str,
+    path: &BlockPath,
+    index: &Index,
+    visited: &mut Vec<*const Cluster>,
 ) -> Result<Option<BlockPath>> {
     let (dparent, dname) = BlockPath::parse_str(dpath);
     let rdpath;
@@ -398,13 +428,14 @@ pub fn derive_cluster(
         cluster_path = path.new_cluster(dname);
         rdpath = path.clone();
     }
-    if &rdpath == path && dname == &c.name {
+    if visited.is_empty() && &rdpath == path && dname == &c.name {
         return Err(anyhow!("Cluster {cluster_path} is self-derived"));
     }
     let d = index
         .clusters
         .get(&cluster_path)
         .ok_or_else(|| anyhow!("cluster {} not found", dpath))?;
+    check_not_visited(visited, *d, &cluster_path)?;
 
     let mut cpath = None;
     if c.children.is_empty() {
@@ -412,7 +443,7 @@ pub fn derive_cluster(
     }
     *c = c.derive_from(d);
     if let Some(dpath) = d.derived_from.as_ref() {
-        cpath = derive_cluster(c, dpath, &rdpath, index)?.or(cpath);
+        cpath = derive_cluster_chain(c, dpath, &rdpath, index, visited)?.or(cpath);
     }
     Ok(cpath)
 }
@@ -422,6 +453,16 @@ pub fn derive_register(
     dpath: &str,
     path: &BlockPath,
     index: &Index,
+) -> Result<Option<RegisterPath>> {
+    derive_register_chain(r, dpath, path, index, &mut Vec::new())
+}
+
+fn derive_register_chain(
+    r: &mut Register,
+    dpath: &str,
+    path: &BlockPath,
+    index: &Index,
+    visited: &mut Vec<*const Register>,
 ) -> Result<Option<RegisterPath>> {
     let (dblock, dname) = RegisterPath::parse_str(dpath);
     let rdpath;
@@ -433,13 +474,14 @@ pub fn derive_register(
         reg_path = path.new_register(dname);
         rdpath = path.clone();
     }
-    if &rdpath == path && dname == &r.name {
+    if visited.is_empty() && &rdpath == path && dname == &r.name {
         return Err(anyhow!("Register {reg_path} is self-derived"));
     }
     let d = index
         .registers
         .get(&reg_path)
         .ok_or_else(|| anyhow!("register {} not found", dpath))?;
+    check_not_visited(visited, *d, &reg_path)?;
 
     let mut rpath = None;
     if r.fields.is_none() {
@@ -447,7 +489,7 @@ pub fn derive_register(
     }
     *r = r.derive_from(d);
     if let Some(dpath) = d.derived_from.as_ref() {
-        rpath = derive_register(r, dpath, &rdpath, index)?.or(rpath);
+        rpath = derive_register_chain(r, dpath, &rdpath, index, visited)?.or(rpath);
     }
     Ok(rpath)
 }
@@ -457,6 +499,16 @@ pub fn derive_field(
     dpath: &str,
     rpath: &RegisterPath,
     index: &Index,
+) -> Result<Option<FieldPath>> {
+    derive_field_chain(f, dpath, rpath, index, &mut Vec::new())
+}
+
+fn derive_field_chain(
+    f: &mut Field,
+    dpath: &str,
+    rpath: &RegisterPath,
+    index: &Index,
+    visited: &mut Vec<*const Field>,
 ) -> Result<Option<FieldPath>> {
     let (dregister, dname) = FieldPath::parse_str(dpath);
     let rdpath;
@@ -468,13 +520,14 @@ pub fn derive_field(
         field_path = rpath.new_field(dname);
         rdpath = rpath.clone();
     }
-    if &rdpath == rpath && dname == &f.name {
+    if visited.is_empty() && &rdpath == rpath && dname == &f.name {
         return Err(anyhow!("Field {field_path} is self-derived"));
     }
     let d = index
         .fields
         .get(&field_path)
         .ok_or_else(|| anyhow!("field {} not found", dpath))?;
+    check_not_visited(visited, *d, &field_path)?;
 
     let mut fpath = None;
     if f.enumerated_values.is_empty() {
@@ -482,7 +535,7 @@ pub fn derive_field(
     }
     *f = f.derive_from(d);
     if let Some(dpath) = d.derived_from.as_ref() {
-        fpath = derive_field(f, dpath, &rdpath, index)?.or(fpath);
+        fpath = derive_field_chain(f, dpath, &rdpath, index, visited)?.or(fpath);
     }
     Ok(fpath)
 }
@@ -568,9 +621,16 @@ pub fn derive_enumerated_values(
     fpath: &FieldPath,
     index: &Index,
 ) -> Result<EnumPath> {
-    if Some(dpath) == ev.name.as_deref() {
-        return Err(anyhow!("EnumeratedValues {fpath}.{dpath} is self-derived"));
-    }
+    derive_enumerated_values_chain(ev, dpath, fpath, index, &mut Vec::new())
+}
+
+fn derive_enumerated_values_chain(
+    ev: &mut EnumeratedValues,
+    dpath: &str,
+    fpath: &FieldPath,
+    index: &Index,
+    visited: &mut Vec<*const EnumeratedValues>,
+) -> Result<EnumPath> {
     let mut v: Vec<&str> = dpath.split('.').collect();
     let dname = v.pop().unwrap();
     let d = if v.is_empty() {
@@ -605,17 +665,18 @@ pub fn derive_enumerated_values(
             };
             FieldPath::new(rdpath, fdname)
         };
-        if &fdpath == fpath && Some(dname) == ev.name.as_deref() {
-            return Err(anyhow!("EnumeratedValues {fpath}.{dname} is self-derived"));
-        }
         let epath = EnumPath::new(fdpath, dname);
         index.evs.get(&epath).map(|d| (d, epath))
     };
 
     if let Some((d, epath)) = d {
+        if visited.is_empty() && &epath.field == fpath && ev.name.as_ref() == Some(&epath.name) {
+            return Err(anyhow!("EnumeratedValues {epath} is self-derived"));
+        }
+        check_not_visited(visited, *d, &epath)?;
         *ev = ev.derive_from(d);
         if let Some(dpath) = d.derived_from.as_ref() {
-            derive_enumerated_values(ev, dpath, &epath.field, index)
+            derive_enumerated_values_chain(ev, dpath, &epath.field, index, visited)
         } else {
             Ok(epath)
         }
@@ -633,7 +694,16 @@ pub fn derive_peripheral(
     dpath: &str,
     index: &Index,
 ) -> Result<Option<BlockPath>> {
-    if dpath == &p.name {
+    derive_peripheral_chain(p, dpath, index, &mut Vec::new())
+}
+
+fn derive_peripheral_chain(
+    p: &mut Peripheral,
+    dpath: &str,
+    index: &Index,
+    visited: &mut Vec<*const Peripheral>,
+) -> Result<Option<BlockPath>> {
+    if visited.is_empty() && dpath == &p.name {
         return Err(anyhow!("Peripheral {dpath} is self-derived"));
     }
     let mut path = None;
@@ -642,12 +712,13 @@ pub fn derive_peripheral(
         .peripherals
         .get(&derpath)
         .ok_or_else(|| anyhow!("peripheral {} not found", dpath))?;
+    check_not_visited(visited, *d, &derpath)?;
     if p.registers.is_none() {
         path = Some(derpath);
     }
     *p = p.derive_from(d);
     if let Some(dpath) = d.derived_from.as_ref() {
-        path = derive_peripheral(p, dpath, index)?.or(path);
+        path = derive_peripheral_chain(p, dpath, index, visited)?.or(path);
     }
     Ok(path)
 }
@@ -669,7 +740,7 @@ pub fn expand(indevice: &Device) -> Result<Device> {
         let path = path.unwrap_or_else(|| BlockPath::new(&p.name));
         if let Some(regs) = p.registers.as_mut() {
             for rc in take(regs) {
-                expand_register_cluster(regs, rc, &path, &index)?;
+                expand_register_cluster(regs, rc, &path, &index, &mut Vec::new())?;
             }
         }
         match p {
-- 
2.43.0


From cc539a3a791c874dd56289422485f042ba87c1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:19 +0000
Subject: [PATCH 03/19] fix: report a field reference without a block instead
 of panicking

---
 svd-parser/src/expand.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/svd-parser/src/expand.rs b/svd-parser/src/expand.rs
index 6184f73..242b9db 100644
--- a/svd-parser/src/expand.rs
+++ b/svd-parser/src/expand.rs
@@ -510,6 +510,9 @@ fn derive_field_chain(
     index: &Index,
     visited: &mut Vec<*const Field>,
 ) -> Result<Option<FieldPath>> {
+    if dpath.split('.').count() == 2 {
+        return Err(anyhow!("field {} not found, full path is expected", dpath));
+    }
     let (dregister, dname) = FieldPath::parse_str(dpath);
     let rdpath;
     let field_path;
-- 
2.43.0


From c2c43cbd1be961e3035bc0299a7c544cde89faa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:51 +0000
Subject: [PATCH 04/19] fix: report arrays and clusters that exceed the address
 range instead of overflowing

---
 svd-parser/src/expand.rs | 46 +++++++++++++++++++++++++++++++++++-----
 1 file changed, 41 insertions(+), 5 deletions(-)

diff --git a/svd-parser/src/expand.rs b/svd-parser/src/expand.rs
index 242b9db..3a0cbf6 100644
--- a/svd-parser/src/expand.rs
+++ b/svd-parser/src/expand.rs
@@ -6,7 +6,7 @@ use std::fmt;
 use std::mem::take;
 use svd_rs::{
     array::names, cluster, field, peripheral, register, Cluster, ClusterInfo, DeriveFrom, Device,
-    EnumeratedValues, Field, Peripheral, Register, RegisterCluster, RegisterProperties,
+    DimElement, EnumeratedValues, Field, Peripheral, Register, RegisterCluster, RegisterProperties,
 };
 
 /// Path to `peripheral` or `cluster` element
@@ -379,10 +379,16 @@ fn expand_cluster_array(
     parents.pop();
 
     match c {
-        Cluster::Single(c) => expand_cluster(regs, c),
+        Cluster::Single(c) => expand_cluster(regs, c)?,
         Cluster::Array(info, dim) => {
+            check_array(
+                &info.name,
+                info.address_offset.into(),
+                &dim,
+                u32::MAX.into(),
+            )?;
             for c in cluster::expand(&info, &dim) {
-                expand_cluster(regs, c);
+                expand_cluster(regs, c)?;
             }
         }
     }
@@ -543,17 +549,39 @@ fn derive_field_chain(
     Ok(fpath)
 }
 
-fn expand_cluster(regs: &mut Vec<RegisterCluster>, c: ClusterInfo) {
+/// Fails if instances of the array have no index or no valid position
+fn check_array(name: &str, start: u64, dim: &DimElement, max: u64) -> Result<()> {
+    if let Some(indexes) = dim.dim_index.as_ref() {
+        if indexes.len() != dim.dim as usize {
+            return Err(anyhow!(
+                "array {name} of {} elements has {} indexes",
+                dim.dim,
+                indexes.len()
+            ));
+        }
+    }
+    let last = u64::from(dim.dim.saturating_sub(1)) * u64::from(dim.dim_increment);
+    match start.checked_add(last) {
+        Some(last) if last <= max => Ok(()),
+        _ => Err(anyhow!("array {name} exceeds the address range")),
+    }
+}
+
+fn expand_cluster(regs: &mut Vec<RegisterCluster>, c: ClusterInfo) -> Result<()> {
     for rc in c.children {
         match rc {
             RegisterCluster::Cluster(_) => unreachable!(),
             RegisterCluster::Register(mut r) => {
                 r.name = format!("{}_{}", c.name, r.name);
-                r.address_offset += c.address_offset;
+                r.address_offset = r
+                    .address_offset
+                    .checked_add(c.address_offset)
+                    .ok_or_else(|| anyhow!("register {} exceeds the address range", r.name))?;
                 regs.push(r.into());
             }
         }
     }
+    Ok(())
 }
 
 fn expand_register_array(
@@ -580,6 +608,12 @@ fn expand_register_array(
             regs.push(r.into());
         }
         Register::Array(info, dim) => {
+            check_array(
+                &info.name,
+                info.address_offset.into(),
+                &dim,
+                u32::MAX.into(),
+            )?;
             regs.extend(register::expand(&info, &dim).map(|r| r.single().into()));
         }
     }
@@ -611,6 +645,7 @@ fn expand_field(
             fields.push(f);
         }
         Field::Array(info, dim) => {
+            check_array(&info.name, info.bit_offset().into(), &dim, u32::MAX.into())?;
             fields.extend(field::expand(&info, &dim).map(Field::Single));
         }
     }
@@ -751,6 +786,7 @@ pub fn expand(indevice: &Device) -> Result<Device> {
                 device.peripherals.push(p);
             }
             Peripheral::Array(info, dim) => {
+                check_array(&info.name, info.base_address, &dim, u64::MAX)?;
                 device
                     .peripherals
                     .extend(peripheral::expand(&info, &dim).map(Peripheral::Single));
-- 
2.43.0


From f1db9e8bdd1d4f91ed4bc8459e5d5a75880c52a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:33 +0000
Subject: [PATCH 05/19] fix: sort by descending offset over the whole offset
 range

---
 svd-encoder/src/device.rs     | 2 +-
 svd-encoder/src/peripheral.rs | 2 +-
 svd-encoder/src/register.rs   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/svd-encoder/src/device.rs b/svd-encoder/src/device.rs
index 378e653..7d73705 100644
--- a/svd-encoder/src/device.rs
+++ b/svd-encoder/src/device.rs
@@ -99,7 +99,7 @@ fn sort_peripherals(refs: &mut [&Peripheral], sorting: Option<Sorting>) {
         match sorting {
             Sorting::Offset => refs.sort_by_key(|p| p.base_address),
             Sorting::OffsetReversed => {
-                refs.sort_by_key(|p| -(p.base_address as i32));
+                refs.sort_by_key(|p| std::cmp::Reverse(p.base_address));
             }
             Sorting::Name => refs.sort_by_key(|p| &p.name),
         }
diff --git a/svd-encoder/src/peripheral.rs b/svd-encoder/src/peripheral.rs
index f464961..156331e 100644
--- a/svd-encoder/src/peripheral.rs
+++ b/svd-encoder/src/peripheral.rs
@@ -144,7 +144,7 @@ fn sort_register_cluster(refs: &mut [&RegisterCluster], sorting: Option<Sorting>
         match sorting {
             Sorting::Offset => refs.sort_by_key(|r| r.address_offset()),
             Sorting::OffsetReversed => {
-                refs.sort_by_key(|r| -(r.address_offset() as i32));
+                refs.sort_by_key(|r| std::cmp::Reverse(r.address_offset()));
             }
             Sorting::Name => refs.sort_by_key(|r| r.name()),
         }
diff --git a/svd-encoder/src/register.rs b/svd-encoder/src/register.rs
index b4b4aa8..2418c97 100644
--- a/svd-encoder/src/register.rs
+++ b/svd-encoder/src/register.rs
@@ -116,7 +116,7 @@ fn sort_fields(refs: &mut [&Field], sorting: Option<Sorting>) {
         match sorting {
             Sorting::Offset => refs.sort_by_key(|f| f.bit_offset()),
             Sorting::OffsetReversed => {
-                refs.sort_by_key(|f| -(f.bit_offset() as i32));
+                refs.sort_by_key(|f| std::cmp::Reverse(f.bit_offset()));
             }
             Sorting::Name => refs.sort_by_key(|f| &f.name),
         }
-- 
2.43.0


From c663a6d4ea7e5ef56eee91ca9c2a5a11d3fee96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:33 +0000
Subject: [PATCH 06/19] fix: keep the bit width when the bit offset of a field
 is set after it

---
 svd-rs/src/field.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svd-rs/src/field.rs b/svd-rs/src/field.rs
index 7fe336f..5919969 100644
--- a/svd-rs/src/field.rs
+++ b/svd-rs/src/field.rs
@@ -163,7 +163,7 @@ impl FieldInfoBuilder {
     pub fn bit_offset(mut self, value: u32) -> Self {
         if let Some(bit_range) = self.bit_range.as_mut() {
             bit_range.offset = value;
-        } else if let Some(width) = self.bit_offset {
+        } else if let Some(width) = self.bit_width {
             self.bit_range = Some(BitRange::from_offset_width(value, width));
             self.bit_width = None;
         } else {
-- 
2.43.0


From 6b493ae7de72f11e067d7c6e7cd4032f5cf9681e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:33 +0000
Subject: [PATCH 07/19] fix: keep derivedFrom when modifying enumerated values

---
 svd-rs/src/enumeratedvalues.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/svd-rs/src/enumeratedvalues.rs b/svd-rs/src/enumeratedvalues.rs
index aff085f..7446546 100644
--- a/svd-rs/src/enumeratedvalues.rs
+++ b/svd-rs/src/enumeratedvalues.rs
@@ -114,6 +114,7 @@ impl EnumeratedValues {
         lvl: ValidateLevel,
     ) -> Result<(), SvdError> {
         if builder.derived_from.is_some() {
+            self.derived_from = builder.derived_from;
             self.name = None;
             self.usage = None;
             self.values = Vec::new();
-- 
2.43.0


From bcd6be61471ed6f89fdc4f1488a6752a6615926b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:33 +0000
Subject: [PATCH 08/19] fix: derive the data type of a register

---
 svd-rs/src/derive_from.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/svd-rs/src/derive_from.rs b/svd-rs/src/derive_from.rs
index 9578852..e9b1fd3 100644
--- a/svd-rs/src/derive_from.rs
+++ b/svd-rs/src/derive_from.rs
@@ -71,6 +71,7 @@ impl DeriveFrom for RegisterInfo {
         let mut derived = self.clone();
         derived.description = derived.description.or_else(|| other.description.clone());
         derived.properties = derived.properties.derive_from(&other.properties);
+        derived.datatype = derived.datatype.or(other.datatype);
         derived.fields = derived.fields.or_else(|| other.fields.clone());
         derived.write_constraint = derived.write_constraint.or(other.write_constraint);
         derived.read_action = derived.read_action.or(other.read_action);
-- 
2.43.0


From bcd32b720042bf2e620086779f7d16213253e34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:05 +0000
Subject: [PATCH 09/19] fix: report a malformed isDefault instead of ignoring
 it

---
 svd-parser/src/enumeratedvalue.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/svd-parser/src/enumeratedvalue.rs b/svd-parser/src/enumeratedvalue.rs
index e83856e..effdb0e 100644
--- a/svd-parser/src/enumeratedvalue.rs
+++ b/svd-parser/src/enumeratedvalue.rs
@@ -1,5 +1,6 @@
 use super::*;
 use crate::svd::EnumeratedValue;
+use crate::types::BoolParse;
 
 impl Parse for EnumeratedValue {
     type Object = Self;
@@ -15,7 +16,7 @@ impl Parse for EnumeratedValue {
             .name(tree.get_child_text("name")?)
             .description(tree.get_child_text_opt("description")?)
             .value(optional::<u64>("value", tree, &())?)
-            .is_default(tree.get_child_bool("isDefault").ok())
+            .is_default(optional::<BoolParse>("isDefault", tree, &())?)
             .build(config.validate_level)
             .map_err(|e| SVDError::from(e).at(tree.id()))
     }
-- 
2.43.0


From 5b3952044f5333b97bb26c097b93280ea1845976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:05 +0000
Subject: [PATCH 10/19] fix: validate the values of dimArrayIndex with the
 array

---
 svd-rs/src/dimelement.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/svd-rs/src/dimelement.rs b/svd-rs/src/dimelement.rs
index b351f05..ac62315 100644
--- a/svd-rs/src/dimelement.rs
+++ b/svd-rs/src/dimelement.rs
@@ -212,12 +212,10 @@ impl DimElement {
         self.validate(lvl)
     }
     /// Validate the [`DimElement`].
-    ///
-    /// # Notes
-    ///
-    /// This doesn't do anything.
-    pub fn validate(&self, _lvl: ValidateLevel) -> Result<(), SvdError> {
-        // TODO
+    pub fn validate(&self, lvl: ValidateLevel) -> Result<(), SvdError> {
+        for ev in self.dim_array_index.iter().flat_map(|dai| &dai.values) {
+            ev.validate(lvl)?;
+        }
         Ok(())
     }
     /// Get the indexes of the array or list.
-- 
2.43.0


From 6d3a6ae7846571361f9a20d004d906aada4e4806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:05 +0000
Subject: [PATCH 11/19] fix: report an empty writeConstraint instead of
 panicking

---
 svd-parser/src/writeconstraint.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/svd-parser/src/writeconstraint.rs b/svd-parser/src/writeconstraint.rs
index 38f46ac..6b18dfa 100644
--- a/svd-parser/src/writeconstraint.rs
+++ b/svd-parser/src/writeconstraint.rs
@@ -7,7 +7,9 @@ impl Parse for WriteConstraint {
     type Config = Config;
 
     fn parse(tree: &Node, _config: &Self::Config) -> Result<Self, Self::Error> {
-        let child = tree.first_element_child().unwrap();
+        let child = tree
+            .first_element_child()
+            .ok_or_else(|| SVDError::EmptyTag("writeConstraint".to_string()).at(tree.id()))?;
         if child.next_sibling_element().is_some() {
             return Err(SVDError::MoreThanOneWriteConstraint.at(tree.id()));
         }
-- 
2.43.0


From 648776ee48277b2ad5ffa9bba5b9d843d6a9b071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:21 +0000
Subject: [PATCH 12/19] fix: report bit ranges that are no ranges instead of
 overflowing

---
 svd-parser/src/bitrange.rs |  4 +++-
 svd-rs/src/bitrange.rs     | 12 ++++++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/svd-parser/src/bitrange.rs b/svd-parser/src/bitrange.rs
index 0fb8ec4..3117731 100644
--- a/svd-parser/src/bitrange.rs
+++ b/svd-parser/src/bitrange.rs
@@ -89,7 +89,9 @@ impl Parse for BitRange {
         }
         Ok(Self {
             offset: start,
-            width: end - start + 1,
+            width: (end - start).checked_add(1).ok_or_else(|| {
+                SVDError::InvalidBitRange(InvalidBitRange::Size).at(tree.id())
+            })?,
             range_type,
         })
     }
diff --git a/svd-rs/src/bitrange.rs b/svd-rs/src/bitrange.rs
index 5741899..d5b2ac9 100644
--- a/svd-rs/src/bitrange.rs
+++ b/svd-rs/src/bitrange.rs
@@ -30,6 +30,11 @@ pub enum BitRangeType {
     MsbLsb,
 }
 
+/// Number of bits from `lsb` to `msb`
+fn checked_width(msb: u32, lsb: u32) -> Option<u32> {
+    msb.checked_sub(lsb)?.checked_add(1)
+}
+
 impl BitRange {
     /// Get the position of the least significant bit
     pub fn lsb(&self) -> u32 {
@@ -70,7 +75,7 @@ impl BitRange {
         let lsb = parts.next()?.parse::<u32>().ok()?;
         Some(Self {
             offset: lsb,
-            width: msb - lsb + 1,
+            width: checked_width(msb, lsb)?,
             range_type: BitRangeType::BitRange,
         })
     }
@@ -139,7 +144,10 @@ mod ser_de {
                     bit_offset,
                     bit_width,
                 } => Ok(BitRange::from_offset_width(bit_offset, bit_width)),
-                SerBitRange::MsbLsb { msb, lsb } => Ok(BitRange::from_msb_lsb(msb, lsb)),
+                SerBitRange::MsbLsb { msb, lsb } => match checked_width(msb, lsb) {
+                    Some(_) => Ok(BitRange::from_msb_lsb(msb, lsb)),
+                    None => Err(serde::de::Error::custom("msb and lsb are not a bit range")),
+                },
             }
         }
     }
-- 
2.43.0


From 8a6ff4ec61348d449239a1b518a64562746707a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:15 +0000
Subject: [PATCH 13/19] fix: accept serialized arrays without dimIndex

---
 svd-rs/src/dimelement.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/svd-rs/src/dimelement.rs b/svd-rs/src/dimelement.rs
index ac62315..c8e1df1 100644
--- a/svd-rs/src/dimelement.rs
+++ b/svd-rs/src/dimelement.rs
@@ -22,6 +22,7 @@ pub struct DimElement {
     #[cfg_attr(
         feature = "serde",
         serde(
+            default,
             deserialize_with = "ser_de::deserialize_dim_index",
             serialize_with = "ser_de::serialize_dim_index",
             skip_serializing_if = "Option::is_none"
-- 
2.43.0


From 0d3d2bbc1c10acc734bdba81dadd3dc553f1c6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:39 +0000
Subject: [PATCH 14/19] fix: do not list more indexes than the array has
 elements

---
 svd-parser/src/dimelement.rs | 16 ++++++++++++++--
 svd-rs/src/dimelement.rs     | 12 +++++++++---
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/svd-parser/src/dimelement.rs b/svd-parser/src/dimelement.rs
index a66a6cc..431eaed 100644
--- a/svd-parser/src/dimelement.rs
+++ b/svd-parser/src/dimelement.rs
@@ -7,9 +7,21 @@ impl Parse for DimElement {
     type Config = Config;
 
     fn parse(tree: &Node, config: &Self::Config) -> Result<Self, Self::Error> {
+        let dim = tree.get_child_u32("dim")?;
+        let dim_increment = tree.get_child_u32("dimIncrement")?;
+        // Do not list the indexes of a range that is not going to be used
+        let range = tree.get_child_text_opt("dimIndex")?;
+        match range.and_then(|text| DimElement::range_len(&text)) {
+            Some(n) if n > dim.into() => {
+                return Err(
+                    SVDError::IncorrectDimIndexesCount(dim as usize, n as usize).at(tree.id())
+                );
+            }
+            _ => {}
+        }
         DimElement::builder()
-            .dim(tree.get_child_u32("dim")?)
-            .dim_increment(tree.get_child_u32("dimIncrement")?)
+            .dim(dim)
+            .dim_increment(dim_increment)
             .dim_index(optional::<DimIndex>("dimIndex", tree, config)?)
             .dim_name(tree.get_child_text_opt("dimName")?)
             .dim_array_index(optional::<DimArrayIndex>("dimArrayIndex", tree, config)?)
diff --git a/svd-rs/src/dimelement.rs b/svd-rs/src/dimelement.rs
index c8e1df1..8799c33 100644
--- a/svd-rs/src/dimelement.rs
+++ b/svd-rs/src/dimelement.rs
@@ -165,9 +165,15 @@ impl DimElement {
         })
         .filter(|v| !v.is_empty())
     }
+    /// Get number of indexes in string if it is a range of integers
+    pub fn range_len(text: &str) -> Option<u64> {
+        let (start, end) = text.split_once('-')?;
+        let (start, end) = (start.parse::<u32>().ok()?, end.parse::<u32>().ok()?);
+        Some((u64::from(end) + 1).saturating_sub(start.into()))
+    }
     /// Try to represent [`DimElement`] as range of integer indexes
     pub fn indexes_as_range(&self) -> Option<RangeInclusive<u32>> {
-        let mut integers = Vec::with_capacity(self.dim as usize);
+        let mut integers = Vec::new();
         for idx in self.indexes() {
             // XXX: indexes that begin with leading zero are not compatible with range (`0-x`) syntax in serialization
             // see https://github.com/rust-embedded/svdtools/pull/178#issuecomment-1801433808
@@ -179,7 +185,7 @@ impl DimElement {
         }
         let min = *integers.iter().min()?;
         let max = *integers.iter().max()?;
-        if max - min + 1 != self.dim {
+        if u64::from(max - min) + 1 != u64::from(self.dim) {
             return None;
         }
         for (&i, r) in integers.iter().zip(min..=max) {
@@ -245,7 +251,7 @@ impl<'a> Iterator for Indexes<'a> {
         let i = self.i;
         self.i += 1;
         if let Some(index) = self.dim_index.as_ref() {
-            Some(index[i as usize].as_str().into())
+            Some(index.get(i as usize)?.as_str().into())
         } else {
             Some(i.to_string().into())
         }
-- 
2.43.0


From f78ea9720994c4311a096d2ee83d780f6bb80a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:55 +0000
Subject: [PATCH 15/19] fix: report malformed dimensions of serialized arrays
 instead of dropping them

---
 svd-parser/src/bitrange.rs |  6 ++---
 svd-rs/src/array.rs        |  7 +++---
 svd-rs/src/dimelement.rs   | 48 +++++++++++++++++++++++++++++++++++++-
 3 files changed, 54 insertions(+), 7 deletions(-)

diff --git a/svd-parser/src/bitrange.rs b/svd-parser/src/bitrange.rs
index 3117731..315939e 100644
--- a/svd-parser/src/bitrange.rs
+++ b/svd-parser/src/bitrange.rs
@@ -89,9 +89,9 @@ impl Parse for BitRange {
         }
         Ok(Self {
             offset: start,
-            width: (end - start).checked_add(1).ok_or_else(|| {
-                SVDError::InvalidBitRange(InvalidBitRange::Size).at(tree.id())
-            })?,
+            width: (end - start)
+                .checked_add(1)
+                .ok_or_else(|| SVDError::InvalidBitRange(InvalidBitRange::Size).at(tree.id()))?,
             range_type,
         })
     }
diff --git a/svd-rs/src/array.rs b/svd-rs/src/array.rs
index d302b4b..27242c3 100644
--- a/svd-rs/src/array.rs
+++ b/svd-rs/src/array.rs
@@ -97,6 +97,7 @@ pub fn descriptions<'a, T: Description>(
 #[cfg(feature = "serde")]
 mod ser_de {
     use super::*;
+    use crate::dimelement::ser_de::MaybeDim;
     use serde::{Deserialize, Deserializer, Serialize, Serializer};
 
     #[derive(serde::Serialize)]
@@ -109,8 +110,8 @@ mod ser_de {
 
     #[derive(serde::Deserialize)]
     struct DeserArray<T> {
-        #[serde(flatten, default)]
-        dim: Option<DimElement>,
+        #[serde(flatten)]
+        dim: MaybeDim,
         #[serde(flatten)]
         info: T,
     }
@@ -139,7 +140,7 @@ mod ser_de {
             D: Deserializer<'de>,
         {
             let DeserArray { dim, info } = DeserArray::<T>::deserialize(deserializer)?;
-            if let Some(dim) = dim {
+            if let Some(dim) = dim.into_dim()? {
                 Ok(Self::Array(info, dim))
             } else {
                 Ok(Self::Single(info))
diff --git a/svd-rs/src/dimelement.rs b/svd-rs/src/dimelement.rs
index 8799c33..73cd16a 100644
--- a/svd-rs/src/dimelement.rs
+++ b/svd-rs/src/dimelement.rs
@@ -259,7 +259,7 @@ impl<'a> Iterator for Indexes<'a> {
 }
 
 #[cfg(feature = "serde")]
-mod ser_de {
+pub(crate) mod ser_de {
     use super::*;
     use serde::{de, Deserialize, Deserializer, Serializer};
     #[derive(serde::Serialize, serde::Deserialize)]
@@ -269,6 +269,52 @@ mod ser_de {
         String(String),
     }
 
+    /// Fields of [`DimElement`] in an element that may be an array
+    #[derive(serde::Deserialize)]
+    #[serde(rename_all = "camelCase")]
+    pub struct MaybeDim {
+        dim: Option<u32>,
+        dim_increment: Option<u32>,
+        dim_index: Option<DimIndex>,
+        dim_name: Option<String>,
+        dim_array_index: Option<DimArrayIndex>,
+    }
+
+    impl MaybeDim {
+        /// Like in XML, an element is an array if it has `dimIncrement`
+        pub fn into_dim<E: de::Error>(self) -> Result<Option<DimElement>, E> {
+            let Some(dim_increment) = self.dim_increment else {
+                return Ok(None);
+            };
+            let dim = self.dim.ok_or_else(|| E::missing_field("dim"))?;
+            let dim_index = match self.dim_index {
+                None => None,
+                Some(DimIndex::Array(a)) => Some(a),
+                Some(DimIndex::String(s)) => Some(
+                    Some(s)
+                        .filter(|s| DimElement::range_len(s).map_or(true, |n| n <= dim.into()))
+                        .and_then(|s| DimElement::parse_indexes(&s))
+                        .ok_or_else(|| E::custom("Failed to deserialize dimIndex"))?,
+                ),
+            };
+            if let Some(indexes) = dim_index.as_ref() {
+                if indexes.len() != dim as usize {
+                    return Err(E::invalid_length(
+                        indexes.len(),
+                        &"dimIndex with dim indexes",
+                    ));
+                }
+            }
+            Ok(Some(DimElement {
+                dim,
+                dim_increment,
+                dim_index,
+                dim_name: self.dim_name,
+                dim_array_index: self.dim_array_index,
+            }))
+        }
+    }
+
     pub fn deserialize_dim_index<'de, D>(deserializer: D) -> Result<Option<Vec<String>>, D::Error>
     where
         D: Deserializer<'de>,
-- 
2.43.0


From 9800d7f6c38b3f156b77dc4cd42e29f706879052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:05 +0000
Subject: [PATCH 16/19] fix: compute the most significant bit without
 overflowing

A range ending at the last representable position has offset + width = 2^32.
---
 svd-rs/src/bitrange.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/svd-rs/src/bitrange.rs b/svd-rs/src/bitrange.rs
index d5b2ac9..ec72e27 100644
--- a/svd-rs/src/bitrange.rs
+++ b/svd-rs/src/bitrange.rs
@@ -42,7 +42,8 @@ impl BitRange {
     }
     /// Get the position of the most significant bit
     pub fn msb(&self) -> u32 {
-        self.offset + self.width - 1
+        // the sum of offset and width may exceed the last representable position by one
+        (u64::from(self.offset) + u64::from(self.width) - 1) as u32
     }
     /// Get the bit range in the format `[<msb>:<lsb>]`
     pub fn bit_range(&self) -> String {
-- 
2.43.0


From d92fd3e0c92e097846f79e1010e08d106615aebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:55 +0000
Subject: [PATCH 17/19] fix: identifier formats keep the words of names that
 are capitalised already

---
 svd-encoder/src/config.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/svd-encoder/src/config.rs b/svd-encoder/src/config.rs
index a78dbbb..6ca2984 100644
--- a/svd-encoder/src/config.rs
+++ b/svd-encoder/src/config.rs
@@ -47,7 +47,6 @@ pub fn change_case(s: &str, case: Option<IdentifierFormat>) -> String {
                 Boundary::Hyphen,
                 Boundary::Space,
                 Boundary::LowerUpper,
-                Boundary::UpperLower,
                 Boundary::Acronym,
             ];
 
-- 
2.43.0


From 45ecc9986cc5f6a11597eafdb0b51d3efc30dbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:22 +0000
Subject: [PATCH 18/19] fix: identifier formats rewrite qualified references
 part by part

---
 svd-encoder/src/cluster.rs          |  4 ++--
 svd-encoder/src/config.rs           | 27 +++++++++++++++++++++++++++
 svd-encoder/src/enumeratedvalues.rs | 15 +++++++++++++--
 svd-encoder/src/field.rs            |  4 ++--
 svd-encoder/src/register.rs         |  4 ++--
 5 files changed, 46 insertions(+), 8 deletions(-)

diff --git a/svd-encoder/src/cluster.rs b/svd-encoder/src/cluster.rs
index 34d4806..2d8ecbd 100644
--- a/svd-encoder/src/cluster.rs
+++ b/svd-encoder/src/cluster.rs
@@ -3,7 +3,7 @@ use super::{
 };
 
 use crate::{
-    config::{change_case, format_number},
+    config::{change_case, change_path_case, format_number},
     svd::{Cluster, ClusterInfo},
 };
 
@@ -67,7 +67,7 @@ impl Encode for ClusterInfo {
         if let Some(v) = &self.derived_from {
             e.attributes.insert(
                 String::from("derivedFrom"),
-                change_case(v, config.cluster_name),
+                change_path_case(v, &[config.cluster_name], config),
             );
         }
 
diff --git a/svd-encoder/src/config.rs b/svd-encoder/src/config.rs
index 6ca2984..37fced4 100644
--- a/svd-encoder/src/config.rs
+++ b/svd-encoder/src/config.rs
@@ -62,6 +62,33 @@ pub fn change_case(s: &str, case: Option<IdentifierFormat>) -> String {
     }
 }
 
+/// Change case of each part of a reference that may be qualified with the path to the element
+///
+/// `formats` are the formats of the last parts of the path.
+/// Of the parts before them, the first one is a peripheral, the others are clusters.
+pub fn change_path_case(
+    path: &str,
+    formats: &[Option<IdentifierFormat>],
+    config: &Config,
+) -> String {
+    let parts: Vec<&str> = path.split('.').collect();
+    let before = parts.len().saturating_sub(formats.len());
+    let formats = &formats[formats.len().saturating_sub(parts.len())..];
+    parts
+        .iter()
+        .enumerate()
+        .map(|(i, part)| {
+            let case = match i.checked_sub(before) {
+                Some(j) => formats[j],
+                None if i == 0 => config.peripheral_name,
+                None => config.cluster_name,
+            };
+            change_case(part, case)
+        })
+        .collect::<Vec<_>>()
+        .join(".")
+}
+
 #[derive(Clone, Copy, Debug, PartialEq, Eq)]
 pub enum NumberFormat {
     /// `UpperHex` format
diff --git a/svd-encoder/src/enumeratedvalues.rs b/svd-encoder/src/enumeratedvalues.rs
index 2a23795..e147e0b 100644
--- a/svd-encoder/src/enumeratedvalues.rs
+++ b/svd-encoder/src/enumeratedvalues.rs
@@ -1,6 +1,9 @@
 use super::{new_node, Config, Element, Encode, EncodeError};
 
-use crate::{config::change_case, svd::EnumeratedValues};
+use crate::{
+    config::{change_case, change_path_case},
+    svd::EnumeratedValues,
+};
 
 impl Encode for EnumeratedValues {
     type Error = EncodeError;
@@ -22,7 +25,15 @@ impl Encode for EnumeratedValues {
         if let Some(v) = &self.derived_from {
             base.attributes.insert(
                 String::from("derivedFrom"),
-                change_case(v, config.enumerated_values_name),
+                change_path_case(
+                    v,
+                    &[
+                        config.register_name,
+                        config.field_name,
+                        config.enumerated_values_name,
+                    ],
+                    config,
+                ),
             );
         }
 
diff --git a/svd-encoder/src/field.rs b/svd-encoder/src/field.rs
index 1d080af..cd6ddf3 100644
--- a/svd-encoder/src/field.rs
+++ b/svd-encoder/src/field.rs
@@ -1,7 +1,7 @@
 use super::{new_node, Config, Element, ElementMerge, Encode, EncodeError, XMLNode};
 use crate::bitrange::encode_bitrange;
 
-use crate::config::change_case;
+use crate::config::{change_case, change_path_case};
 use crate::svd::{Field, FieldInfo};
 
 impl Encode for Field {
@@ -63,7 +63,7 @@ impl Encode for FieldInfo {
         if let Some(v) = &self.derived_from {
             elem.attributes.insert(
                 String::from("derivedFrom"),
-                change_case(v, config.field_name),
+                change_path_case(v, &[config.register_name, config.field_name], config),
             );
         }
 
diff --git a/svd-encoder/src/register.rs b/svd-encoder/src/register.rs
index 2418c97..8bd0e49 100644
--- a/svd-encoder/src/register.rs
+++ b/svd-encoder/src/register.rs
@@ -5,7 +5,7 @@ use super::{
 };
 
 use crate::{
-    config::{change_case, format_number, DerivableSorting, Sorting},
+    config::{change_case, change_path_case, format_number, DerivableSorting, Sorting},
     svd::{Register, RegisterInfo},
 };
 
@@ -103,7 +103,7 @@ impl Encode for RegisterInfo {
         if let Some(v) = &self.derived_from {
             elem.attributes.insert(
                 String::from("derivedFrom"),
-                change_case(v, config.register_name),
+                change_path_case(v, &[config.register_name], config),
             );
         }
 
-- 
2.43.0


From 9441dee4379e421e07bf865a45161a9ccfd5118f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:49 +0000
Subject: [PATCH 19/19] fix: bit masks of fields that leave 64 bits

---
 svd-rs/src/field.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/svd-rs/src/field.rs b/svd-rs/src/field.rs
index 5919969..13dbcb6 100644
--- a/svd-rs/src/field.rs
+++ b/svd-rs/src/field.rs
@@ -378,7 +378,13 @@ impl FieldInfo {
     /// Get bits which is affected by field
     pub fn bitmask(&self) -> u64 {
         let BitRange { offset, width, .. } = self.bit_range;
-        (!0u64 >> (64 - width)) << offset
+        // bits beyond the 64th have no place in the mask
+        let ones = match width {
+            0 => 0,
+            1..=63 => (1 << width) - 1,
+            _ => !0u64,
+        };
+        ones.checked_shl(offset).unwrap_or(0)
     }
 
     /// Get enumeratedValues cluster by usage
@@ -421,7 +427,17 @@ impl Field {
                 let mask = f.bitmask();
                 let mut bits = 0;
                 for i in 0..d.dim {
-                    bits |= mask << (i * d.dim_increment);
+                    // members beyond the 64th bit, as all that follow them, add nothing
+                    let member = i
+                        .checked_mul(d.dim_increment)
+                        .and_then(|shift| mask.checked_shl(shift));
+                    match member {
+                        Some(member) => bits |= member,
+                        None => break,
+                    }
+                    if d.dim_increment == 0 {
+                        break;
+                    }
                 }
                 bits
             }
-- 
2.43.0

