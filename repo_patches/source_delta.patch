From 18c39726c4de57d4af7056ef6d3c95c6e2ed7601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:21 +0000
Subject: [PATCH 01/16] fix: extending an unpacked tree no longer panics

extend on a tree that is not packed hit the assertion that all children of a
packed branch must be sealed. Join the new elements unpacked instead.
---
 banyan/src/tree.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/banyan/src/tree.rs b/banyan/src/tree.rs
index 13dc0b4..018f049 100644
--- a/banyan/src/tree.rs
+++ b/banyan/src/tree.rs
@@ -566,6 +566,11 @@ impl<T: TreeTypes, R: ReadOnlyStore<T::Link>, W: BlockWriter<T::Link>> Transacti
             // nothing to do
             return Ok(());
         }
+        if !self.is_packed(&tree.snapshot())? {
+            // an unpacked tree can not be extended in place without violating the invariants
+            // for packed branches, so just join it with a tree made from the new elements.
+            return self.extend_unpacked(tree, from);
+        }
         let index = tree.as_index_ref().cloned();
         let index = self.extend_above(
             index.as_ref(),
-- 
2.43.0


From 0dd1288d2037f83c0aca110cf6f9758215000431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:51 +0000
Subject: [PATCH 02/16] fix: pack leaves an already packed tree alone

It used to rewrite the tree, and for a tree made of exactly one sealed leaf it
made that leaf the root, so that the resulting link could not be loaded.
---
 banyan/src/tree.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/banyan/src/tree.rs b/banyan/src/tree.rs
index 018f049..b7ac2eb 100644
--- a/banyan/src/tree.rs
+++ b/banyan/src/tree.rs
@@ -531,6 +531,10 @@ impl<T: TreeTypes, R: ReadOnlyStore<T::Link>, W: BlockWriter<T::Link>> Transacti
     /// ![packing illustration](https://ipfs.io/ipfs/QmaEDTjHSdCKyGQ3cFMCf73kE67NvffLA5agquLW5qSEVn/packing.jpg)
     pub fn pack<V: BanyanValue>(&mut self, tree: &mut StreamBuilder<T, V>) -> Result<()> {
         let initial = tree.snapshot();
+        if self.is_packed(&initial)? {
+            // nothing to do
+            return Ok(());
+        }
         let roots = self.roots(tree)?;
         self.tree_from_roots(roots, tree)?;
         let remainder: Vec<_> = self
-- 
2.43.0


From faaa2bf1d0343af66fc4a4f15c971c75d4698fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:51 +0000
Subject: [PATCH 03/16] fix: iter_filtered_reverse reverses the elements inside
 of chunks

---
 banyan/src/forest/read.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/banyan/src/forest/read.rs b/banyan/src/forest/read.rs
index ed22241..0d16659 100644
--- a/banyan/src/forest/read.rs
+++ b/banyan/src/forest/read.rs
@@ -610,7 +610,7 @@ where
     ) -> impl Iterator<Item = Result<(u64, T::Key, V)>> {
         self.traverse_rev0(secrets, query, index, &|_| {})
             .flat_map(|res| match res {
-                Ok(chunk) => chunk.data.into_iter().map(Ok).left_iter(),
+                Ok(chunk) => chunk.data.into_iter().rev().map(Ok).left_iter(),
                 Err(cause) => iter::once(Err(cause)).right_iter(),
             })
     }
-- 
2.43.0


From 3ef1f9fd16541079f50998df20fd2d295eade076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:51 +0000
Subject: [PATCH 04/16] fix: stream_trees_chunked_reverse delivers no element
 twice

When the traversal of a tree is aborted by an error, the next tree was
traversed from the start of the last delivered chunk, inclusively.
---
 banyan/src/forest/stream.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/banyan/src/forest/stream.rs b/banyan/src/forest/stream.rs
index ea22974..0db0929 100644
--- a/banyan/src/forest/stream.rs
+++ b/banyan/src/forest/stream.rs
@@ -172,8 +172,10 @@ impl<T: TreeTypes, R: ReadOnlyStore<T::Link>> Forest<T, R> {
                     .stream_filtered_chunked_reverse0(&secrets, query, index, mk_extra)
                     .take_while(move |result| {
                         if let Ok(chunk) = result {
-                            // update the end offset from the start of what we got
-                            end_offset_ref.fetch_min(chunk.range.start, Ordering::SeqCst);
+                            // update the end offset from the start of what we got. The end
+                            // offset is inclusive, so it must be below what we already have.
+                            end_offset_ref
+                                .fetch_min(chunk.range.start.saturating_sub(1), Ordering::SeqCst);
                         }
                         // abort at the first non-ok offset
                         future::ready(result.is_ok())
-- 
2.43.0


From bf33efd0649f3be0c62fa099d869424b65cf5742 Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Wed, 18 Nov 2026 21:57:16 +0000
Subject: [PATCH 05/16] fix: a failing pack leaves the tree as it was

---
 banyan/src/tree.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/banyan/src/tree.rs b/banyan/src/tree.rs
index b7ac2eb..162e1e1 100644
--- a/banyan/src/tree.rs
+++ b/banyan/src/tree.rs
@@ -535,10 +535,24 @@ impl<T: TreeTypes, R: ReadOnlyStore<T::Link>, W: BlockWriter<T::Link>> Transacti
             // nothing to do
             return Ok(());
         }
+        let index = tree.index().cloned();
+        let res = self.pack0(&initial, tree);
+        if res.is_err() {
+            // leave the tree as it was, so nothing gets lost
+            tree.set_index(index);
+        }
+        res
+    }
+
+    fn pack0<V: BanyanValue>(
+        &mut self,
+        initial: &Tree<T, V>,
+        tree: &mut StreamBuilder<T, V>,
+    ) -> Result<()> {
         let roots = self.roots(tree)?;
         self.tree_from_roots(roots, tree)?;
         let remainder: Vec<_> = self
-            .collect_from(&initial, tree.count())?
+            .collect_from(initial, tree.count())?
             .into_iter()
             .collect::<Option<Vec<_>>>()
             .ok_or_else(|| anyhow::anyhow!("found purged data"))?;
-- 
2.43.0


From 3e24c31628403f1c743663cabbf753af1f5d65cd Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Wed, 18 Nov 2026 21:57:16 +0000
Subject: [PATCH 06/16] fix: a branch block without children is an error
 instead of a panic

---
 banyan/src/index.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/banyan/src/index.rs b/banyan/src/index.rs
index 987eded..6a85c62 100644
--- a/banyan/src/index.rs
+++ b/banyan/src/index.rs
@@ -446,6 +446,7 @@ pub(crate) fn deserialize_compressed<T: TreeTypes>(
 ) -> Result<(Vec<Index<T>>, Range<u64>)> {
     let (seq, byte_range) = ZstdDagCborSeq::decrypt(ipld, key, nonce)?;
     let seq = seq.items_ipld::<Index<T>>()?;
+    anyhow::ensure!(!seq.is_empty(), "branch without children");
     Ok((seq, byte_range))
 }
 
-- 
2.43.0


From 2057281dd2ff9641219ffc533c0ea879d9ff5282 Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Wed, 18 Nov 2026 21:57:16 +0000
Subject: [PATCH 07/16] fix: a full MemStore accepts blocks that it already has

---
 banyan/src/store/mem_store.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/banyan/src/store/mem_store.rs b/banyan/src/store/mem_store.rs
index 52cb588..1e7d806 100644
--- a/banyan/src/store/mem_store.rs
+++ b/banyan/src/store/mem_store.rs
@@ -47,11 +47,11 @@ impl<L: Eq + Hash + Copy> MemStore<L> {
         let digest = (self.0.digest)(&data);
         let len = data.len();
         let mut blocks = self.0.blocks.lock();
-        if blocks.current_size + data.len() > self.0.max_size {
-            anyhow::bail!("full");
-        }
-        let new = blocks.map.insert(digest, data.into()).is_none();
-        if new {
+        if !blocks.map.contains_key(&digest) {
+            if blocks.current_size + len > self.0.max_size {
+                anyhow::bail!("full");
+            }
+            blocks.map.insert(digest, data.into());
             blocks.current_size += len;
         }
         std::mem::drop(blocks);
-- 
2.43.0


From adba6f8d1fd3213de3ead123818a9c4bfbf3c53f Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Wed, 18 Nov 2026 21:57:16 +0000
Subject: [PATCH 08/16] fix: index iteration ends after a read error

---
 banyan/src/forest/index_iter.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/banyan/src/forest/index_iter.rs b/banyan/src/forest/index_iter.rs
index f04f28e..102176e 100644
--- a/banyan/src/forest/index_iter.rs
+++ b/banyan/src/forest/index_iter.rs
@@ -129,7 +129,11 @@ where
                 NodeInfo::Branch(index, branch) => {
                     let branch = match branch.load_cached() {
                         Ok(branch) => branch,
-                        Err(cause) => return Some(Err(cause)),
+                        Err(cause) => {
+                            // nothing can be delivered after an error
+                            self.stack.clear();
+                            return Some(Err(cause));
+                        }
                     };
                     if head.filter.is_empty() {
                         // we hit this branch node for the first time. Apply the
-- 
2.43.0


From 7d8a2e7af2132acfbf5105f3985b9d62807cc072 Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Wed, 18 Nov 2026 21:57:16 +0000
Subject: [PATCH 09/16] fix: a config with max_leaf_count 0 is refused

---
 banyan/src/forest/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/banyan/src/forest/mod.rs b/banyan/src/forest/mod.rs
index c697611..9f1c3bc 100644
--- a/banyan/src/forest/mod.rs
+++ b/banyan/src/forest/mod.rs
@@ -245,6 +245,7 @@ impl Config {
     pub fn validate(&self) -> anyhow::Result<()> {
         anyhow::ensure!(self.max_summary_branches > 1);
         anyhow::ensure!(self.max_key_branches > 0);
+        anyhow::ensure!(self.max_leaf_count > 0);
         anyhow::ensure!(self.target_leaf_size > 0 && self.target_leaf_size <= 1024 * 1024);
         anyhow::ensure!(self.max_uncompressed_leaf_size <= 16 * 1024 * 1024);
         anyhow::ensure!(self.zstd_level >= 1 && self.zstd_level <= 22);
-- 
2.43.0


From 1fbfb886a05ae5b6cb4bf44b1ac5c35663dc3839 Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Wed, 18 Nov 2026 21:57:16 +0000
Subject: [PATCH 10/16] fix: tag expressions without operands no longer panic

---
 banyan-utils/src/tag_index.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/banyan-utils/src/tag_index.rs b/banyan-utils/src/tag_index.rs
index bc815f6..49154a8 100644
--- a/banyan-utils/src/tag_index.rs
+++ b/banyan-utils/src/tag_index.rs
@@ -294,10 +294,14 @@ impl Expression {
         match self {
             Expression::Literal(x) => Dnf::literal(x),
             Expression::Or(es) => {
-                Reduce::reduce(es.into_iter().map(|x| x.dnf()), Dnf::bitor).unwrap()
+                Reduce::reduce(es.into_iter().map(|x| x.dnf()), Dnf::bitor)
+                    // empty or is always false
+                    .unwrap_or_else(|| Dnf(BTreeSet::new()))
             }
             Expression::And(es) => {
-                Reduce::reduce(es.into_iter().map(|x| x.dnf()), Dnf::bitand).unwrap()
+                Reduce::reduce(es.into_iter().map(|x| x.dnf()), Dnf::bitand)
+                    // empty and is always true
+                    .unwrap_or_else(|| Dnf(btreeset![TagSet::default()]))
             }
         }
     }
@@ -331,11 +335,13 @@ impl Dnf {
 
     /// converts the disjunctive normal form back to an expression
     pub fn expression(self) -> Expression {
-        Reduce::reduce(self.0.into_iter().map(Dnf::and_expr), Expression::bitor).unwrap()
+        Reduce::reduce(self.0.into_iter().map(Dnf::and_expr), Expression::bitor)
+            .unwrap_or_else(|| Expression::Or(vec![]))
     }
 
     fn and_expr(v: TagSet) -> Expression {
-        Reduce::reduce(v.into_iter().map(Expression::literal), Expression::bitand).unwrap()
+        Reduce::reduce(v.into_iter().map(Expression::literal), Expression::bitand)
+            .unwrap_or_else(|| Expression::And(vec![]))
     }
 }
 
-- 
2.43.0


From 8d16b694da966cc62480cc8dc012a02a83f82bc2 Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Wed, 18 Nov 2026 21:57:16 +0000
Subject: [PATCH 11/16] fix: Dnf drops all redundant clauses

---
 banyan-utils/src/tag_index.rs | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/banyan-utils/src/tag_index.rs b/banyan-utils/src/tag_index.rs
index 49154a8..d5316ec 100644
--- a/banyan-utils/src/tag_index.rs
+++ b/banyan-utils/src/tag_index.rs
@@ -346,21 +346,14 @@ impl Dnf {
 }
 
 fn insert_unless_redundant(aa: &mut BTreeSet<TagSet>, b: TagSet) {
-    let mut to_remove = None;
-    for a in aa.iter() {
-        if a.is_subset(&b) {
-            // a is larger than b. E.g. x | x&y
-            // keep a, b is redundant
-            return;
-        } else if a.is_superset(&b) {
-            // a is smaller than b, E.g. x&y | x
-            // remove a, keep b
-            to_remove = Some(a.clone());
-        }
-    }
-    if let Some(r) = to_remove {
-        aa.remove(&r);
-    }
+    // a is larger than b. E.g. x | x&y
+    // keep a, b is redundant
+    if aa.iter().any(|a| a.is_subset(&b)) {
+        return;
+    }
+    // a is smaller than b, E.g. x&y | x
+    // remove each such a, keep b
+    aa.retain(|a| !a.is_superset(&b));
     aa.insert(b);
 }
 
-- 
2.43.0


From 2b94004576b7379b8585274641d48ee8f29624e8 Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Wed, 18 Nov 2026 21:57:16 +0000
Subject: [PATCH 12/16] fix: a tag index with an unsorted string table is
 refused

---
 banyan-utils/src/tag_index.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/banyan-utils/src/tag_index.rs b/banyan-utils/src/tag_index.rs
index d5316ec..a904575 100644
--- a/banyan-utils/src/tag_index.rs
+++ b/banyan-utils/src/tag_index.rs
@@ -53,6 +53,11 @@ impl Decode<DagCborCodec> for TagIndex {
         anyhow::ensure!(read_u8(r)? == 0x82);
         let tags: Vec<String> = Decode::decode(c, r)?;
         let elements: Vec<Vec<u32>> = Decode::decode(c, r)?;
+        // the indices refer to positions in the sorted set of tags
+        anyhow::ensure!(
+            tags.windows(2).all(|w| w[0] < w[1]),
+            "tags are not sorted or not unique"
+        );
         // allocates like crazy
         let tags: VecSet<[SmolStr; 4]> = tags.into_iter().map(SmolStr::new).collect();
         let elements: Vec<VecSet<[u32; 4]>> = elements
@@ -79,7 +84,14 @@ impl Serialize for TagIndex {
 
 impl<'de> Deserialize<'de> for TagIndex {
     fn deserialize<D: Deserializer<'de>>(deserializer: D) -> std::result::Result<Self, D::Error> {
-        let (tags, elements) = <(TagSet, Vec<IndexSet>)>::deserialize(deserializer)?;
+        let (tags, elements) = <(Vec<Tag>, Vec<IndexSet>)>::deserialize(deserializer)?;
+        // the indices refer to positions in the sorted set of tags
+        if !tags.windows(2).all(|w| w[0] < w[1]) {
+            return Err(serde::de::Error::custom(
+                "tags are not sorted or not unique",
+            ));
+        }
+        let tags: TagSet = tags.into_iter().collect();
         // ensure valid indices
         for s in &elements {
             for x in s {
-- 
2.43.0


From cd5923f57616951a119bd3bc976e8146f5155df5 Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Wed, 18 Nov 2026 21:57:16 +0000
Subject: [PATCH 13/16] fix: tags unknown to a node no longer disable the other
 clauses of a DnfQuery

---
 banyan-utils/src/tags.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/banyan-utils/src/tags.rs b/banyan-utils/src/tags.rs
index 3084e05..9ff5633 100644
--- a/banyan-utils/src/tags.rs
+++ b/banyan-utils/src/tags.rs
@@ -1,4 +1,4 @@
-use crate::{tag_index::map_to_index_set, tag_index::TagIndex, tag_index::TagSet};
+use crate::{tag_index::TagIndex, tag_index::TagSet};
 use banyan::query::Query;
 use banyan::{index::*, TreeTypes};
 use libipld::{
@@ -202,14 +202,17 @@ impl DnfQuery {
             query: self
                 .0
                 .iter()
-                .map(|key| {
-                    map_to_index_set(&keyseq.tags.tags, &key.tags).map(|index_set| TranslatedKey {
-                        index_set,
-                        time: key.time,
-                    })
+                .map(|key| TranslatedKey {
+                    // tags that do not occur in the table do not occur in any element
+                    index_set: key
+                        .tags
+                        .iter()
+                        .filter_map(|t| keyseq.tags.tags.as_ref().binary_search(t).ok())
+                        .map(|i| i as u32)
+                        .collect(),
+                    time: key.time,
                 })
-                .collect::<Option<Vec<_>>>()
-                .unwrap_or_default(),
+                .collect(),
             seq: keyseq,
         }
     }
-- 
2.43.0


From 93db66ab4de386183c610e923afee25a5a16ab03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:39 +0000
Subject: [PATCH 14/16] fix: extending a tree whose unsealed end was purged no
 longer panics

After repair had to forget an unsealed node at the end of a tree, extend hit the
assertion that all children of a packed branch must be sealed. Such a node can not
be extended, so join the new elements unpacked instead.
---
 banyan/src/forest/read.rs | 15 +++++++++++++++
 banyan/src/tree.rs        |  9 +++++++--
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/banyan/src/forest/read.rs b/banyan/src/forest/read.rs
index 0d16659..d47ab97 100644
--- a/banyan/src/forest/read.rs
+++ b/banyan/src/forest/read.rs
@@ -749,6 +749,21 @@ where
         Ok(())
     }
 
+    /// Checks if the rightmost unsealed node is purged, so that it can not be extended
+    pub(crate) fn ends_in_purged(&self, secrets: &Secrets, index: &Index<T>) -> Result<bool> {
+        if index.sealed() {
+            return Ok(false);
+        }
+        Ok(match self.node_info(secrets, index) {
+            NodeInfo::Branch(_, branch) => match branch.load_cached()?.children.last() {
+                Some(last) => self.ends_in_purged(secrets, last)?,
+                None => false,
+            },
+            NodeInfo::Leaf(..) => false,
+            NodeInfo::PurgedBranch(_) | NodeInfo::PurgedLeaf(_) => true,
+        })
+    }
+
     /// Checks if a node is packed to the left
     pub(crate) fn is_packed0(&self, secrets: &Secrets, index: &Index<T>) -> Result<bool> {
         Ok(
diff --git a/banyan/src/tree.rs b/banyan/src/tree.rs
index 162e1e1..0605c58 100644
--- a/banyan/src/tree.rs
+++ b/banyan/src/tree.rs
@@ -584,9 +584,14 @@ impl<T: TreeTypes, R: ReadOnlyStore<T::Link>, W: BlockWriter<T::Link>> Transacti
             // nothing to do
             return Ok(());
         }
-        if !self.is_packed(&tree.snapshot())? {
+        let purged_end = match tree.as_index_ref() {
+            Some(index) => self.ends_in_purged(tree.state().secrets(), index)?,
+            None => false,
+        };
+        if purged_end || !self.is_packed(&tree.snapshot())? {
             // an unpacked tree can not be extended in place without violating the invariants
-            // for packed branches, so just join it with a tree made from the new elements.
+            // for packed branches, and an unsealed node that has been purged (by repair) can not
+            // be extended at all, so just join it with a tree made from the new elements.
             return self.extend_unpacked(tree, from);
         }
         let index = tree.as_index_ref().cloned();
-- 
2.43.0


From 29a3f5fda9f726993b5bda51f0e6a3341960e343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:39 +0000
Subject: [PATCH 15/16] fix: pack no longer moves elements past a purged
 unsealed branch

roots skipped an unsealed branch that was purged by repair and used the sealed
nodes behind it as roots, so pack dropped the purged offsets and repeated elements.
---
 banyan/src/forest/read.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/banyan/src/forest/read.rs b/banyan/src/forest/read.rs
index d47ab97..31ae00f 100644
--- a/banyan/src/forest/read.rs
+++ b/banyan/src/forest/read.rs
@@ -687,6 +687,10 @@ where
                     for child in branch.children.iter() {
                         self.roots0(secrets, child, level, res)?;
                     }
+                } else {
+                    // the children of a purged branch are unknown, so whatever follows it
+                    // can not be a root.
+                    *level = -1;
                 }
             }
         }
-- 
2.43.0


From 7becc1281bc5bdeb31a6c542304e17086f96fc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:38 +0000
Subject: [PATCH 16/16] fix: a loaded tree is no longer always taken for packed

load_tree marked the root as sealed, so that is_packed returned true for every
tree that was loaded from its link.
---
 banyan/src/tree.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/banyan/src/tree.rs b/banyan/src/tree.rs
index 0605c58..967be28 100644
--- a/banyan/src/tree.rs
+++ b/banyan/src/tree.rs
@@ -121,8 +121,9 @@ impl<T: TreeTypes, R: ReadOnlyStore<T::Link>> Forest<T, R> {
     }
 
     pub fn load_tree<V>(&self, secrets: Secrets, link: T::Link) -> Result<Tree<T, V>> {
-        // we pass in a predicate that makes the nodes sealed, since we don't care
-        let (index, byte_range) = self.create_index_from_link(&secrets, |_, _| true, link)?;
+        // without a config we can not know if the root is sealed. If we claimed that it is, every
+        // loaded tree would be taken for packed.
+        let (index, byte_range) = self.create_index_from_link(&secrets, |_, _| false, link)?;
         // store the offset with the snapshot. Snapshots are immutable, so this won't change.
         Ok(Tree::new(index, secrets, byte_range.end))
     }
-- 
2.43.0

