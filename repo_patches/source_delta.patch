From 1d3b9ac410547d3d7ed795c8cd40079b281a9669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:47 +0000
Subject: [PATCH 1/5] fix: good_levels had the left and right level conventions
 swapped

Trees in this crate (and Cursor::join, which builds them) put strictly lower
levels on the left branch and allow ties on the right; the checker rejected
valid trees with a tie on the right and accepted a tie on the left.
---
 src/level_tree.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/level_tree.rs b/src/level_tree.rs
index f4547f5..0c25d54 100644
--- a/src/level_tree.rs
+++ b/src/level_tree.rs
@@ -212,21 +212,21 @@ Tree<E> {
 /// ```
 ///
 /// checks that the levels of the tree follow the convention
-/// of non-increasing to the left branch and decreasing to the
+/// of decreasing to the left branch and non-increasing to the
 /// right branch
 ///
 /// also prints the levels of the failing trees and branches
 pub fn good_levels<E: Debug+Clone+Eq+Hash+'static>(tree: &Tree<E>) -> bool {
 	let mut good = true;
 	if let Some(ref t) = force(&tree.link).l_branch {
-		if t.level > tree.level {
+		if t.level >= tree.level {
 			println!("Tree with level {:?} has left branch with level {:?}", tree.level, t.level);
 			good = false;
 		}
 		if !good_levels(t) { good = false }
 	}
 	if let Some(ref t) = force(&tree.link).r_branch {
-		if t.level >= tree.level {
+		if t.level > tree.level {
 			println!("Tree with level {:?} has right branch with level {:?}", tree.level, t.level);
 			good = false;
 		}
-- 
2.43.0


From 54801fac0674d4d39271d9e036782970cc5f8182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:04 +0000
Subject: [PATCH 2/5] fix: converting an archive stack with an empty active
 section made an empty leaf

---
 src/raz.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/raz.rs b/src/raz.rs
index 5fc57d3..d528dc8 100644
--- a/src/raz.rs
+++ b/src/raz.rs
@@ -761,6 +761,8 @@ for RazTree<E,M> {
 			}
 		}
 		let mut tailstack = tailstack.0.clone();
+		// leaves are never empty, so skip an archive point with nothing after it
+		if tailstack.active_len() == 0 { tailstack.next_archive(); }
 		let name = tailstack.name();
 		let (level, first_tree) = match tailstack.next_archive() {
 			None => return RazTree{meta: treetop_meta(None), tree: None},
@@ -837,6 +839,8 @@ for RazTree<E,M> {
 			}
 		}
 		let mut headstack = headstack.0.clone();
+		// leaves are never empty, so skip an archive point with nothing after it
+		if headstack.active_len() == 0 { headstack.next_archive(); }
 		let name = headstack.name();
 		let (level, first_tree) = match headstack.next_archive() {
 			None => return RazTree{meta: treetop_meta(None), tree: None},
-- 
2.43.0


From 6b5dd2c4d8effb7a6375cc03ba19ca4972ac8e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:52 +0000
Subject: [PATCH 3/5] fix: skip lists over the full hash width panicked on a
 shift by all 64 bits

With path_len >= 64, looking up a key whose hash agrees with another one in all but the last bit
shifted the bit strings by 64: attempt to shift right with overflow (e.g. the u64 keys
4304406627712004213 and 6033884319199786812).
---
 src/skiplist.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/skiplist.rs b/src/skiplist.rs
index a25c94d..01ef8aa 100644
--- a/src/skiplist.rs
+++ b/src/skiplist.rs
@@ -117,9 +117,9 @@ fn build_path_step<K:Clone,V:Clone>
     let mut hsh_bits = path.hash.0.clone();    
     let mut cur_paths = vec![];
     
-    // Discard bits that we've already "traversed"
-    key_bits >>= params.key_biti;
-    hsh_bits >>= params.key_biti;
+    // Discard bits that we've already "traversed" (possibly all of them)
+    key_bits = key_bits.checked_shr(params.key_biti as u32).unwrap_or(0);
+    hsh_bits = hsh_bits.checked_shr(params.key_biti as u32).unwrap_or(0);
     
     if hsh_bits == key_bits {
         for i in params.key_biti..params.path_len { 
-- 
2.43.0


From 11beb179d49120ba5a7ff582924fc35a1b254c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:41 +0000
Subject: [PATCH 4/5] fix: name the branches of iraztree_depth_4 as its
 documentation draws them

---
 eval/src/examples.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/eval/src/examples.rs b/eval/src/examples.rs
index bf6cced..36ee305 100644
--- a/eval/src/examples.rs
+++ b/eval/src/examples.rs
@@ -34,16 +34,16 @@ pub fn iraztree_depth_4<A:Adapt+From<usize>>() -> IRazTree<A> {
   	r.archive_left(2,Some(name_of_string(String::from("lr"))));
   	r.push_left(A::from(7));
   	r.push_left(A::from(8));
-  	r.archive_left(6,Some(name_of_string(String::from("rl"))));
+  	r.archive_left(6,Some(name_of_string(String::from("t"))));
   	r.push_left(A::from(9));
   	r.push_left(A::from(10));
-  	r.archive_left(3,Some(name_of_string(String::from("r"))));
+  	r.archive_left(3,Some(name_of_string(String::from("rl"))));
   	r.push_left(A::from(11));
   	r.push_left(A::from(12));
-  	r.archive_left(5,Some(name_of_string(String::from("rr"))));
+  	r.archive_left(5,Some(name_of_string(String::from("r"))));
   	r.push_left(A::from(13));
   	r.push_left(A::from(14));
-  	r.archive_left(4,Some(name_of_string(String::from("g"))));
+  	r.archive_left(4,Some(name_of_string(String::from("rr"))));
   	r.push_left(A::from(15));
   	r.push_left(A::from(16));
   	r.unfocus()
-- 
2.43.0


From 6b6b4ecf9f5dece26409982cfa74f5dc915008dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:17 +0000
Subject: [PATCH 5/5] fix: hash a trie leaf's map independently of the order
 its bindings are listed in

---
 src/trie.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/trie.rs b/src/trie.rs
index ebe3f29..09451b9 100644
--- a/src/trie.rs
+++ b/src/trie.rs
@@ -102,12 +102,13 @@ impl<K:'static+Hash+Eq+Clone+Debug,
     }
 
     fn hash_map (map: &HashMap<K,V>) -> HashVal {
-        let mut state = DefaultHasher::new();
-        for (k,v) in map.iter() {
-            k.hash(&mut state);
-            v.hash(&mut state);
+        // Equal maps may list their bindings in different orders, so the
+        // hash must not depend on the order: add up those of the bindings.
+        let mut sum : usize = 0;
+        for kv in map.iter() {
+            sum = sum.wrapping_add(my_hash(kv) as usize);
         };
-        HashVal(state.finish() as usize)
+        HashVal(sum)
     }
 
     fn split_map (map: HashMap<K,V>, bits:&Bits,
-- 
2.43.0

