From 7709bbc9f05405b98ba9590f459e7b89c76c9297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:47 +0000
Subject: [PATCH 1/9] fix: ZDD intersect with the unit family must keep only
 the empty set
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

{∅} ∩ G returned G itself (and F ∩ {∅} returned F): the terminal arms treated
the unit family as the identity of intersection. It is {∅} when ∅ ∈ G, else ∅.
---
 bddcore/src/zdd_ops.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/bddcore/src/zdd_ops.rs b/bddcore/src/zdd_ops.rs
index 4198735..c59e6c9 100644
--- a/bddcore/src/zdd_ops.rs
+++ b/bddcore/src/zdd_ops.rs
@@ -25,8 +25,16 @@ impl ZddManager {
             (_, Node::Undet) => f,
             (Node::Zero, _) => self.zero(),
             (_, Node::Zero) => self.zero(),
-            (Node::One, _) => g,
-            (_, Node::One) => f,
+            (Node::One, Node::One) => self.one(),
+            // {∅} ∩ g keeps ∅ only when g contains it: descend g's 0-edges.
+            (Node::One, Node::NonTerminal(gnode)) => {
+                let g0 = gnode.edge(0);
+                self.intersect(f, g0)
+            }
+            (Node::NonTerminal(fnode), Node::One) => {
+                let f0 = fnode.edge(0);
+                self.intersect(f0, g)
+            }
             (Node::NonTerminal(fnode), Node::NonTerminal(_gnode))
                 if self.node_level(f) > self.node_level(g) =>
             {
-- 
2.43.0


From f786a9a17cc798873206c2180727dbeaf6943840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:48 +0000
Subject: [PATCH 2/9] fix: ZDD divide must compute the family quotient
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

{xy}/{y} came out empty when x sits above y (the high branch was dropped),
{x}/{y} was undetermined instead of empty, and {∅}/G returned G.
---
 bddcore/src/zdd_ops.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/bddcore/src/zdd_ops.rs b/bddcore/src/zdd_ops.rs
index c59e6c9..5076fee 100644
--- a/bddcore/src/zdd_ops.rs
+++ b/bddcore/src/zdd_ops.rs
@@ -235,17 +235,23 @@ impl ZddManager {
             (_, Node::Zero) => self.undet(),
             (_, Node::One) => f,
             (Node::Zero, _) => self.zero(),
-            (Node::One, _) => g,
+            // g contains a set with g's top element, which no set of {∅} covers.
+            (Node::One, _) => self.zero(),
+            // f's top element does not occur in g: it stays in the quotient.
             (Node::NonTerminal(fnode), Node::NonTerminal(_gnode))
                 if self.node_level(f) > self.node_level(g) =>
             {
-                let f0 = fnode.edge(0);
-                self.divide(f0, g)
+                let (f0, f1) = (fnode.edge(0), fnode.edge(1));
+                let headerid = fnode.headerid();
+                let low = self.divide(f0, g);
+                let high = self.divide(f1, g);
+                self.create_node(headerid, low, high)
             }
+            // g's top element does not occur in f: nothing divides.
             (Node::NonTerminal(_fnode), Node::NonTerminal(_gnode))
                 if self.node_level(f) < self.node_level(g) =>
             {
-                self.undet()
+                self.zero()
             }
             (Node::NonTerminal(fnode), Node::NonTerminal(gnode)) => {
                 let (f0, f1) = (fnode.edge(0), fnode.edge(1));
-- 
2.43.0


From 5fa5277aab192347f3d37d142e4120bf459b35a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:48 +0000
Subject: [PATCH 3/9] fix: MTMDD2 lte must hold where the operands are equal

f <= g returned f < g unless the two were equal everywhere.
---
 mddcore/src/mtmdd2_ops.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/mddcore/src/mtmdd2_ops.rs b/mddcore/src/mtmdd2_ops.rs
index c14323c..0e85dd4 100644
--- a/mddcore/src/mtmdd2_ops.rs
+++ b/mddcore/src/mtmdd2_ops.rs
@@ -259,11 +259,8 @@ where
         match (f, g) {
             (Node::Value(fnode), Node::Value(gnode)) => {
                 let resulteq = self.veq(fnode, gnode);
-                if resulteq == self.mdd().one() {
-                    return Node::Bool(self.mdd().one());
-                }
                 let resultlt = self.vlt(fnode, gnode);
-                Node::Bool(resultlt)
+                Node::Bool(self.mdd_mut().or(resulteq, resultlt))
             }
             _ => Node::Bool(self.mdd().undet()),
         }
-- 
2.43.0


From e32b07540d2d03cdb56365ea1fc6b91375a16230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:48 +0000
Subject: [PATCH 4/9] fix: MTMDD2 undet_boolean must name the boolean forest's
 undet

It wrapped the value forest's undet id (0), which is the boolean Zero terminal.
---
 mddcore/src/mtmdd2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mddcore/src/mtmdd2.rs b/mddcore/src/mtmdd2.rs
index fe8676d..0a53c56 100644
--- a/mddcore/src/mtmdd2.rs
+++ b/mddcore/src/mtmdd2.rs
@@ -87,7 +87,7 @@ where
 
     #[inline]
     pub fn undet_boolean(&self) -> Node {
-        Node::Bool(self.mtmdd.undet())
+        Node::Bool(self.mdd.undet())
     }
 
     #[inline]
-- 
2.43.0


From 53cac7da4484382df5edc2160986e321c541a85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:48 +0000
Subject: [PATCH 5/9] fix: boolean mdd_count must memoize per (node, level)

The memo was keyed on the node alone although the count depends on how many
levels are skipped above it, so a node reached at two different depths was
counted with the wrong multiplicity.
---
 mss/src/mdd_count.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mss/src/mdd_count.rs b/mss/src/mdd_count.rs
index b99d257..8a3d78d 100644
--- a/mss/src/mdd_count.rs
+++ b/mss/src/mdd_count.rs
@@ -183,7 +183,7 @@ fn bmdd_count<V, T>(
     mdd: &mdd::MddManager,
     node: NodeId,
     ss: &HashSet<V>,
-    cache: &mut BddHashMap<NodeId, T>,
+    cache: &mut BddHashMap<(NodeId, Option<usize>), T>,
     level: Option<usize>,
     level2headers: &[usize],
 ) -> T
@@ -191,7 +191,7 @@ where
     T: Add<Output = T> + Clone + From<u32> + Mul<Output = T>,
     V: MddValue,
 {
-    let key = node;
+    let key = (node, level);
     if let Some(x) = cache.get(&key) {
         return x.clone();
     }
-- 
2.43.0


From a6971bdd676c1240d250220060dd22e3a06522fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:48 +0000
Subject: [PATCH 6/9] fix: mdd_count of a constant must respect the selected
 values

A terminal root was counted as 1 whether or not its value is selected, so
mdd_count disagreed with mdd_extract.
---
 mss/src/mdd_count.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mss/src/mdd_count.rs b/mss/src/mdd_count.rs
index 8a3d78d..3a3a0c4 100644
--- a/mss/src/mdd_count.rs
+++ b/mss/src/mdd_count.rs
@@ -114,7 +114,7 @@ where
                 }
                 vmdd_count(mdd.mtmdd(), *fnode, ss, &mut cache, Some(level), &level2headers)
             } else {
-                T::from(1)
+                vmdd_count(mdd.mtmdd(), *fnode, ss, &mut cache, None, &[])
             }
         }
         Node::Bool(fnode) => {
@@ -129,7 +129,7 @@ where
                 }
                 bmdd_count(mdd.mdd(), *fnode, ss, &mut cache, Some(level), &level2headers)
             } else {
-                T::from(1)
+                bmdd_count(mdd.mdd(), *fnode, ss, &mut cache, None, &[])
             }
         }
     }
-- 
2.43.0


From e5c3f60cdce8afa33bedb10c1a01c54671e53ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:48 +0000
Subject: [PATCH 7/9] fix: rpn must return Err on stack underflow

An operator without enough operands panicked although rpn documents Err for an
expression that does not reduce to exactly one node.
---
 bss/src/bdd.rs | 20 ++++++++--------
 mss/src/mdd.rs | 64 +++++++++++++++++++++++++-------------------------
 2 files changed, 42 insertions(+), 42 deletions(-)

diff --git a/bss/src/bdd.rs b/bss/src/bdd.rs
index 6b2e90c..880d17b 100644
--- a/bss/src/bdd.rs
+++ b/bss/src/bdd.rs
@@ -276,32 +276,32 @@ impl BddMgr {
                 }
                 "&" => {
                     let mut bdd = self.bdd.borrow_mut();
-                    let right = stack.pop().unwrap();
-                    let left = stack.pop().unwrap();
+                    let right = stack.pop().ok_or("Invalid expression")?;
+                    let left = stack.pop().ok_or("Invalid expression")?;
                     stack.push(bdd.and(left, right));
                 }
                 "|" => {
                     let mut bdd = self.bdd.borrow_mut();
-                    let right = stack.pop().unwrap();
-                    let left = stack.pop().unwrap();
+                    let right = stack.pop().ok_or("Invalid expression")?;
+                    let left = stack.pop().ok_or("Invalid expression")?;
                     stack.push(bdd.or(left, right));
                 }
                 "^" => {
                     let mut bdd = self.bdd.borrow_mut();
-                    let right = stack.pop().unwrap();
-                    let left = stack.pop().unwrap();
+                    let right = stack.pop().ok_or("Invalid expression")?;
+                    let left = stack.pop().ok_or("Invalid expression")?;
                     stack.push(bdd.xor(left, right));
                 }
                 "~" => {
                     let mut bdd = self.bdd.borrow_mut();
-                    let node = stack.pop().unwrap();
+                    let node = stack.pop().ok_or("Invalid expression")?;
                     stack.push(bdd.not(node));
                 }
                 "?" => {
                     let mut bdd = self.bdd.borrow_mut();
-                    let else_ = stack.pop().unwrap();
-                    let then = stack.pop().unwrap();
-                    let cond = stack.pop().unwrap();
+                    let else_ = stack.pop().ok_or("Invalid expression")?;
+                    let then = stack.pop().ok_or("Invalid expression")?;
+                    let cond = stack.pop().ok_or("Invalid expression")?;
                     stack.push(bdd.ite(cond, then, else_));
                 }
                 _ if token.starts_with("save(") && token.ends_with(")") => {
diff --git a/mss/src/mdd.rs b/mss/src/mdd.rs
index a21cade..92a26f4 100644
--- a/mss/src/mdd.rs
+++ b/mss/src/mdd.rs
@@ -301,113 +301,113 @@ where
             match token {
                 "+" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let b = stack.pop().unwrap();
-                    let a = stack.pop().unwrap();
+                    let b = stack.pop().ok_or("Invalid expression")?;
+                    let a = stack.pop().ok_or("Invalid expression")?;
                     let tmp = mdd.add(a, b);
                     stack.push(tmp);
                 }
                 "-" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let b = stack.pop().unwrap();
-                    let a = stack.pop().unwrap();
+                    let b = stack.pop().ok_or("Invalid expression")?;
+                    let a = stack.pop().ok_or("Invalid expression")?;
                     let tmp = mdd.sub(a, b);
                     stack.push(tmp);
                 }
                 "*" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let b = stack.pop().unwrap();
-                    let a = stack.pop().unwrap();
+                    let b = stack.pop().ok_or("Invalid expression")?;
+                    let a = stack.pop().ok_or("Invalid expression")?;
                     let tmp = mdd.mul(a, b);
                     stack.push(tmp);
                 }
                 "/" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let b = stack.pop().unwrap();
-                    let a = stack.pop().unwrap();
+                    let b = stack.pop().ok_or("Invalid expression")?;
+                    let a = stack.pop().ok_or("Invalid expression")?;
                     let tmp = mdd.div(a, b);
                     stack.push(tmp);
                 }
                 "min" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let b = stack.pop().unwrap();
-                    let a = stack.pop().unwrap();
+                    let b = stack.pop().ok_or("Invalid expression")?;
+                    let a = stack.pop().ok_or("Invalid expression")?;
                     let tmp = mdd.min(a, b);
                     stack.push(tmp);
                 }
                 "max" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let b = stack.pop().unwrap();
-                    let a = stack.pop().unwrap();
+                    let b = stack.pop().ok_or("Invalid expression")?;
+                    let a = stack.pop().ok_or("Invalid expression")?;
                     let tmp = mdd.max(a, b);
                     stack.push(tmp);
                 }
                 "==" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let b = stack.pop().unwrap();
-                    let a = stack.pop().unwrap();
+                    let b = stack.pop().ok_or("Invalid expression")?;
+                    let a = stack.pop().ok_or("Invalid expression")?;
                     let tmp = mdd.eq(a, b);
                     stack.push(tmp);
                 }
                 "!=" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let b = stack.pop().unwrap();
-                    let a = stack.pop().unwrap();
+                    let b = stack.pop().ok_or("Invalid expression")?;
+                    let a = stack.pop().ok_or("Invalid expression")?;
                     let tmp = mdd.neq(a, b);
                     stack.push(tmp);
                 }
                 "<" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let b = stack.pop().unwrap();
-                    let a = stack.pop().unwrap();
+                    let b = stack.pop().ok_or("Invalid expression")?;
+                    let a = stack.pop().ok_or("Invalid expression")?;
                     let tmp = mdd.lt(a, b);
                     stack.push(tmp);
                 }
                 "<=" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let b = stack.pop().unwrap();
-                    let a = stack.pop().unwrap();
+                    let b = stack.pop().ok_or("Invalid expression")?;
+                    let a = stack.pop().ok_or("Invalid expression")?;
                     let tmp = mdd.lte(a, b);
                     stack.push(tmp);
                 }
                 ">" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let b = stack.pop().unwrap();
-                    let a = stack.pop().unwrap();
+                    let b = stack.pop().ok_or("Invalid expression")?;
+                    let a = stack.pop().ok_or("Invalid expression")?;
                     let tmp = mdd.gt(a, b);
                     stack.push(tmp);
                 }
                 ">=" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let b = stack.pop().unwrap();
-                    let a = stack.pop().unwrap();
+                    let b = stack.pop().ok_or("Invalid expression")?;
+                    let a = stack.pop().ok_or("Invalid expression")?;
                     let tmp = mdd.gte(a, b);
                     stack.push(tmp);
                 }
                 "&&" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let b = stack.pop().unwrap();
-                    let a = stack.pop().unwrap();
+                    let b = stack.pop().ok_or("Invalid expression")?;
+                    let a = stack.pop().ok_or("Invalid expression")?;
                     let tmp = mdd.and(a, b);
                     stack.push(tmp);
                 }
                 "||" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let b = stack.pop().unwrap();
-                    let a = stack.pop().unwrap();
+                    let b = stack.pop().ok_or("Invalid expression")?;
+                    let a = stack.pop().ok_or("Invalid expression")?;
                     let tmp = mdd.or(a, b);
                     stack.push(tmp);
                 }
                 "!" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let a = stack.pop().unwrap();
+                    let a = stack.pop().ok_or("Invalid expression")?;
                     let tmp = mdd.not(a);
                     stack.push(tmp);
                 }
                 "?" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let c = stack.pop().unwrap();
-                    let b = stack.pop().unwrap();
-                    let a = stack.pop().unwrap();
+                    let c = stack.pop().ok_or("Invalid expression")?;
+                    let b = stack.pop().ok_or("Invalid expression")?;
+                    let a = stack.pop().ok_or("Invalid expression")?;
                     let tmp = mdd.ite(a, b, c);
                     stack.push(tmp);
                 }
-- 
2.43.0


From 53558843063ff2c1cdafb33bb7e9c4f376e8492c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:49 +0000
Subject: [PATCH 8/9] fix: minpath/mincut families must reuse headers across
 conversions

Every conversion created fresh headers, so computing the same family twice gave
two different nodes (eq was false) and the header table grew without bound.
---
 bss/src/zdd_convert.rs  | 9 ++++++++-
 mss/src/zmdd_convert.rs | 8 +++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/bss/src/zdd_convert.rs b/bss/src/zdd_convert.rs
index 5f2535e..e573601 100644
--- a/bss/src/zdd_convert.rs
+++ b/bss/src/zdd_convert.rs
@@ -39,7 +39,14 @@ pub(crate) fn to_zdd(
                 Some(&h) => h,
                 None => {
                     let header = src.get_header(&shid).unwrap();
-                    let h = dst.create_header(header.level(), header.label());
+                    // Reuse the header of an earlier conversion, so that equal families
+                    // share nodes (canonicity) however often they are computed.
+                    let known = (0..dst.size().0).find(|h| {
+                        let x = dst.get_header(h).unwrap();
+                        x.level() == header.level() && x.label() == header.label()
+                    });
+                    let h = known
+                        .unwrap_or_else(|| dst.create_header(header.level(), header.label()));
                     zh.insert(shid, h);
                     h
                 }
diff --git a/mss/src/zmdd_convert.rs b/mss/src/zmdd_convert.rs
index 167671c..bebfa5f 100644
--- a/mss/src/zmdd_convert.rs
+++ b/mss/src/zmdd_convert.rs
@@ -50,7 +50,13 @@ where
     match hmap.get(&shid) {
         Some(&h) => h,
         None => {
-            let h = dst.create_header(level, label, edge_num);
+            // Reuse the header of an earlier conversion, so that equal families share
+            // nodes (canonicity) however often they are computed.
+            let known = (0..dst.size().0).find(|h| {
+                let x = dst.get_header(h).unwrap();
+                x.level() == level && x.label() == label && x.edge_num() == edge_num
+            });
+            let h = known.unwrap_or_else(|| dst.create_header(level, label, edge_num));
             hmap.insert(shid, h);
             h
         }
-- 
2.43.0


From 89e4220d3bb1b97dc1593473f691927eb1e590ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:33 +0000
Subject: [PATCH 9/9] fix: get_varorder must list variables with a single state

A variable declared with one state has no node, so reading the order off
the variables' nodes panicked, and with it every minpath/mincut.
---
 mss/src/mdd.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/mss/src/mdd.rs b/mss/src/mdd.rs
index 92a26f4..bf063bc 100644
--- a/mss/src/mdd.rs
+++ b/mss/src/mdd.rs
@@ -54,6 +54,8 @@ pub struct MddMgr<V> {
     mdd: Rc<RefCell<MtMdd2Manager<V>>>,
     gc: Rc<RefCell<GcState>>,
     vars: HashMap<String, MddNode<V>>,
+    /// The declared variables with their numbers of states, in declaration (level) order.
+    order: Vec<(String, usize)>,
 }
 
 /// A handle to a node in an [`MddMgr`]'s forest.
@@ -133,6 +135,7 @@ where
                 floor: GC_FLOOR,
             })),
             vars: HashMap::new(),
+            order: Vec::new(),
         }
     }
 
@@ -224,19 +227,13 @@ where
         // Variables stay alive for the manager's lifetime via a pinned handle.
         let result = MddNode::new(&self.mdd, &self.gc, node);
         self.vars.insert(label.to_string(), result.clone());
+        self.order.push((label.to_string(), range));
         result
     }
 
     pub fn get_varorder(&self) -> Vec<(String, usize)> {
-        let mut result = vec![("?".to_string(), 0); self.vars.len()];
-        for (k, v) in self.vars.iter() {
-            let headerid = v.get_header().unwrap();
-            let mdd = self.mdd.borrow();
-            let header = mdd.mtmdd().get_header(&headerid).unwrap();
-            let level = header.level() as usize;
-            result[level] = (k.clone(), header.edge_num());
-        }
-        result
+        // Not read off the variables' nodes: a variable with a single state has none.
+        self.order.clone()
     }
 
     /// Builds an MTMDD2 node from an expression in Reverse Polish Notation.
-- 
2.43.0

