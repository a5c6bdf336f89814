From 32b927be917335b9d1fac65691d69e227d961573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:06 +0000
Subject: [PATCH 1/6] fix: don't leak a root in to_next_sibling /
 to_next_sibling_or_token

Both took the node data out of the handle before finding out that a root has
no parent and hence no siblings, and then returned without releasing it.
---
 src/cursor.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cursor.rs b/src/cursor.rs
index 1288620..679c659 100644
--- a/src/cursor.rs
+++ b/src/cursor.rs
@@ -766,11 +766,13 @@ impl SyntaxNode {
             return self.next_sibling();
         }
 
+        // a root has no siblings; `self` is still the owner here, so it's released as usual
+        let parent = self.parent()?;
+
         let mut ptr = self.take_ptr();
         let data = unsafe { ptr.as_mut() };
         assert!(data.rc.get() == 1);
 
-        let parent = data.parent_node()?;
         let parent_offset = parent.offset();
         let siblings = parent.green_ref().children().raw.enumerate();
         let index = data.index() as usize;
@@ -1206,10 +1208,12 @@ impl SyntaxElement {
             return self.next_sibling_or_token();
         }
 
+        // a root has no siblings; `self` is still the owner here, so it's released as usual
+        let parent = self.parent()?;
+
         let mut ptr = self.take_ptr();
         let data = unsafe { ptr.as_mut() };
 
-        let parent = data.parent_node()?;
         let parent_offset = parent.offset();
         let siblings = parent.green_ref().children().raw.enumerate();
         let index = data.index() as usize;
-- 
2.43.0


From 40ea8f00db2e66bd9b42fff22ec13be351702ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:07 +0000
Subject: [PATCH 2/6] fix: check the child index before attaching a child

An out of range index used to panic after the child was linked to its new
parent and had its green element stolen and freed, so that using the child
after catching the panic was a use after free.
---
 src/cursor.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cursor.rs b/src/cursor.rs
index 679c659..ddd86db 100644
--- a/src/cursor.rs
+++ b/src/cursor.rs
@@ -491,6 +491,10 @@ impl NodeData {
     fn attach_child(&self, index: usize, child: &NodeData) {
         assert!(self.mutable && child.mutable && child.parent().is_none());
         assert!(self.rc.get() > 0 && child.rc.get() > 0);
+        // Check this before touching anything: a panic half way through would leave `child`
+        // linked to a parent whose green node does not own the child's green element.
+        let n_children = self.green().into_node().unwrap().children().len();
+        assert!(index <= n_children, "Bad index: {index}, number of children: {n_children}");
 
         child.index.set(index as u32);
         child.parent.set(Some(self.into()));
-- 
2.43.0


From aae2c141fe535a42b4e090b0b52b81cad9cc119f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:29 +0000
Subject: [PATCH 3/6] fix: don't lose children detached while iterating over
 them

The children iterators advance from the element they returned last. In a
mutable tree that element might be detached by then, which ended the iteration:
'for c in node.children() { c.detach() }' and 'node.splice_children(0..n, ..)'
only ever detached the first child.
---
 src/cursor.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/cursor.rs b/src/cursor.rs
index ddd86db..8126c4e 100644
--- a/src/cursor.rs
+++ b/src/cursor.rs
@@ -1364,6 +1364,7 @@ impl From<SyntaxToken> for SyntaxElement {
 #[derive(Clone, Debug)]
 pub struct SyntaxNodeChildren {
     parent: SyntaxNode,
+    /// The node to return next if the tree is mutable, the last returned node otherwise.
     next: Option<SyntaxNode>,
     next_initialized: bool,
 }
@@ -1394,6 +1395,15 @@ impl SyntaxNodeChildren {
 impl Iterator for SyntaxNodeChildren {
     type Item = SyntaxNode;
     fn next(&mut self) -> Option<SyntaxNode> {
+        if self.parent.is_mutable() {
+            // Advance eagerly, as the caller might detach the node we return.
+            let next =
+                if self.next_initialized { self.next.take() } else { self.parent.first_child() };
+            self.next_initialized = true;
+            self.next = next.as_ref().and_then(SyntaxNode::next_sibling);
+            return next;
+        }
+
         if !self.next_initialized {
             self.next = self.parent.first_child();
             self.next_initialized = true;
@@ -1423,6 +1433,7 @@ impl<F: Fn(SyntaxKind) -> bool> Iterator for SyntaxNodeChildrenByKind<F> {
 #[derive(Clone, Debug)]
 pub struct SyntaxElementChildren {
     parent: SyntaxNode,
+    /// The element to return next if the tree is mutable, the last returned element otherwise.
     next: Option<SyntaxElement>,
     next_initialized: bool,
 }
@@ -1456,6 +1467,18 @@ impl SyntaxElementChildren {
 impl Iterator for SyntaxElementChildren {
     type Item = SyntaxElement;
     fn next(&mut self) -> Option<SyntaxElement> {
+        if self.parent.is_mutable() {
+            // Advance eagerly, as the caller might detach the element we return.
+            let next = if self.next_initialized {
+                self.next.take()
+            } else {
+                self.parent.first_child_or_token()
+            };
+            self.next_initialized = true;
+            self.next = next.as_ref().and_then(SyntaxElement::next_sibling_or_token);
+            return next;
+        }
+
         if !self.next_initialized {
             self.next = self.parent.first_child_or_token();
             self.next_initialized = true;
-- 
2.43.0


From 8d38fad58a3a406bed35e81acdc53b52437bb785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:29 +0000
Subject: [PATCH 4/6] fix: don't return the same child twice from a partially
 consumed by_kind

In an immutable tree the children iterators hold the element they returned
last, so by_kind must continue with the siblings after it.
---
 src/cursor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cursor.rs b/src/cursor.rs
index 8126c4e..930ff1d 100644
--- a/src/cursor.rs
+++ b/src/cursor.rs
@@ -1380,7 +1380,7 @@ impl SyntaxNodeChildren {
         } else {
             SyntaxNodeChildrenByKind {
                 next: self.next.and_then(|node| {
-                    if matcher(node.kind()) {
+                    if self.parent.is_mutable() && matcher(node.kind()) {
                         Some(node)
                     } else {
                         node.next_sibling_by_kind(&matcher)
@@ -1452,7 +1452,7 @@ impl SyntaxElementChildren {
         } else {
             SyntaxElementChildrenByKind {
                 next: self.next.and_then(|node| {
-                    if matcher(node.kind()) {
+                    if self.parent.is_mutable() && matcher(node.kind()) {
                         Some(node)
                     } else {
                         node.next_sibling_or_token_by_kind(&matcher)
-- 
2.43.0


From 90e2094438cf64f00edac538ab04b40cb0422206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:52 +0000
Subject: [PATCH 5/6] fix: look up the version of rowan, not of xtask, before
 releasing

---
 xtask/src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xtask/src/main.rs b/xtask/src/main.rs
index f14e1ea..f117dfc 100644
--- a/xtask/src/main.rs
+++ b/xtask/src/main.rs
@@ -87,7 +87,8 @@ pub fn section(name: &'static str) -> Section {
 
 pub fn cargo_toml() -> Result<CargoToml> {
     let manifest_dir = env::var("CARGO_MANIFEST_DIR")?;
-    let path = PathBuf::from(manifest_dir).join("Cargo.toml");
+    // `CARGO_MANIFEST_DIR` is the directory of xtask itself.
+    let path = PathBuf::from(manifest_dir).join("../Cargo.toml");
     let contents = std::fs::read_to_string(&path)?;
     Ok(CargoToml { path, contents })
 }
-- 
2.43.0


From 1fd373fb568777c1ca81dd695804c4552c16e4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:37 +0000
Subject: [PATCH 6/6] fix: don't borrow green nodes of mutable trees while a
 kind matcher runs

The by-kind lookups iterate over the children in the parent's green node
while they call the matcher. A matcher that edits a mutable tree replaces
and frees that green node, and the lookup goes on in freed memory.
---
 src/cursor.rs | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/src/cursor.rs b/src/cursor.rs
index 930ff1d..5874c75 100644
--- a/src/cursor.rs
+++ b/src/cursor.rs
@@ -387,6 +387,14 @@ impl NodeData {
     }
 
     fn next_sibling_by_kind(&self, matcher: &impl Fn(SyntaxKind) -> bool) -> Option<SyntaxNode> {
+        if self.mutable {
+            let mut next = self.next_sibling_or_token_by_kind(matcher);
+            while let Some(NodeOrToken::Token(token)) = next {
+                next = token.next_sibling_or_token_by_kind(matcher);
+            }
+            return next.and_then(NodeOrToken::into_node);
+        }
+
         let siblings = self.green_siblings().enumerate();
         let index = self.index() as usize;
 
@@ -430,6 +438,19 @@ impl NodeData {
         &self,
         matcher: &impl Fn(SyntaxKind) -> bool,
     ) -> Option<SyntaxElement> {
+        if self.mutable {
+            // The matcher might edit the tree and free the green nodes in it, so
+            // don't borrow from them while it runs.
+            let mut next = self.next_sibling_or_token();
+            while let Some(element) = next {
+                if matcher(element.kind()) {
+                    return Some(element);
+                }
+                next = element.next_sibling_or_token();
+            }
+            return None;
+        }
+
         let siblings = self.green_siblings().enumerate();
         let index = self.index() as usize;
 
@@ -700,6 +721,13 @@ impl SyntaxNode {
     }
 
     pub fn first_child_by_kind(&self, matcher: &impl Fn(SyntaxKind) -> bool) -> Option<SyntaxNode> {
+        if self.data().mutable {
+            return match self.first_child_or_token_by_kind(matcher)? {
+                NodeOrToken::Node(node) => Some(node),
+                NodeOrToken::Token(token) => token.data().next_sibling_by_kind(matcher),
+            };
+        }
+
         self.green_ref().children().raw.enumerate().find_map(|(index, child)| {
             if !matcher(child.as_ref().kind()) {
                 return None;
@@ -738,6 +766,15 @@ impl SyntaxNode {
         &self,
         matcher: &impl Fn(SyntaxKind) -> bool,
     ) -> Option<SyntaxElement> {
+        if self.data().mutable {
+            // See `NodeData::next_sibling_or_token_by_kind`.
+            let first = self.first_child_or_token()?;
+            if matcher(first.kind()) {
+                return Some(first);
+            }
+            return first.next_sibling_or_token_by_kind(matcher);
+        }
+
         self.green_ref().children().raw.enumerate().find_map(|(index, child)| {
             if !matcher(child.as_ref().kind()) {
                 return None;
-- 
2.43.0

