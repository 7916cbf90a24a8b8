From 4c1b53ff278e459bd3439d594635725ee14b3944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:42 +0000
Subject: [PATCH 01/34] fix: Amount::inverse returned a negative amount
 unchanged

A blank posting facing a negative balance received the same (negative)
amount instead of the opposite one, so the transaction did not balance.
---
 src/amount.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/amount.rs b/src/amount.rs
index 9e08c94..10295cd 100644
--- a/src/amount.rs
+++ b/src/amount.rs
@@ -74,13 +74,12 @@ impl Amount {
 
     /// Creates an amount with the opposite sign on the quantity.
     pub fn inverse(&self) -> Amount {
-        let new_quantity = if self.quantity.is_sign_positive() {
-            let mut x = self.quantity.clone();
-            x.set_sign_negative();
-            x
+        let mut new_quantity = self.quantity;
+        if new_quantity.is_sign_positive() {
+            new_quantity.set_sign_negative();
         } else {
-            self.quantity
-        };
+            new_quantity.set_sign_positive();
+        }
 
         unsafe { Amount::new(new_quantity, Some(&*self.commodity)) }
     }
-- 
2.43.0


From bef6520bbeb377ec1b52e15db5d170b1ad0f6a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:58 +0000
Subject: [PATCH 02/34] fix: do not form references from null commodity
 pointers in Amount arithmetic

inverse, + and * dereferenced the commodity pointer of commodity-less
amounts, which is null (undefined behaviour; newer compilers abort).
---
 src/amount.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/amount.rs b/src/amount.rs
index 10295cd..2a2eeb8 100644
--- a/src/amount.rs
+++ b/src/amount.rs
@@ -81,7 +81,7 @@ impl Amount {
             new_quantity.set_sign_positive();
         }
 
-        unsafe { Amount::new(new_quantity, Some(&*self.commodity)) }
+        Amount::new(new_quantity, Some(self.commodity))
     }
 
     /// Inverts the sign on the amount.
@@ -122,7 +122,7 @@ impl Add<Amount> for Amount {
 
         let sum = self.quantity + rhs.quantity;
 
-        unsafe { Amount::new(sum, Some(&*self.commodity)) }
+        Amount::new(sum, Some(self.commodity))
     }
 }
 
@@ -166,7 +166,7 @@ impl Mul<Amount> for Amount {
             self.commodity
         };
 
-        unsafe { Amount::new(quantity, Some(&*commodity)) }
+        Amount::new(quantity, Some(commodity))
     }
 }
 
-- 
2.43.0


From 9e67aea71b0ad0c5554e22d1bb933ca8a2e7df4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:12 +0000
Subject: [PATCH 03/34] fix: keep commodities at a stable address

The pool stored commodities by value in a HashMap and handed out raw
pointers to them; the pointers dangled as soon as the map grew.
---
 src/pool.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/pool.rs b/src/pool.rs
index 719e69c..5b122be 100644
--- a/src/pool.rs
+++ b/src/pool.rs
@@ -24,7 +24,8 @@ pub type CommodityIndex = NodeIndex;
 pub struct CommodityPool {
     /// Map (symbol, commodity)
     // pub(crate) commodities: HashMap<String, NodeIndex>,
-    pub(crate) commodities: HashMap<String, Commodity>,
+    // Boxed, so that the pointers to the commodities remain valid when the map grows.
+    pub(crate) commodities: HashMap<String, Box<Commodity>>,
     // pub(crate) commodities: HashMap<String, Rc<Commodity>>,
     /// Commodity annotations. symbol, annotation
     pub(crate) annotated_commodities: HashMap<String, Annotation>,
@@ -76,10 +77,15 @@ impl CommodityPool {
             self.annotated_commodities.insert(symbol.to_owned(), ann);
         }
 
-        // move to map
-        self.commodities.insert(symbol.to_string(), c);
+        // move to map. An existing commodity is replaced in place, keeping its address.
+        match self.commodities.get_mut(symbol) {
+            Some(existing) => **existing = c,
+            None => {
+                self.commodities.insert(symbol.to_string(), Box::new(c));
+            }
+        }
         // get the new address.
-        let new_commodity = self.commodities.get(symbol).unwrap();
+        let new_commodity: &Commodity = self.commodities.get(symbol).unwrap();
 
         // add to price history graph.
         let cdty_ptr = new_commodity as *const Commodity;
@@ -98,7 +104,7 @@ impl CommodityPool {
     }
 
     pub fn find(&self, symbol: &str) -> Option<&Commodity> {
-        self.commodities.get(symbol)
+        self.commodities.get(symbol).map(|c| c.as_ref())
     }
 
     pub fn find_index(&self, symbol: &str) -> Option<CommodityIndex> {
@@ -128,7 +134,7 @@ impl CommodityPool {
                     .insert(symbol.to_owned(), annotation.unwrap());
             }
 
-            c
+            c.as_ref()
         } else {
             self.create(symbol, annotation)
         }
-- 
2.43.0


From aaaf596645a39c7e0e50186640ef2151676917c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:24 +0000
Subject: [PATCH 04/34] fix: keep accounts at a stable address

Sub-accounts were stored by value in a HashMap while postings and child
accounts hold raw pointers to them; the pointers dangled when the map grew.
---
 src/account.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/account.rs b/src/account.rs
index 1fec747..5e8abe4 100644
--- a/src/account.rs
+++ b/src/account.rs
@@ -12,7 +12,8 @@ pub struct Account {
     pub name: String,
     // note
     // depth
-    pub accounts: HashMap<String, Account>,
+    // Boxed, so that the pointers to the accounts remain valid when the map grows.
+    pub accounts: HashMap<String, Box<Account>>,
     pub posts: Vec<*const Post>,
     // deferred posts
     // value_expr
@@ -39,7 +40,7 @@ impl Account {
 
         let self_mut = self.get_account_mut(self as *const Account as *mut Account);
 
-        self_mut.accounts.insert(first.into(), new_account);
+        self_mut.accounts.insert(first.into(), Box::new(new_account));
 
         let Some(new_ref) = self.accounts.get(first)
             else {panic!("should not happen")};
@@ -100,7 +101,7 @@ impl Account {
     pub fn find_or_create(&self, name: &str, auto_create: bool) -> Option<*const Account> {
         // search for direct hit.
         if let Some(found) = self.accounts.get(name) {
-            return Some(found);
+            return Some(found.as_ref());
         }
 
         // otherwise search for name parts in between the `:`
@@ -120,7 +121,7 @@ impl Account {
 
         if let Some(account_opt) = self.accounts.get(first) {
             // keep this value
-            account = account_opt;
+            account = account_opt.as_ref();
         } else {
             if !auto_create {
                 return None;
@@ -174,7 +175,7 @@ impl Account {
         // Push the current node to the Vec
         nodes.push(self);
         // 
-        let mut children: Vec<&Account> = self.accounts.values().into_iter().collect();
+        let mut children: Vec<&Account> = self.accounts.values().map(|acc| acc.as_ref()).collect();
         children.sort_unstable_by_key(|acc| &acc.name);
         // If the node has children, recursively call flatten on them
         for child in children {
-- 
2.43.0


From c4f9a2012ada78836ccf12d927f55227acbf8f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:47 +0000
Subject: [PATCH 05/34] fix: keep posts at a stable address

Accounts hold raw pointers to the posts of a transaction; the pointers
dangled, and balances were read from freed memory, once a transaction
had more posts than fit the initial Vec allocation.
---
 src/journal.rs | 2 +-
 src/xact.rs    | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/journal.rs b/src/journal.rs
index 08b4a15..96e5c02 100644
--- a/src/journal.rs
+++ b/src/journal.rs
@@ -42,7 +42,7 @@ impl Journal {
     }
 
     pub fn all_posts(&self) -> Vec<&Post> {
-        self.xacts.iter().flat_map(|x| x.posts.iter()).collect()
+        self.xacts.iter().flat_map(|x| x.posts.iter()).map(|p| p.as_ref()).collect()
     }
 
     pub fn get_account(&self, acct_ptr: *const Account) -> &Account {
diff --git a/src/xact.rs b/src/xact.rs
index d7e879e..e222e24 100644
--- a/src/xact.rs
+++ b/src/xact.rs
@@ -15,7 +15,8 @@ pub struct Xact {
     pub date: Option<NaiveDate>,
     pub aux_date: Option<NaiveDate>,
     pub payee: String,
-    pub posts: Vec<Post>,
+    // Boxed, so that the pointers to the posts remain valid when more posts are added.
+    pub posts: Vec<Box<Post>>,
     pub note: Option<String>,
     // pub balance: Amount,
 }
@@ -78,7 +79,7 @@ impl Xact {
     /// Adds the post to the collection and returns the reference to it.
     pub fn add_post(&mut self, mut post: Post) -> &Post {
         post.xact_ptr = self as *const Xact;
-        self.posts.push(post);
+        self.posts.push(Box::new(post));
 
         self.posts.last().unwrap()
     }
@@ -138,7 +139,7 @@ pub fn finalize(xact_ptr: *const Xact, journal: &mut Journal) {
         } else if !null_post.is_null() {
             todo!()
         } else {
-            null_post = post as *mut Post;
+            null_post = post.as_mut() as *mut Post;
         }
     }
 
-- 
2.43.0


From c8dce49bd5e14e3171fdd93335c95a52c6bec70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:49 +0000
Subject: [PATCH 06/34] fix: keep the posts' transaction pointers valid when
 transactions move

Xact values move when added to the journal and when the journal's Vec
grows, leaving the xact pointer of their posts dangling.
---
 src/journal.rs | 9 +++++++++
 src/xact.rs    | 8 ++++++++
 2 files changed, 17 insertions(+)

diff --git a/src/journal.rs b/src/journal.rs
index 96e5c02..4787838 100644
--- a/src/journal.rs
+++ b/src/journal.rs
@@ -36,7 +36,16 @@ impl Journal {
     }
 
     pub fn add_xact(&mut self, xact: Xact) -> &Xact {
+        let relocated = self.xacts.len() == self.xacts.capacity();
         self.xacts.push(xact);
+
+        // The posts point back to their xact. Refresh the pointers for the xacts that moved:
+        // the new one and, if the collection had to grow, all the others.
+        let first_moved = if relocated { 0 } else { self.xacts.len() - 1 };
+        for xact in &mut self.xacts[first_moved..] {
+            xact.link_posts();
+        }
+
         //self.xacts.len() - 1
         self.xacts.last().unwrap()
     }
diff --git a/src/xact.rs b/src/xact.rs
index e222e24..6d8b91e 100644
--- a/src/xact.rs
+++ b/src/xact.rs
@@ -83,6 +83,14 @@ impl Xact {
 
         self.posts.last().unwrap()
     }
+
+    /// Points the posts to this xact. Must be called after the xact is moved.
+    pub(crate) fn link_posts(&mut self) {
+        let xact_ptr = self as *const Xact;
+        for post in &mut self.posts {
+            post.xact_ptr = xact_ptr;
+        }
+    }
 }
 
 impl Default for Xact {
-- 
2.43.0


From 0f68e1d9b75e99ae6d1ef8bac4857db7485f7697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:52 +0000
Subject: [PATCH 07/34] fix: find_account panicked for a missing sub-account of
 an existing account

---
 src/account.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/account.rs b/src/account.rs
index 5e8abe4..d9f7481 100644
--- a/src/account.rs
+++ b/src/account.rs
@@ -133,7 +133,7 @@ impl Account {
         // Search recursively.
         if !rest.is_empty() {
             let acct = self.get_account_mut(account);
-            account = acct.find_or_create(rest, auto_create).unwrap();
+            account = acct.find_or_create(rest, auto_create)?;
         }
 
         Some(account)
-- 
2.43.0


From df6ce7b280a027673999938f912f632e11bdfeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:55 +0000
Subject: [PATCH 08/34] fix: find_index panicked for an unknown symbol instead
 of returning None

---
 src/pool.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pool.rs b/src/pool.rs
index 5b122be..fb10c4e 100644
--- a/src/pool.rs
+++ b/src/pool.rs
@@ -108,8 +108,8 @@ impl CommodityPool {
     }
 
     pub fn find_index(&self, symbol: &str) -> Option<CommodityIndex> {
-        let x = self.commodities.get(symbol);
-        x.unwrap().graph_index
+        let x = self.commodities.get(symbol)?;
+        x.graph_index
     }
 
     /// Finds a commodity with the given symbol, or creates one.
-- 
2.43.0


From 924f848224ccf9f840b90dbc692cc1d365096f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:57 +0000
Subject: [PATCH 09/34] fix: transaction header without a payee was rejected
 because of its line ending

The line ending became part of the date when nothing else followed it.
---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index ae56776..41f94e4 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -256,7 +256,7 @@ impl<'j, T: Read> Parser<'j, T> {
     }
 
     fn create_xact(&mut self) -> *const Xact {
-        let tokens = scanner::tokenize_xact_header(&self.buffer);
+        let tokens = scanner::tokenize_xact_header(self.buffer.trim_end());
         let xact = Xact::create(tokens[0], tokens[1], tokens[2], tokens[3]);
 
         // Add xact to the journal
-- 
2.43.0


From 80103d1b77a95bca45ae676656cd9b12e12f737a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:10 +0000
Subject: [PATCH 10/34] fix: the first character of a cost was dropped when no
 space follows @ or @@

---
 src/scanner.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index 60d4007..b4af063 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -381,10 +381,10 @@ fn scan_cost(input: &str) -> CostTokens {
 
     let (first_char, is_per_unit) = if input.chars().nth(1) != Some('@') {
         // per-unit cost
-        (2, true)
+        (1, true)
     } else {
         // total cost
-        (3, false)
+        (2, false)
     };
     let input = &input[first_char..].trim_start();
     let (amount_tokens, input) = scan_amount(input);
-- 
2.43.0


From e70562d13b8c07cb8d50d47d304de4caf7f7c4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:51 +0000
Subject: [PATCH 11/34] fix: reject an amount that cannot be read instead of
 treating it as blank

A posting such as '1,000 EUR' or '1.2.3 EUR' was silently taken as having
no amount and was then filled in from the other postings; an unreadable
cost was silently ignored. The function already documents that it panics
when parsing fails.
---
 src/parser.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 41f94e4..e373b62 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -66,7 +66,7 @@ pub fn parse_amount(amount_str: &str, journal: &mut Journal) -> Option<Amount> {
 }
 
 /// Parse amount parts (quantity, commodity), i.e. "25", "AUD".
-/// Returns Amount.
+/// Returns Amount, or None if there is nothing to parse.
 /// Panics if parsing fails.
 pub fn parse_amount_parts(
     quantity: &str,
@@ -76,10 +76,14 @@ pub fn parse_amount_parts(
     // Create Commodity, add to collection
     let commodity_ptr = journal.commodity_pool.find_or_create(commodity, None);
 
-    if let Some(quantity) = Quantity::from_str(quantity) {
-        Some(Amount::new(quantity, Some(commodity_ptr)))
-    } else {
-        None
+    if quantity.is_empty() && commodity.is_empty() {
+        // no amount given
+        return None;
+    }
+
+    match Quantity::from_str(quantity) {
+        Some(quantity) => Some(Amount::new(quantity, Some(commodity_ptr))),
+        None => panic!("Invalid quantity {:?}", quantity),
     }
 }
 
@@ -479,7 +483,7 @@ fn parse_cost(
     amount: &Option<Amount>,
     journal: &mut Journal,
 ) -> Option<Amount> {
-    if tokens.cost_quantity.is_empty() || amount.is_none() {
+    if amount.is_none() {
         return None;
     }
 
-- 
2.43.0


From 7c8de66222987158b919b7592a61a934db59af4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:54 +0000
Subject: [PATCH 12/34] fix: do not read a posting's note or trailing spaces as
 its amount

'Account  20  ; note' was recorded as 20 units of a commodity named ';'
and an account followed by two or more trailing spaces was rejected.
---
 src/scanner.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index b4af063..f098ff9 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -215,7 +215,22 @@ pub(crate) fn scan_post(input: &str) -> PostTokens {
     // there's more content
 
     let account = &input[..sep_index];
-    let (amount_tokens, input) = scan_amount(&input[sep_index + 2..]);
+
+    // leave out the note
+    let input = &input[sep_index + 2..];
+    let input = match input.find(';') {
+        Some(note_index) => &input[..note_index],
+        None => input,
+    };
+    let input = input.trim();
+    if input.is_empty() {
+        // account only
+        let mut post_tokens = PostTokens::create_empty();
+        post_tokens.account = account;
+        return post_tokens;
+    }
+
+    let (amount_tokens, input) = scan_amount(input);
     let (annotation_tokens, input) = scan_annotations(input);
     let cost_tokens = match input.is_empty() {
         true => CostTokens::new(),
-- 
2.43.0


From ec172a5b01eed0c4303bed091421bf0ce80cbc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:25 +0000
Subject: [PATCH 13/34] fix: price directives in a journal were rejected

general_directive() never let a 'P' line through to the price directive
handling, which would also have taken the line ending into the symbol.
---
 src/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index e373b62..ac245b9 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -241,6 +241,9 @@ impl<'j, T: Read> Parser<'j, T> {
                 _ => (),
             },
 
+            // not a general directive, a pricing xact
+            'P' if directive == "P" => (),
+
             // ptvy
             _ => {
                 todo!("handle")
@@ -256,7 +259,7 @@ impl<'j, T: Read> Parser<'j, T> {
         // pass on to the commodity pool
         self.journal
             .commodity_pool
-            .parse_price_directive(&self.buffer);
+            .parse_price_directive(self.buffer.trim_end());
     }
 
     fn create_xact(&mut self) -> *const Xact {
-- 
2.43.0


From e2d5e928258b7018fba1d1b62f72e6afaee848a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:28 +0000
Subject: [PATCH 14/34] fix: the date of a calculated rate was capped to the
 current time

With prices dated in the future the result was dated now instead of the
least recent of the rates used.
---
 src/history.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/history.rs b/src/history.rs
index 1306cc5..3bef458 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -16,7 +16,7 @@ use std::{
     ops::{Deref, DerefMut},
 };
 
-use chrono::{Local, NaiveDateTime};
+use chrono::NaiveDateTime;
 use petgraph::{algo::astar, stable_graph::NodeIndex, Graph};
 
 use crate::{
@@ -155,7 +155,7 @@ impl CommodityHistory {
     fn calculate_rate(&self, source: CommodityIndex, target_ptr: *const Commodity, path: Vec<NodeIndex>) -> (NaiveDateTime, Quantity) {
         let mut result = Amount::new(Quantity::ONE, Some(target_ptr));
         let mut temp_source = source;
-        let mut least_recent: NaiveDateTime = Local::now().naive_local();
+        let mut least_recent = NaiveDateTime::MAX;
 
         // iterate through intermediate rates and calculate (multiply).
         for temp_target in path {
-- 
2.43.0


From a36b9af719a276ff5bbd918bfd2dd176e09e0ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:31 +0000
Subject: [PATCH 15/34] fix: do not overwrite the given costs when balancing
 two commodities

As in Ledger, the conversion ratio is only derived when no posting
states a cost. Otherwise a stated cost was silently replaced.
---
 src/xact.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/xact.rs b/src/xact.rs
index 6d8b91e..1e14c50 100644
--- a/src/xact.rs
+++ b/src/xact.rs
@@ -163,15 +163,18 @@ pub fn finalize(xact_ptr: *const Xact, journal: &mut Journal) {
         // total value of one commodity by the total value of the other.  This
         // establishes the per-unit cost for this post for both commodities.
 
+        let mut saw_cost = false;
         let mut top_post: Option<&Post> = None;
         for post in &xact.posts {
             if post.amount.is_some() && top_post.is_none() {
                 top_post = Some(post);
             }
+            if post.cost.is_some() {
+                saw_cost = true;
+            }
         }
 
-        // if !saw_cost && top_post
-        if top_post.is_some() {
+        if !saw_cost && top_post.is_some() {
             // log::debug("there were no costs, and a valid top_post")
 
             // We need a separate readonly reference for reading the amounts.
-- 
2.43.0


From d4d3a10ee02ea1bb672ea5d5f34763246a598064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:33 +0000
Subject: [PATCH 16/34] fix: basis cost was zero for a commodity without a lot
 price

Postings always record an annotation, mostly an empty one. Without a lot
price the basis cost is the final cost.
---
 src/pool.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/pool.rs b/src/pool.rs
index fb10c4e..e57cc33 100644
--- a/src/pool.rs
+++ b/src/pool.rs
@@ -210,13 +210,10 @@ impl CommodityPool {
         };
 
         // "exchange: basis-cost    = "
-        if let Some(annotation) = annotation_opt {
-            if let Some(ann_price) = annotation.price {
-                breakdown.basis_cost = ann_price * (*amount);
-            }
-        } else {
-            breakdown.basis_cost = breakdown.final_cost;
-        }
+        breakdown.basis_cost = match annotation_opt.and_then(|annotation| annotation.price) {
+            Some(ann_price) => ann_price * (*amount),
+            None => breakdown.final_cost,
+        };
 
         breakdown.amount = *amount;
 
-- 
2.43.0


From f87660cf6ae9c8def069503f9d9d9c144d1323cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:03 +0000
Subject: [PATCH 17/34] fix: a missing include file was silently ignored

All the transactions of the file would be absent from the reports.
---
 src/parser.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index ac245b9..74aba66 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -367,20 +367,21 @@ impl<'j, T: Read> Parser<'j, T> {
 
         // TODO: resolve glob, i.e *.ledger
 
-        // let mut file_found = false;
+        let mut file_found = false;
         let parent_path = filename.parent().unwrap();
         if parent_path.exists() {
             if filename.is_file() {
                 // let base = filename.file_name();
+                file_found = true;
 
                 // read file.
                 parse_file(filename.to_str().unwrap(), self.journal);
             }
         }
 
-        // if !file_found {
-        //     panic!("Include file not found");
-        // }
+        if !file_found {
+            panic!("Include file not found: {:?}", filename);
+        }
     }
 
     /// Parses the trailing note from the buffer.
-- 
2.43.0


From 91ad1a318561e1282cb1dd7650282bfbb5d888f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:05 +0000
Subject: [PATCH 18/34] fix: include directive cut the file name at the first
 space

---
 src/parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 74aba66..a13f021 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -209,7 +209,11 @@ impl<'j, T: Read> Parser<'j, T> {
         let Some(directive) = iter.next() else {
             panic!("no directive?")
         };
-        let argument = iter.next();
+        // The argument is the rest of the line. It may contain spaces, i.e. in a file name.
+        let argument = match self.buffer.trim_start()[directive.len()..].trim() {
+            "" => None,
+            rest => Some(rest),
+        };
 
         // todo: check arguments for directives that require one
         // match directive {
-- 
2.43.0


From eab6ccbdc4065584304711d242a353f78c43437c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:08 +0000
Subject: [PATCH 19/34] fix: a line with only whitespace between transactions
 was rejected

---
 src/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index a13f021..a9191a1 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -146,7 +146,8 @@ impl<'j, T: Read> Parser<'j, T> {
         // }
         // let length = self.buffer.len();
         // log::debug!("line length: {:?}", length);
-        if self.buffer == "\r\n" || self.buffer == "\n" {
+        // blank line, or only whitespace
+        if self.buffer.trim().is_empty() {
             return Ok(());
         }
 
-- 
2.43.0


From ea55be26a2acf6f3db319542d781a8213e3849cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:11 +0000
Subject: [PATCH 20/34] fix: lot annotation was lost after a posting without
 one

A posting without a lot stored an empty annotation for its commodity,
which then prevented the actual lot from being recorded.
---
 src/parser.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index a9191a1..a74688a 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -448,10 +448,12 @@ fn parse_post(input: &str, xact_ptr: *const Xact, journal: &mut Journal) -> Resu
         // TODO: if the cost price is total (not per unit)
         // details.price /= amount
 
-        // store annotation
-        journal
-            .commodity_pool
-            .find_or_create(tokens.symbol, Some(annotation));
+        // store annotation, if given
+        if annotation.price.is_some() || annotation.date.is_some() {
+            journal
+                .commodity_pool
+                .find_or_create(tokens.symbol, Some(annotation));
+        }
     }
 
     // handle cost (2nd amount)
-- 
2.43.0


From 8c1664f808c1f191da3f26439f465714097455a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:12 +0000
Subject: [PATCH 21/34] fix: the CLI took its own program name for the command

---
 src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 21b47eb..1d15c81 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -6,7 +6,8 @@ use ledger_rs_lib;
 fn main() {
     println!("Hello, Ledger-rs!");
 
-    let args: Vec<String> = env::args().collect();
+    // skip the program name
+    let args: Vec<String> = env::args().skip(1).collect();
     println!("You requested {:?}", args);
 
     // let args = read_command_arguments(args);
-- 
2.43.0


From 5fd9aea26db7e323b2a6a1f1e2c6219d04904182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:15 +0000
Subject: [PATCH 22/34] fix: balance report ran an amount without commodity
 into the next amount

A balance of 5 and 3 EUR was printed as '53 EUR'.
---
 src/report.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/report.rs b/src/report.rs
index af8582f..49fb855 100644
--- a/src/report.rs
+++ b/src/report.rs
@@ -46,6 +46,10 @@ fn get_children_lines<'a>(account: &'a Account, journal: &'a Journal) -> Vec<Str
     let mut balance_line = String::new();
     let total = account.total();
     for amount in total.amounts {
+        // An amount without a commodity has to be separated from the next one.
+        if balance_line.ends_with(|c: char| c.is_ascii_digit()) {
+            balance_line += ", ";
+        }
         balance_line += amount.quantity.to_string().as_str();
         if amount.get_commodity().is_some() {
             if let Some(c) = amount.get_commodity() {
-- 
2.43.0


From d1856523573083bbd74a0d1b971393af27488799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:03 +0000
Subject: [PATCH 23/34] fix: a further comment line replaced the notes of a
 transaction or posting

As in Ledger, the notes are appended, separated by a new line.
---
 src/post.rs | 9 ++++++++-
 src/xact.rs | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/post.rs b/src/post.rs
index 9c70026..4808bf4 100644
--- a/src/post.rs
+++ b/src/post.rs
@@ -47,8 +47,15 @@ impl Post {
         }
     }
 
+    /// Adds the note. Multiple notes are separated by a new line.
     pub fn add_note(&mut self, note: &str) {
-        self.note = Some(note.into());
+        match &mut self.note {
+            Some(existing) => {
+                existing.push('\n');
+                existing.push_str(note);
+            }
+            None => self.note = Some(note.into()),
+        }
     }
 }
 
diff --git a/src/xact.rs b/src/xact.rs
index 1e14c50..b93296a 100644
--- a/src/xact.rs
+++ b/src/xact.rs
@@ -72,8 +72,15 @@ impl Xact {
         }
     }
 
+    /// Adds the note. Multiple notes are separated by a new line.
     pub fn add_note(&mut self, note: &str) {
-        self.note = Some(note.into());
+        match &mut self.note {
+            Some(existing) => {
+                existing.push('\n');
+                existing.push_str(note);
+            }
+            None => self.note = Some(note.into()),
+        }
     }
 
     /// Adds the post to the collection and returns the reference to it.
-- 
2.43.0


From 4e5c19a78f3705add85cb72f329bd0e65319ab19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:05 +0000
Subject: [PATCH 24/34] fix: a read error silently truncated the journal

When the source failed or was not valid UTF-8, the rest of the journal
was dropped and an incomplete transaction was finalized as if it were
complete. The other input errors panic; so do these now.
---
 src/parser.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index a74688a..6deda54 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -113,8 +113,7 @@ impl<'j, T: Read> Parser<'j, T> {
         loop {
             match self.reader.read_line(&mut self.buffer) {
                 Err(err) => {
-                    println!("Error: {:?}", err);
-                    break;
+                    panic!("Error reading the journal: {:?}", err);
                 }
                 Ok(0) => {
                     // end of file
@@ -286,8 +285,7 @@ impl<'j, T: Read> Parser<'j, T> {
             self.buffer.clear(); // empty the buffer before reading
             match self.reader.read_line(&mut self.buffer) {
                 Err(e) => {
-                    println!("Error: {:?}", e);
-                    break;
+                    panic!("Error reading the journal: {:?}", e);
                 }
                 Ok(0) => {
                     // end of file
-- 
2.43.0


From 3cb33f6305b57b14ca6ebdf16e002dd58af91573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:16 +0000
Subject: [PATCH 25/34] verif: read-only access to the price history under
 cfg(ledger_verif)

---
 src/lib.rs   |  2 ++
 src/verif.rs | 48 ++++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 50 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/src/lib.rs b/src/lib.rs
index 8292147..31f5706 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -57,6 +57,8 @@ pub mod report;
 pub mod scanner;
 pub mod utilities;
 mod value;
+#[cfg(ledger_verif)]
+pub mod verif;
 pub mod xact;
 
 /// An entry point for the CLIs.
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..0515345
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,48 @@
+/*!
+ * Read-only access to the price history, for the verification harness.
+ *
+ * Compiled only with `--cfg ledger_verif`.
+ */
+use chrono::NaiveDateTime;
+use petgraph::visit::{EdgeRef, IntoEdgeReferences};
+
+use crate::{amount::Quantity, commodity::Commodity, pool::CommodityPool};
+
+/// All the price points: (source symbol, target symbol, date/time, price).
+pub fn price_points(pool: &CommodityPool) -> Vec<(String, String, NaiveDateTime, Quantity)> {
+    let history = &pool.commodity_history;
+    let mut result = vec![];
+    for edge in (&**history).edge_references() {
+        let source = history.get_commodity(edge.source()).symbol.to_owned();
+        let target = history.get_commodity(edge.target()).symbol.to_owned();
+        for (when, quantity) in edge.weight() {
+            result.push((source.to_owned(), target.to_owned(), *when, *quantity));
+        }
+    }
+    result
+}
+
+/// The number of commodities in the price graph.
+pub fn price_nodes(pool: &CommodityPool) -> usize {
+    pool.commodity_history.node_count()
+}
+
+/// Searches for the price of the source commodity in terms of the target.
+/// Returns (date/time, price, symbol).
+pub fn find_price(
+    pool: &CommodityPool,
+    source: *const Commodity,
+    target: *const Commodity,
+    moment: NaiveDateTime,
+    oldest: NaiveDateTime,
+) -> Option<(NaiveDateTime, Quantity, String)> {
+    pool.commodity_history
+        .find_price(source, target, moment, oldest)
+        .map(|point| {
+            let symbol = match point.price.get_commodity() {
+                Some(commodity) => commodity.symbol.to_owned(),
+                None => String::new(),
+            };
+            (point.when, point.price.quantity, symbol)
+        })
+}
-- 
2.43.0


From 971ab33c08626618231ce5df46b3307d9107142c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:41 +0000
Subject: [PATCH 26/34] fix: an unreadable lot price was silently dropped

---
 src/annotate.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/annotate.rs b/src/annotate.rs
index e7e917b..b9ae2fc 100644
--- a/src/annotate.rs
+++ b/src/annotate.rs
@@ -9,7 +9,7 @@
 use anyhow::Error;
 use chrono::NaiveDate;
 
-use crate::{amount::{Amount, Quantity}, parser::ISO_DATE_FORMAT, journal::Journal};
+use crate::{amount::Amount, parser::{parse_amount_parts, ISO_DATE_FORMAT}, journal::Journal};
 
 pub struct Annotation {
     /// Price per unit. The {} value in the Lot syntax.
@@ -31,15 +31,9 @@ impl Annotation {
     }
 
     pub fn parse(date: &str, quantity: &str, commodity_symbol: &str, journal: &mut Journal) -> Result<Self, Error> {
-        // parse amount
-        let commodity = journal.commodity_pool.find_or_create(commodity_symbol, None);
+        // parse amount. Panics if a given price can not be read.
+        let price = parse_amount_parts(quantity, commodity_symbol, journal);
 
-        let price = if let Some(quantity) = Quantity::from_str(quantity) {
-            Some(Amount::new(quantity, Some(commodity)))
-        } else {
-            None
-        };
-        
         let result = Self {
             price: price,
             date: match date.is_empty() {
-- 
2.43.0


From ce674b53788f19010952ef2812c34d524dd9bfe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:43 +0000
Subject: [PATCH 27/34] fix: unreadable text after a posting's amount was
 silently dropped

---
 src/scanner.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/scanner.rs b/src/scanner.rs
index f098ff9..1a446f9 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -237,6 +237,14 @@ pub(crate) fn scan_post(input: &str) -> PostTokens {
         false => scan_cost(input),
     };
 
+    // Anything else on the line can not be understood, i.e. "1 000 EUR".
+    if !input.is_empty() && !input.starts_with('@') {
+        panic!("Unexpected text in the posting: {:?}", input);
+    }
+    if !cost_tokens.remainder.is_empty() {
+        panic!("Unexpected text in the posting: {:?}", cost_tokens.remainder);
+    }
+
     // TODO: handle post comment
     // scan_xyz(input)
 
-- 
2.43.0


From b220f18fdca24e1d4ce298a9c3a6864aa314b48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:29 +0000
Subject: [PATCH 28/34] fix: an unknown directive starting with i was read as a
 price

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 6deda54..074300e 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -242,7 +242,7 @@ impl<'j, T: Read> Parser<'j, T> {
                 "import" => {
                     todo!("import directive")
                 }
-                _ => (),
+                _ => todo!("handle"),
             },
 
             // not a general directive, a pricing xact
-- 
2.43.0


From 31e43e5d636008082ec32642f9860b3798430442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:29 +0000
Subject: [PATCH 29/34] fix: a posting after a stray carriage return was
 silently dropped

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 074300e..9258074 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -319,7 +319,7 @@ impl<'j, T: Read> Parser<'j, T> {
                                 }
                             }
                         }
-                        Some('\r') | Some('\n') => {
+                        Some('\r') | Some('\n') if self.buffer.trim().is_empty() => {
                             // empty line "\r\n". Exit.
                             break;
                         }
-- 
2.43.0


From a29669f02e2e26973f49333b271458c071abd8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:40 +0000
Subject: [PATCH 30/34] fix: a file that includes itself is refused instead of
 overflowing the stack

---
 src/parser.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 9258074..4441331 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -18,6 +18,7 @@
 use core::panic;
 use std::{
     env,
+    fs::File,
     io::{BufRead, BufReader, Read},
     path::PathBuf,
     str::FromStr,
@@ -33,7 +34,7 @@ use crate::{
     journal::Journal,
     post::Post,
     scanner::{self, PostTokens},
-    xact::Xact, parse_file,
+    xact::Xact,
 };
 
 pub const ISO_DATE_FORMAT: &str = "%Y-%m-%d";
@@ -92,6 +93,8 @@ pub(crate) struct Parser<'j, T: Read> {
 
     reader: BufReader<T>,
     buffer: String,
+    /// The included files that are being read, the outermost first.
+    included: Vec<PathBuf>,
 }
 
 impl<'j, T: Read> Parser<'j, T> {
@@ -104,6 +107,7 @@ impl<'j, T: Read> Parser<'j, T> {
             reader,
             buffer,
             journal,
+            included: vec![],
         }
     }
 
@@ -377,8 +381,18 @@ impl<'j, T: Read> Parser<'j, T> {
                 // let base = filename.file_name();
                 file_found = true;
 
+                // A file must not include itself, directly or through other files.
+                let path = filename.canonicalize().expect("file opened");
+                if self.included.contains(&path) {
+                    panic!("Include file includes itself: {:?}", filename);
+                }
+
                 // read file.
-                parse_file(filename.to_str().unwrap(), self.journal);
+                let file = File::open(&filename).expect("file opened");
+                let mut parser = Parser::new(file, self.journal);
+                parser.included = self.included.clone();
+                parser.included.push(path);
+                parser.parse();
             }
         }
 
-- 
2.43.0


From 7e6cf32838da08c7df34a8a7b0b86e882f8e6f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:14 +0000
Subject: [PATCH 31/34] fix: text after a lot price was silently dropped ("{=20
 EUR}" read as 20 of "=")

---
 src/scanner.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index 1a446f9..ea8f929 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -307,7 +307,10 @@ fn scan_annotations(input: &str) -> (AnnotationTokens, &str) {
             // todo: is it fixated price {=xyz}
 
             let (amount, rest) = scan_until(&input[1..], '}');
-            let (amount_tokens, _) = scan_amount(amount);
+            let (amount_tokens, remainder) = scan_amount(amount);
+            if !remainder.is_empty() {
+                panic!("Unexpected text in the lot price: {:?}", remainder);
+            }
 
             result.quantity = amount_tokens.quantity;
             result.symbol = amount_tokens.symbol;
-- 
2.43.0


From 13cc3c7d6e0df818bb7be2eb9e6b83a4e9a61adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:14 +0000
Subject: [PATCH 32/34] fix: a lot date after a space was silently dropped,
 whatever it was ("[ 2023-01-01 ]")

---
 src/scanner.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index ea8f929..b144c98 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -324,8 +324,11 @@ fn scan_annotations(input: &str) -> (AnnotationTokens, &str) {
                 panic!("Commodity specifies more than one date");
             }
             let (date_input, rest) = scan_until(&input[1..], ']');
-            let (date, _) = scan_date(date_input);
-            
+            let (date, remainder) = scan_date(date_input.trim());
+            if date.is_empty() || !remainder.is_empty() {
+                panic!("Invalid lot date: {:?}", date_input);
+            }
+
             result.date = date;
 
             // skip the closing ]
-- 
2.43.0


From f6a6e9f3939230e23155c8b89a55e7b25c540520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:24 +0000
Subject: [PATCH 33/34] fix: the cost of a posting without an amount was
 silently dropped ("A  @ 5 USD")

---
 src/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 4441331..550f69c 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -507,6 +507,9 @@ fn parse_cost(
     journal: &mut Journal,
 ) -> Option<Amount> {
     if amount.is_none() {
+        if !tokens.cost_quantity.is_empty() || !tokens.cost_symbol.is_empty() {
+            panic!("A posting with a cost must have an amount");
+        }
         return None;
     }
 
-- 
2.43.0


From 17d90ae3fc8f009768537d100c0a4d63888451ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:51 +0000
Subject: [PATCH 34/34] verification hook: read-only access to the lots, under
 cfg(ledger_verif_lots)

---
 src/verif.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/verif.rs b/src/verif.rs
index 0515345..8cce81d 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -1,7 +1,7 @@
 /*!
  * Read-only access to the price history, for the verification harness.
  *
- * Compiled only with `--cfg ledger_verif`.
+ * Compiled only with `--cfg ledger_verif`, the lots only with `--cfg ledger_verif_lots` as well.
  */
 use chrono::NaiveDateTime;
 use petgraph::visit::{EdgeRef, IntoEdgeReferences};
@@ -46,3 +46,14 @@ pub fn find_price(
             (point.when, point.price.quantity, symbol)
         })
 }
+
+/// The lot of a commodity, if one was written: (price, date).
+#[cfg(ledger_verif_lots)]
+pub fn lot(
+    pool: &CommodityPool,
+    symbol: &str,
+) -> Option<(Option<crate::amount::Amount>, Option<chrono::NaiveDate>)> {
+    pool.annotated_commodities
+        .get(symbol)
+        .map(|annotation| (annotation.price, annotation.date))
+}
-- 
2.43.0

