From 4e8dd51cfbef013bb15948aa06d31b08ba2cfbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:27 +0000
Subject: [PATCH 1/7] fix: CircularBuffer::clone must not clone unoccupied
 slots

The derived Clone cloned every slot of the internal storage, including the
uninitialized ones, which is undefined behaviour (abort or crash for String).
---
 src/circular_buffer/circular.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/circular_buffer/circular.rs b/src/circular_buffer/circular.rs
index e2e8d09..c8fe574 100644
--- a/src/circular_buffer/circular.rs
+++ b/src/circular_buffer/circular.rs
@@ -46,7 +46,6 @@ fn main(){
 }
 ```
 */
-#[derive(Clone)]
 pub struct CircularBuffer<T> {
     buffer: Box<[ManuallyDrop<T>]>,
     start: usize,
@@ -753,6 +752,15 @@ impl<T> CircularBuffer<T> {
     }
 }
 
+impl<T> Clone for CircularBuffer<T> where T: Clone {
+    fn clone(&self) -> Self {
+        //only the occupied part of the buffer can be cloned, the rest is uninitialized
+        let mut result = Self::with_capacity(self.capacity());
+        result.extend(self.iter().cloned());
+        result
+    }
+}
+
 impl<T> Drop for CircularBuffer<T> {
     fn drop(&mut self) {
         self.clear();
-- 
2.43.0


From d8f044ae3d74c18f64da73cb4f1e18c8c97a3e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:59 +0000
Subject: [PATCH 2/7] fix: CircularBuffer must not create uninitialized values
 of T

mem::uninitialized() is undefined behaviour for most types and aborts the
process for types such as char, Box or references. Store MaybeUninit<T>.
---
 src/circular_buffer/circular.rs | 58 +++++++++++++++------------------
 1 file changed, 27 insertions(+), 31 deletions(-)

diff --git a/src/circular_buffer/circular.rs b/src/circular_buffer/circular.rs
index c8fe574..4715be9 100644
--- a/src/circular_buffer/circular.rs
+++ b/src/circular_buffer/circular.rs
@@ -1,4 +1,4 @@
-use std::mem::{ManuallyDrop, uninitialized, swap, drop, transmute};
+use std::mem::{MaybeUninit, replace, drop, transmute};
 use std::ops::{Index, IndexMut};
 use std::iter::{Extend, FromIterator, IntoIterator};
 use std::cmp::{Ord, PartialEq, Eq, PartialOrd, Ordering};
@@ -47,7 +47,7 @@ fn main(){
 ```
 */
 pub struct CircularBuffer<T> {
-    buffer: Box<[ManuallyDrop<T>]>,
+    buffer: Box<[MaybeUninit<T>]>,
     start: usize,
     end:usize
 }
@@ -89,7 +89,7 @@ impl<T> CircularBuffer<T> {
 
         let mut buffer = Vec::with_capacity(capacity+1);
         for _ in 0..capacity+1 {
-            buffer.push(ManuallyDrop::new(unsafe{uninitialized()}));
+            buffer.push(MaybeUninit::uninit());
         }
         Self {
             buffer: buffer.into_boxed_slice(),
@@ -168,10 +168,10 @@ impl<T> CircularBuffer<T> {
         } else {
             0
         };
-        new_buf.extend(self.drain().skip(to_be_skipped).map(|x| ManuallyDrop::new(x)));
+        new_buf.extend(self.drain().skip(to_be_skipped).map(|x| MaybeUninit::new(x)));
         let elem_num = new_buf.len();
         for _ in 0..capacity -new_buf.len() + 1{
-            new_buf.push(ManuallyDrop::new(unsafe{uninitialized()}));
+            new_buf.push(MaybeUninit::uninit());
         }
         new_buf.shrink_to_fit();
         self.buffer = new_buf.into_boxed_slice();
@@ -477,7 +477,7 @@ impl<T> CircularBuffer<T> {
         if self.is_empty(){
             None
         } else {
-            Some(&* self.buffer[self.internal_index(0)])
+            Some(&self[0])
         }
     }
 
@@ -502,7 +502,7 @@ impl<T> CircularBuffer<T> {
         if self.is_empty(){
             None
         } else {
-            Some(&mut *self.buffer[self.internal_index(0)])
+            Some(&mut self[0])
         }
     }
 
@@ -526,7 +526,7 @@ impl<T> CircularBuffer<T> {
         if self.is_empty(){
             None
         } else {
-            Some(&* self.buffer[self.internal_index(self.len()-1)])
+            Some(&self[self.len()-1])
         }
     }
 
@@ -551,7 +551,8 @@ impl<T> CircularBuffer<T> {
         if self.is_empty(){
             None
         } else {
-            Some(&mut * self.buffer[self.internal_index(self.len()-1)])
+            let last = self.len()-1;
+            Some(&mut self[last])
         }
     }
 
@@ -582,7 +583,7 @@ impl<T> CircularBuffer<T> {
             (&self.buffer[self.start..], &self.buffer[..self.end])
         };
 
-        //ManuallyDrop is a zero-cost wrapper, can be safely converted into slice of T
+        //MaybeUninit is a zero-cost wrapper and all those elements are initialized
         unsafe{(transmute(a), transmute(b))}
     }
 
@@ -619,7 +620,7 @@ impl<T> CircularBuffer<T> {
             (y,  &mut x[..self.end])
         };
 
-        //ManuallyDrop is a zero-cost wrapper, can be safely converted into slice of T
+        //MaybeUninit is a zero-cost wrapper and all those elements are initialized
         unsafe{(transmute(a), transmute(b))}
     }
 
@@ -644,7 +645,7 @@ impl<T> CircularBuffer<T> {
         self.buffer.rotate_left(self.start);
         self.end = self.len();
         self.start = 0;
-        //ManuallyDrop is a zero-cost wrapper, can be safely converted into slice of T
+        //MaybeUninit is a zero-cost wrapper and all those elements are initialized
         unsafe{transmute(&mut self.buffer[..self.end])}
     }
 
@@ -741,14 +742,14 @@ impl<T> CircularBuffer<T> {
 
     fn pop_at(&mut self, index: usize) -> T {
         //replace place in the array with uninitialized object
-        let mut tmp = ManuallyDrop::new(unsafe{uninitialized()});
-        swap(&mut self.buffer[index], &mut tmp);
-        ManuallyDrop::into_inner(tmp)
+        let tmp = replace(&mut self.buffer[index], MaybeUninit::uninit());
+        //only occupied, so initialized, elements are popped
+        unsafe{tmp.assume_init()}
     }
 
     fn push_at(&mut self, val: T, index: usize) {
         //the replaced value is unitialized, so it should not be dropped
-        self.buffer[index] = ManuallyDrop::new(val);
+        self.buffer[index] = MaybeUninit::new(val);
     }
 }
 
@@ -771,13 +772,15 @@ impl <T> Index<usize> for CircularBuffer<T> {
     type Output = T;
 
     fn index(&self, index: usize) -> &<Self as Index<usize>>::Output {
-        &*self.buffer[self.internal_index(index)]
+        //internal_index() only returns indexes of occupied, so initialized, elements
+        unsafe{&*self.buffer[self.internal_index(index)].as_ptr()}
     }
 }
 
 impl <T> IndexMut<usize> for CircularBuffer<T> {
     fn index_mut(&mut self, index: usize) -> &mut <Self as Index<usize>>::Output {
-        &mut *self.buffer[self.internal_index(index)]
+        //internal_index() only returns indexes of occupied, so initialized, elements
+        unsafe{&mut *self.buffer[self.internal_index(index)].as_mut_ptr()}
     }
 }
 
@@ -789,8 +792,8 @@ impl <T> fmt::Debug for CircularBuffer<T> {
 
 impl <T> FromIterator<T> for CircularBuffer<T>{
     fn from_iter<I: IntoIterator<Item=T>>(iter: I) -> Self {
-        let mut buf = Vec::from_iter(iter.into_iter().map(|x| ManuallyDrop::new(x)));
-        buf.push(unsafe{uninitialized()});
+        let mut buf = Vec::from_iter(iter.into_iter().map(|x| MaybeUninit::new(x)));
+        buf.push(MaybeUninit::uninit());
         buf.shrink_to_fit();
 
         let end = buf.len() -1;
@@ -804,8 +807,8 @@ impl <T> FromIterator<T> for CircularBuffer<T>{
 
 impl <'a, T> FromIterator<&'a T> for CircularBuffer<T> where T: Clone{
     fn from_iter<I: IntoIterator<Item=&'a T>>(iter: I) -> Self {
-        let mut buf = Vec::from_iter(iter.into_iter().map(|x| ManuallyDrop::new(x.clone())));
-        buf.push(unsafe{uninitialized()});
+        let mut buf = Vec::from_iter(iter.into_iter().map(|x| MaybeUninit::new(x.clone())));
+        buf.push(MaybeUninit::uninit());
         buf.shrink_to_fit();
         let end = buf.len() -1;
         Self {
@@ -817,15 +820,8 @@ impl <'a, T> FromIterator<&'a T> for CircularBuffer<T> where T: Clone{
 }
 
 impl<T> From<Vec<T>> for CircularBuffer<T>{
-    fn from(mut v : Vec<T>) -> Self {
-        let buf_len = v.len();
-        v.push(unsafe{uninitialized()});
-        v.shrink_to_fit();
-        Self{
-            buffer: unsafe{transmute(v.into_boxed_slice())},
-            start: 0,
-            end: buf_len
-        }
+    fn from(v : Vec<T>) -> Self {
+        Self::from_iter(v)
     }
 }
 
-- 
2.43.0


From 5dccbc2deb3400008b5c21e0f28c14931fe17cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:59 +0000
Subject: [PATCH 3/7] fix: an empty interval contains no value

Interval::empty().contains_val(&x) returned true for every x.
---
 src/interval/interval.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interval/interval.rs b/src/interval/interval.rs
index adf8f6d..9e85afe 100644
--- a/src/interval/interval.rs
+++ b/src/interval/interval.rs
@@ -509,7 +509,7 @@ impl<T> Interval<T>  where T: Ord  {
     ```
     */
     pub fn contains_val(&self, val: &T) -> bool {
-        !(self > val || self < val)
+        !(self.is_empty() || self > val || self < val)
     }
 
     /**
-- 
2.43.0


From 3c3fd6183c9ff26f7f445fa0dd7cc48751e118fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:59 +0000
Subject: [PATCH 4/7] fix: an empty interval intersects nothing

intersects() returned true whenever one of the intervals was empty, although
their intersection is empty.
---
 src/interval/interval.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interval/interval.rs b/src/interval/interval.rs
index 9e85afe..a257d21 100644
--- a/src/interval/interval.rs
+++ b/src/interval/interval.rs
@@ -658,7 +658,7 @@ impl<T> Interval<T>  where T: Ord  {
     ```
     */
     pub fn intersects(&self, other: &Self) -> bool {
-        !(self > other || self < other)
+        !(self.is_empty() || other.is_empty() || self > other || self < other)
     }
 
     /**
-- 
2.43.0


From 7a1a73aaeebadd6b2ddfdd3127848bac17de739f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:59 +0000
Subject: [PATCH 5/7] fix: != between a lower and an upper bound must negate ==

Both == and != returned false.
---
 src/interval/bounds.rs | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/src/interval/bounds.rs b/src/interval/bounds.rs
index 8d1e315..583e090 100644
--- a/src/interval/bounds.rs
+++ b/src/interval/bounds.rs
@@ -343,10 +343,6 @@ impl <T> PartialEq<UpperBound<T>> for LowerBound<T> where T: Ord {
     fn eq(&self, _other: &UpperBound<T>) -> bool {
         false
     }
-
-    fn ne(&self, _other: &UpperBound<T>) -> bool {
-        false
-    }
 }
 
 
@@ -664,10 +660,6 @@ impl <T> PartialEq<LowerBound<T>> for UpperBound<T> where T: Ord {
     fn eq(&self, _other: &LowerBound<T>) -> bool {
         false
     }
-
-    fn ne(&self, _other: &LowerBound<T>) -> bool {
-        false
-    }
 }
 
 impl <T> PartialOrd<T> for UpperBound<T> where T: Ord {
-- 
2.43.0


From 1db6b7d7d0a21d38a0907767d2acc88d43a31205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:16 +0000
Subject: [PATCH 6/7] fix: a panic in +=, -=, *= or /= must not leave an
 interval with mixed bounds

---
 src/interval/interval_math.rs | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/interval/interval_math.rs b/src/interval/interval_math.rs
index 6855391..c9f6aba 100644
--- a/src/interval/interval_math.rs
+++ b/src/interval/interval_math.rs
@@ -21,11 +21,14 @@ impl<T, U> Add<U> for Interval<T> where T:Ord+Add<U, Output=T>, U:Clone {
 
 impl<T> AddAssign<T> for Interval<T> where T:Ord+AddAssign + Clone {
     fn add_assign(&mut self, rhs: T) {
-        if let Some(ref mut a) = self.imp{
+        //a panic while computing the bounds must not leave an old bound together with a new one
+        let mut result = self.clone();
+        if let Some(ref mut a) = result.imp{
             a.lo += rhs.clone();
             a.up += rhs;
         }
-        self.fix_after_modification()
+        result.fix_after_modification();
+        *self = result;
     }
 }
 
@@ -48,11 +51,14 @@ impl<T, U> Sub<U> for Interval<T> where T:Ord+Sub<U, Output=T>, U:Clone {
 
 impl<T> SubAssign<T> for Interval<T> where T:Ord + SubAssign + Clone {
     fn sub_assign(&mut self, rhs: T) {
-        if let Some(ref mut a) = self.imp{
+        //a panic while computing the bounds must not leave an old bound together with a new one
+        let mut result = self.clone();
+        if let Some(ref mut a) = result.imp{
             a.lo -= rhs.clone();
             a.up -= rhs;
         }
-        self.fix_after_modification()
+        result.fix_after_modification();
+        *self = result;
     }
 }
 
@@ -76,11 +82,14 @@ impl<T, U> Mul<U> for Interval<T> where T:Ord+Mul<U, Output=T>, U: Clone {
 
 impl<T> MulAssign<T> for Interval<T> where T:Ord+MulAssign+Clone {
     fn mul_assign(&mut self, rhs: T) {
-        if let Some(ref mut a) = self.imp{
+        //a panic while computing the bounds must not leave an old bound together with a new one
+        let mut result = self.clone();
+        if let Some(ref mut a) = result.imp{
             a.lo *= rhs.clone();
             a.up *= rhs;
         }
-        self.fix_after_modification()
+        result.fix_after_modification();
+        *self = result;
     }
 }
 
@@ -106,11 +115,14 @@ impl<T, U> Div<U> for Interval<T> where T:Ord+Div<U, Output=T>, U:Clone {
 
 impl<T> DivAssign<T> for Interval<T> where T: Ord+DivAssign + Clone {
     fn div_assign(&mut self, rhs: T) {
-        if let Some(ref mut a) = self.imp{
+        //a panic while computing the bounds must not leave an old bound together with a new one
+        let mut result = self.clone();
+        if let Some(ref mut a) = result.imp{
             a.lo /= rhs.clone();
             a.up /= rhs;
         }
-        self.fix_after_modification()
+        result.fix_after_modification();
+        *self = result;
     }
 }
 
-- 
2.43.0


From 22502202b24addc5769063a6df96ae05ab49908d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:44 +0000
Subject: [PATCH 7/7] fix: a capacity that cannot be addressed must be refused,
 not wrap around

---
 src/circular_buffer/circular.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/circular_buffer/circular.rs b/src/circular_buffer/circular.rs
index 4715be9..bbbc87c 100644
--- a/src/circular_buffer/circular.rs
+++ b/src/circular_buffer/circular.rs
@@ -86,9 +86,10 @@ impl<T> CircularBuffer<T> {
     ```
     */
     pub fn with_capacity(capacity: usize) -> Self {
-
-        let mut buffer = Vec::with_capacity(capacity+1);
-        for _ in 0..capacity+1 {
+        //one slot is never occupied
+        let slots = capacity.checked_add(1).expect("capacity overflow");
+        let mut buffer = Vec::with_capacity(slots);
+        for _ in 0..slots {
             buffer.push(MaybeUninit::uninit());
         }
         Self {
@@ -162,7 +163,7 @@ impl<T> CircularBuffer<T> {
     ```
     */
     pub fn resize (&mut self, capacity: usize) {
-        let mut new_buf = Vec::with_capacity(capacity+1);
+        let mut new_buf = Vec::with_capacity(capacity.checked_add(1).expect("capacity overflow"));
         let to_be_skipped = if self.len()>capacity{
             self.len() - capacity
         } else {
-- 
2.43.0

