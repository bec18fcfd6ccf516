From 4dcb7952b19baa79e2715e3f41565abfbec44ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:27 +0000
Subject: [PATCH 01/22] fix: keep the order of existing frames when inserting
 before them

vec_insert_slice computed the destination of the moved items from the
vector's old length instead of the slice's length, which is only right
when both are equal. Inserting a frame anywhere but at the end of an
animation reordered, overwrote or zeroed existing frames.
---
 src/frame_cursor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/frame_cursor.rs b/src/frame_cursor.rs
index 7835fe2..3e07a77 100644
--- a/src/frame_cursor.rs
+++ b/src/frame_cursor.rs
@@ -567,8 +567,8 @@ fn vec_insert_slice<T: Clone + Default>(vec: &mut Vec<T>, index: usize, slice: &
     vec.resize_with(new_len, T::default);
 
     // Move the existing items to the end
-    for (to_move, end_index) in (index..old_len).into_iter().zip(old_len + index..new_len) {
-        vec.swap(to_move, end_index);
+    for to_move in (index..old_len).rev() {
+        vec.swap(to_move, to_move + slice.len());
     }
 
     // Clone the slice into the new area
-- 
2.43.0


From e561706f14eb3aee75ce27075b9d1ca347afdf13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:27 +0000
Subject: [PATCH 02/22] fix: report an error when there is no frame to remove
 at the cursor

remove_frame returned Ok without removing anything when the cursor was
past the last frame of a non-empty animation.
---
 src/frame_cursor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frame_cursor.rs b/src/frame_cursor.rs
index 3e07a77..033692f 100644
--- a/src/frame_cursor.rs
+++ b/src/frame_cursor.rs
@@ -403,7 +403,7 @@ impl<'bvh> FrameCursor<'bvh> {
     /// # } // fn main()
     /// ```
     pub fn remove_frame(&mut self) -> Result<&mut Self, FrameRemoveError> {
-        if self.len() == 0 {
+        if self.index >= self.len() {
             return Err(FrameRemoveError::new(self.index));
         }
 
-- 
2.43.0


From 0fad7dfc301354cfa07b73b83d26a3a68c590a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:27 +0000
Subject: [PATCH 03/22] fix: move the cursor back to the start when all frames
 are removed

remove_all_frames left the index past the end of the now empty motion
values, so that the next insertion panicked.
---
 src/frame_cursor.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/frame_cursor.rs b/src/frame_cursor.rs
index 033692f..17a78da 100644
--- a/src/frame_cursor.rs
+++ b/src/frame_cursor.rs
@@ -481,6 +481,7 @@ impl<'bvh> FrameCursor<'bvh> {
     #[inline]
     pub fn remove_all_frames(&mut self) -> &mut Self {
         self.bvh.motion_values.clear();
+        self.index = 0;
         self
     }
 
-- 
2.43.0


From ac1c41bb2fcc555d7f475a51ad1f8eb355751824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:27 +0000
Subject: [PATCH 04/22] fix: do not reserve space for the upper size hint of
 inserted frames

A filtered iterator can have an arbitrarily large upper bound, for which
try_insert_frames overflowed or ran out of memory.
---
 src/frame_cursor.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/frame_cursor.rs b/src/frame_cursor.rs
index 17a78da..e688405 100644
--- a/src/frame_cursor.rs
+++ b/src/frame_cursor.rs
@@ -317,10 +317,8 @@ impl<'bvh> FrameCursor<'bvh> {
     {
         let frames = frames.into_iter();
         let num_channels = self.num_channels();
-        let num_frames = {
-            let (low, up) = frames.size_hint();
-            up.unwrap_or(low)
-        };
+        // The upper bound may be far larger than the number of frames yielded.
+        let (num_frames, _) = frames.size_hint();
 
         self.bvh.motion_values.reserve(num_frames * num_channels);
 
-- 
2.43.0


From fab9f4961b2dc22e1a22910a07291ff5d0ef5987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:09 +0000
Subject: [PATCH 05/22] fix: iterate over the children of a joint instead of
 panicking

Joint::children unwrapped the missing first child of a leaf, and for any
other joint hit unimplemented!() on the first call to next.
---
 src/joint.rs | 46 ++++++++++++++++------------------------------
 1 file changed, 16 insertions(+), 30 deletions(-)

diff --git a/src/joint.rs b/src/joint.rs
index cda2fd4..ce90f41 100644
--- a/src/joint.rs
+++ b/src/joint.rs
@@ -392,7 +392,9 @@ pub struct Joints<'a> {
     pub(crate) joints: &'a [JointData],
     // pub(crate) motion_values: &'a [f32],
     pub(crate) current_joint: usize,
-    pub(crate) from_child: Option<usize>,
+    /// Index of the joint whose direct children are yielded, or `None` if
+    /// all joints are.
+    pub(crate) children_of: Option<usize>,
 }
 
 impl fmt::Debug for Joints<'_> {
@@ -409,7 +411,7 @@ impl<'a> Joints<'a> {
             joints,
             // clips,
             current_joint: 0,
-            from_child: None,
+            children_of: None,
         }
     }
 
@@ -421,24 +423,11 @@ impl<'a> Joints<'a> {
     /// need to iterate through to the end sites of all children, you will
     /// need to continually call `iter_children` on each `Joint` in the iterator.
     pub(crate) fn iter_children(joint: &Joint<'a>) -> Self {
-        let first_child = joint
-            .joints
-            .iter()
-            .find(|jd| {
-                if let Some(p) = jd.private_data() {
-                    p.parent_index == joint.index
-                } else {
-                    false
-                }
-            })
-            .map(JointData::index)
-            .unwrap();
-
         Joints {
             joints: joint.joints,
             // clips: joint.clips,
-            current_joint: joint.data().index(),
-            from_child: Some(first_child),
+            current_joint: 0,
+            children_of: Some(joint.index),
         }
     }
 
@@ -462,22 +451,19 @@ impl<'a> Joints<'a> {
 impl<'a> Iterator for Joints<'a> {
     type Item = Joint<'a>;
     fn next(&mut self) -> Option<Self::Item> {
-        if self.current_joint >= self.joints.len() {
-            return None;
-        }
-
-        let joint = Some(Joint {
-            index: self.current_joint,
-            joints: self.joints,
-        });
-
-        if self.from_child.is_none() {
+        while self.current_joint < self.joints.len() {
+            let joint = Joint {
+                index: self.current_joint,
+                joints: self.joints,
+            };
             self.current_joint += 1;
-        } else {
-            unimplemented!()
+
+            if self.children_of.is_none() || self.children_of == joint.parent_index() {
+                return Some(joint);
+            }
         }
 
-        joint
+        None
     }
 }
 
-- 
2.43.0


From 7e0ace8b0140a3f387396c238bd7dfbde163bca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:09 +0000
Subject: [PATCH 06/22] fix: yield every joint from joints_mut

The iterator always returned None, although it is documented to iterate
over all the joints of the Bvh.
---
 src/joint.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/joint.rs b/src/joint.rs
index ce90f41..d1d4344 100644
--- a/src/joint.rs
+++ b/src/joint.rs
@@ -8,7 +8,7 @@ use std::{
     ffi::{CStr, CString},
     fmt, mem,
     ops::{Deref, DerefMut},
-    str,
+    slice, str,
 };
 
 /// A 3-element point representing the location of a joint offset or
@@ -470,18 +470,16 @@ impl<'a> Iterator for Joints<'a> {
 /// A mutable iterator over the `Joint`s of a `Bvh` skeleton.
 #[allow(unused)]
 pub struct JointsMut<'a> {
-    pub(crate) joints: &'a mut [JointData],
+    pub(crate) joints: slice::IterMut<'a, JointData>,
     pub(crate) current_joint: usize,
-    pub(crate) from_child: Option<usize>,
 }
 
 impl<'a> JointsMut<'a> {
     pub(crate) fn iter_root(joints: &'a mut [JointData]) -> Self {
         JointsMut {
-            joints,
+            joints: joints.iter_mut(),
             // clips,
             current_joint: 0,
-            from_child: None,
         }
     }
 }
@@ -490,7 +488,10 @@ impl<'a> Iterator for JointsMut<'a> {
     type Item = JointMut<'a>;
     #[inline]
     fn next(&mut self) -> Option<Self::Item> {
-        None
+        let data = self.joints.next()?;
+        let index = self.current_joint;
+        self.current_joint += 1;
+        Some(JointMut { index, data })
     }
 }
 
@@ -800,8 +801,8 @@ impl fmt::Debug for Joint<'_> {
 pub struct JointMut<'a> {
     /// Index of the `Joint` in the skeleton.
     pub(crate) index: usize,
-    /// `Joints` array which the joint is part of.
-    pub(crate) joints: &'a mut [JointData],
+    /// Data of the joint.
+    pub(crate) data: &'a mut JointData,
 }
 
 impl<'a> JointMut<'a> {
@@ -833,6 +834,6 @@ impl<'a> JointMut<'a> {
     /// Mutable access to the internal data of the `JointMut`.
     #[inline]
     pub(crate) fn data_mut(&mut self) -> &mut JointData {
-        &mut self.joints[self.index]
+        self.data
     }
 }
-- 
2.43.0


From 5170367e2101c8b3944e33fea39e21a92e6e02d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:09 +0000
Subject: [PATCH 07/22] fix: keep the end site of a root joint apart from its
 offset

A root joint could not hold an end site, and loading or building a
skeleton whose root has one overwrote the root's offset with it.
---
 src/joint.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/joint.rs b/src/joint.rs
index d1d4344..9aeb427 100644
--- a/src/joint.rs
+++ b/src/joint.rs
@@ -26,6 +26,8 @@ pub(crate) enum JointData {
         offset: Offset,
         /// The channels applicable to this `Joint`.
         channels: SmallVec<[Channel; 6]>,
+        /// End site offset.
+        end_site_offset: Option<Offset>,
     },
     /// A child joint in the skeleton.
     Child {
@@ -81,8 +83,11 @@ impl JointData {
             JointData::Child {
                 ref end_site_offset,
                 ..
+            }
+            | JointData::Root {
+                ref end_site_offset,
+                ..
             } => end_site_offset.as_ref(),
-            _ => None,
         }
     }
 
@@ -145,6 +150,7 @@ impl JointData {
             name: Default::default(),
             offset: [0.0, 0.0, 0.0].into(),
             channels: Default::default(),
+            end_site_offset: Default::default(),
         }
     }
 
@@ -170,8 +176,12 @@ impl JointData {
     pub(crate) fn set_offset(&mut self, new_offset: impl Into<Offset>, is_site: bool) {
         let new_offset = new_offset.into();
         match *self {
-            JointData::Root { ref mut offset, .. } => *offset = new_offset,
-            JointData::Child {
+            JointData::Root {
+                ref mut offset,
+                ref mut end_site_offset,
+                ..
+            }
+            | JointData::Child {
                 ref mut offset,
                 ref mut end_site_offset,
                 ..
-- 
2.43.0


From 5c2b72db0ea1946960748218255451d70228bda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:09 +0000
Subject: [PATCH 08/22] fix: close the braces of joints without an end site
 when writing

Closing braces were only written after an end site, so that the text of a
skeleton with any other leaf was unbalanced; a joint with both an end
site and children underflowed.
---
 src/write.rs | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/write.rs b/src/write.rs
index 688356c..0dfbf92 100644
--- a/src/write.rs
+++ b/src/write.rs
@@ -267,27 +267,27 @@ impl WriteOptions {
                                 chunk.extend(self.indent.prefix_chars(depth));
                                 chunk.push(b'}');
                                 chunk.extend_from_slice(terminator);
+                            }
 
-                                let next_joint = joints.next();
-                                let prev_joint = mem::replace(current_joint, next_joint).unwrap();
-
-                                let (curr_depth, mut depth_difference) =
-                                    if let Some(ref curr_j) = *current_joint {
-                                        let curr_depth = curr_j.data().depth();
-                                        (curr_depth, Some(prev_joint.data().depth() - curr_depth))
-                                    } else {
-                                        (0, Some(prev_joint.data().depth()))
-                                    };
-
-                                while let Some(d) = depth_difference {
-                                    chunk.extend(self.indent.prefix_chars(curr_depth + d));
-                                    chunk.push(b'}');
-                                    chunk.extend_from_slice(terminator);
-                                    depth_difference =
-                                        depth_difference.and_then(|d| d.checked_sub(1));
-                                }
-                            } else {
-                                *current_joint = joints.next();
+                            let next_joint = joints.next();
+                            let prev_joint = mem::replace(current_joint, next_joint).unwrap();
+
+                            // If the next joint is a child of the previous one, then there
+                            // are no joints to close.
+                            let (curr_depth, mut depth_difference) =
+                                if let Some(ref curr_j) = *current_joint {
+                                    let curr_depth = curr_j.data().depth();
+                                    (curr_depth, prev_joint.data().depth().checked_sub(curr_depth))
+                                } else {
+                                    (0, Some(prev_joint.data().depth()))
+                                };
+
+                            while let Some(d) = depth_difference {
+                                chunk.extend(self.indent.prefix_chars(curr_depth + d));
+                                chunk.push(b'}');
+                                chunk.extend_from_slice(terminator);
+                                depth_difference =
+                                    depth_difference.and_then(|d| d.checked_sub(1));
                             }
                             *wrote_name = false;
                             *wrote_offset = false;
-- 
2.43.0


From ddbe6cea0c08ea5d547b359ec90b4d20e7f86fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:09 +0000
Subject: [PATCH 09/22] fix: write the whole text to writers which accept it in
 parts

A writer may accept only a part of the buffer or be interrupted. Writing
to one failed, with part of the text already written.
---
 src/write.rs | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/src/write.rs b/src/write.rs
index 0dfbf92..2031cc2 100644
--- a/src/write.rs
+++ b/src/write.rs
@@ -56,21 +56,10 @@ impl WriteOptions {
     /// Output the `Bvh` file to the `writer` with the given options.
     pub fn write<W: Write>(&self, bvh: &Bvh, writer: &mut W) -> io::Result<()> {
         let mut curr_chunk = vec![];
-        let mut curr_bytes_written = 0usize;
-        let mut curr_string_len = 0usize;
         let mut iter_state = WriteOptionsIterState::new();
 
         while self.next_chunk(bvh, &mut curr_chunk, &mut iter_state) != false {
-            let bytes: &[u8] = curr_chunk.as_ref();
-            curr_string_len += bytes.len();
-            curr_bytes_written += writer.write(bytes)?;
-
-            if curr_bytes_written != curr_string_len {
-                return Err(io::Error::new(
-                    io::ErrorKind::Other,
-                    "Data has been dropped while writing to file",
-                ));
-            }
+            writer.write_all(&curr_chunk)?;
         }
         writer.flush()
     }
-- 
2.43.0


From 35353abb55ad5863a49fa487819c1d531985729b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:32 +0000
Subject: [PATCH 10/22] fix: return errors instead of panicking on malformed
 hierarchies

Misplaced keywords, missing names and unbalanced braces panicked, although
parsing is documented to return an error on failure and never panic.
---
 src/errors.rs |  9 +++++++++
 src/parse.rs  | 18 ++++++++++--------
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/errors.rs b/src/errors.rs
index 1359c52..be16815 100644
--- a/src/errors.rs
+++ b/src/errors.rs
@@ -101,6 +101,11 @@ pub enum LoadJointsError {
         /// Line number in the source bvh where the error occurred.
         line: usize,
     },
+    /// A section keyword or a brace was encountered in the wrong location.
+    UnexpectedToken {
+        /// Line number in the source bvh where the error occurred.
+        line: usize,
+    },
     /// A `CHANNELS` section was encountered in the wrong location.
     UnexpectedChannelsSection {
         /// Line number in the source bvh where the error occurred.
@@ -150,6 +155,7 @@ impl LoadJointsError {
     pub fn line(&self) -> Option<usize> {
         match *self {
             LoadJointsError::MissingJointName { line }
+            | LoadJointsError::UnexpectedToken { line }
             | LoadJointsError::UnexpectedChannelsSection { line }
             | LoadJointsError::ParseNumChannelsError { line, .. }
             | LoadJointsError::ParseChannelError { line, .. }
@@ -177,6 +183,9 @@ impl fmt::Display for LoadJointsError {
             LoadJointsError::MissingJointName { line } => {
                 write!(f, "{}: the name is missing from the joints section", line)
             }
+            LoadJointsError::UnexpectedToken { line } => {
+                write!(f, "{}: unexpectedly encountered a keyword or brace", line)
+            }
             LoadJointsError::UnexpectedChannelsSection { line } => write!(
                 f,
                 "{}: unexpectedly encountered a \"CHANNELS\" section",
diff --git a/src/parse.rs b/src/parse.rs
index 48d7f0e..5c3a88d 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -227,7 +227,6 @@ Ok((data, (frame_time, num_frames, motion_data)))
 */
 
 impl Bvh {
-    // @TODO: Remove panics
     /// Logic for parsing the data from a `BufRead`.
     pub(crate) fn read_joints(
         &mut self,
@@ -298,7 +297,7 @@ impl Bvh {
             match first_token.as_bytes() {
                 HEIRARCHY_KEYWORD => {
                     if curr_mode != ParseMode::NotStarted {
-                        panic!("Unexpected hierarchy");
+                        return Err(LoadJointsError::UnexpectedToken { line: line_num });
                     }
                     curr_mode = ParseMode::InHeirarchy;
                     next_expected_line = NextExpectedLine::RootName;
@@ -307,19 +306,22 @@ impl Bvh {
                     if curr_mode != ParseMode::InHeirarchy
                         || next_expected_line != NextExpectedLine::RootName
                     {
-                        panic!("Unexpected root: {:?}", curr_mode);
+                        return Err(LoadJointsError::UnexpectedToken { line: line_num });
                     }
 
                     if let Some(name) = tokens.next() {
                         curr_joint.set_name(name);
                     } else {
-                        panic!("Missing root name!");
+                        return Err(LoadJointsError::MissingJointName { line: line_num });
                     }
                 }
                 OPEN_BRACE => {
                     curr_depth += 1;
                 }
                 CLOSE_BRACE => {
+                    if curr_depth <= in_end_site as usize {
+                        return Err(LoadJointsError::UnexpectedToken { line: line_num });
+                    }
                     curr_depth -= 1;
                     if curr_depth == 0 {
                         // We have closed the brace of the root joint.
@@ -347,12 +349,12 @@ impl Bvh {
                     if tokens.next() == Some(ENDSITE_KEYWORDS[1]) {
                         in_end_site = true;
                     } else {
-                        panic!("Unexpected end keyword");
+                        return Err(LoadJointsError::UnexpectedToken { line: line_num });
                     }
                 }
                 JOINT_KEYWORD => {
-                    if curr_mode != ParseMode::InHeirarchy {
-                        panic!("Unexpected Joint");
+                    if curr_mode != ParseMode::InHeirarchy || curr_depth == 0 {
+                        return Err(LoadJointsError::UnexpectedToken { line: line_num });
                     }
 
                     if !pushed_end_site_joint {
@@ -376,7 +378,7 @@ impl Bvh {
                     if let Some(mut name) = tokens.next() {
                         curr_joint.set_name(name);
                     } else {
-                        panic!("Missing joint name!");
+                        return Err(LoadJointsError::MissingJointName { line: line_num });
                     }
                 }
                 OFFSET_KEYWORD => {
-- 
2.43.0


From e422fb3915286738dc3b2939b8d53bc0582ad0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:24 +0000
Subject: [PATCH 11/22] fix: load joints which have neither an end site nor
 children

The end site is optional, but a joint was only added when its end site was
closed or when the next joint began. A leaf without an end site was
dropped if it was the last joint, and else got the depth and the parent of
the joint after it.
---
 src/parse.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 5c3a88d..be0457f 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -271,7 +271,7 @@ impl Bvh {
 
         let mut curr_joint = JointData::empty_root();
         let mut in_end_site = false;
-        let mut pushed_end_site_joint = false;
+        let mut pushed_curr_joint = false;
 
         #[inline]
         fn get_parent_index(joints: &[JointData], for_depth: usize) -> usize {
@@ -328,21 +328,24 @@ impl Bvh {
                         curr_mode = ParseMode::Finished;
                     }
 
-                    if in_end_site {
+                    // A joint is complete when its end site is closed, or when it is
+                    // closed itself without having an end site or any children.
+                    if in_end_site || !pushed_curr_joint {
                         if let JointData::Child {
                             ref mut private, ..
                         } = curr_joint
                         {
+                            let joint_depth = curr_depth + !in_end_site as usize;
                             private.self_index = curr_index;
-                            private.parent_index = get_parent_index(&joints, curr_depth);
-                            private.depth = curr_depth - 1;
+                            private.parent_index = get_parent_index(&joints, joint_depth);
+                            private.depth = joint_depth - 1;
                         }
 
                         let new_joint = mem::replace(&mut curr_joint, JointData::empty_child());
                         joints.push(new_joint);
                         curr_index += 1;
                         in_end_site = false;
-                        pushed_end_site_joint = true;
+                        pushed_curr_joint = true;
                     }
                 }
                 kw if kw == ENDSITE_KEYWORDS[0] => {
@@ -357,7 +360,7 @@ impl Bvh {
                         return Err(LoadJointsError::UnexpectedToken { line: line_num });
                     }
 
-                    if !pushed_end_site_joint {
+                    if !pushed_curr_joint {
                         if let JointData::Child {
                             ref mut private, ..
                         } = curr_joint
@@ -372,7 +375,7 @@ impl Bvh {
 
                         curr_index += 1;
                     } else {
-                        pushed_end_site_joint = false;
+                        pushed_curr_joint = false;
                     }
 
                     if let Some(mut name) = tokens.next() {
-- 
2.43.0


From 3b9345bbeb333e701fe033bb941be5b617f953dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:24 +0000
Subject: [PATCH 12/22] fix: reject sections and braces which are in the wrong
 place

Braces, OFFSET, CHANNELS and End Site lines were accepted anywhere in the
hierarchy. Depending on their place they added joints which the file does
not have, gave joints the wrong parent, overwrote the channels of another
joint, or left the number of channels different from the sum over the
joints.
---
 src/parse.rs | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index be0457f..6795a96 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -251,16 +251,12 @@ impl Bvh {
             Finished,
         }
 
-        #[allow(unused)]
         #[derive(Eq, PartialEq)]
         enum NextExpectedLine {
             Hierarchy,
-            Channels,
-            Offset,
-            OpeningBrace,
-            ClosingBrace,
-            JointName,
             RootName,
+            OpeningBrace,
+            BlockContents,
         }
 
         let mut joints = vec![];
@@ -272,6 +268,7 @@ impl Bvh {
         let mut curr_joint = JointData::empty_root();
         let mut in_end_site = false;
         let mut pushed_curr_joint = false;
+        let mut has_channels = false;
 
         #[inline]
         fn get_parent_index(joints: &[JointData], for_depth: usize) -> usize {
@@ -314,12 +311,17 @@ impl Bvh {
                     } else {
                         return Err(LoadJointsError::MissingJointName { line: line_num });
                     }
+                    next_expected_line = NextExpectedLine::OpeningBrace;
                 }
                 OPEN_BRACE => {
+                    if next_expected_line != NextExpectedLine::OpeningBrace {
+                        return Err(LoadJointsError::UnexpectedToken { line: line_num });
+                    }
+                    next_expected_line = NextExpectedLine::BlockContents;
                     curr_depth += 1;
                 }
                 CLOSE_BRACE => {
-                    if curr_depth <= in_end_site as usize {
+                    if next_expected_line != NextExpectedLine::BlockContents {
                         return Err(LoadJointsError::UnexpectedToken { line: line_num });
                     }
                     curr_depth -= 1;
@@ -349,14 +351,23 @@ impl Bvh {
                     }
                 }
                 kw if kw == ENDSITE_KEYWORDS[0] => {
+                    // An end site must come before any children of its joint.
+                    if next_expected_line != NextExpectedLine::BlockContents
+                        || in_end_site
+                        || pushed_curr_joint
+                    {
+                        return Err(LoadJointsError::UnexpectedToken { line: line_num });
+                    }
+
                     if tokens.next() == Some(ENDSITE_KEYWORDS[1]) {
                         in_end_site = true;
                     } else {
                         return Err(LoadJointsError::UnexpectedToken { line: line_num });
                     }
+                    next_expected_line = NextExpectedLine::OpeningBrace;
                 }
                 JOINT_KEYWORD => {
-                    if curr_mode != ParseMode::InHeirarchy || curr_depth == 0 {
+                    if next_expected_line != NextExpectedLine::BlockContents || in_end_site {
                         return Err(LoadJointsError::UnexpectedToken { line: line_num });
                     }
 
@@ -377,15 +388,17 @@ impl Bvh {
                     } else {
                         pushed_curr_joint = false;
                     }
+                    has_channels = false;
 
                     if let Some(mut name) = tokens.next() {
                         curr_joint.set_name(name);
                     } else {
                         return Err(LoadJointsError::MissingJointName { line: line_num });
                     }
+                    next_expected_line = NextExpectedLine::OpeningBrace;
                 }
                 OFFSET_KEYWORD => {
-                    if curr_mode != ParseMode::InHeirarchy {
+                    if next_expected_line != NextExpectedLine::BlockContents || pushed_curr_joint {
                         return Err(LoadJointsError::UnexpectedOffsetSection { line: line_num });
                     }
 
@@ -416,9 +429,14 @@ impl Bvh {
                     curr_joint.set_offset(offset, in_end_site);
                 }
                 CHANNELS_KEYWORD => {
-                    if curr_mode != ParseMode::InHeirarchy {
+                    if next_expected_line != NextExpectedLine::BlockContents
+                        || in_end_site
+                        || pushed_curr_joint
+                        || has_channels
+                    {
                         return Err(LoadJointsError::UnexpectedChannelsSection { line: line_num });
                     }
+                    has_channels = true;
 
                     let num_channels: usize = tokens
                         .next()
-- 
2.43.0


From 7c930e0aef7cde7d54befc730a9142dd80cb2240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:24 +0000
Subject: [PATCH 13/22] fix: return an error for frame times which are not a
 valid duration

A negative, too large or non-finite frame time panicked.
---
 src/parse.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 6795a96..f73a0d3 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -598,7 +598,12 @@ impl Bvh {
                                 line: line_num,
                             }
                         })?;
-                        Ok(Duration::from_secs_f64(frame_time_secs))
+                        Duration::try_from_secs_f64(frame_time_secs).map_err(|_| {
+                            LoadMotionError::MissingFrameTime {
+                                parse_error: None,
+                                line: line_num,
+                            }
+                        })
                     } else {
                         Err(LoadMotionError::MissingFrameTime {
                             parse_error: None,
-- 
2.43.0


From db60401d1ced4bed4630f2397b7f8b08bf75f4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:24 +0000
Subject: [PATCH 14/22] fix: report a missing frame time as such

A frame time line without a value was reported as a missing number of
frames.
---
 src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index f73a0d3..feb876a 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -615,7 +615,7 @@ impl Bvh {
                 match tokens.next() {
                     Some(tok) if tok == b":" => parse_frame_time(tokens.next()),
                     Some(tok) => parse_frame_time(Some(tok)),
-                    None => Err(LoadMotionError::MissingNumFrames {
+                    None => Err(LoadMotionError::MissingFrameTime {
                         parse_error: None,
                         line: line_num,
                     }),
-- 
2.43.0


From 2c34774ebbc4c4e272eb03445baf40f508c95c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:24 +0000
Subject: [PATCH 15/22] fix: do not trust the declared number of channels and
 frames

Memory was reserved for as many channels and motion values as the file
announced, and their product was not checked for overflow, so that a few
bytes of input could panic or exhaust the memory.
---
 src/parse.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index feb876a..e2c3590 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -244,6 +244,8 @@ impl Bvh {
         const OFFSET_KEYWORD: &[u8] = b"OFFSET";
         const CHANNELS_KEYWORD: &[u8] = b"CHANNELS";
 
+        const MAX_RESERVED_CHANNELS: usize = 16;
+
         #[derive(Debug, Eq, PartialEq)]
         enum ParseMode {
             NotStarted,
@@ -453,7 +455,7 @@ impl Bvh {
                         })?;
 
                     let mut channels: SmallVec<[Channel; 6]> = Default::default();
-                    channels.reserve(num_channels);
+                    channels.reserve(num_channels.min(MAX_RESERVED_CHANNELS));
 
                     while let Some(tok) = tokens.next() {
                         let channel_ty = ChannelType::try_from(tok).map_err(|e| {
@@ -495,6 +497,8 @@ impl Bvh {
         const FRAMES_KEYWORD: &[u8] = b"Frames";
         const FRAME_TIME_KEYWORDS: &[&[u8]] = &[b"Frame", b"Time:"];
 
+        const MAX_RESERVED_MOTION_VALUES: usize = 1 << 14;
+
         macro_rules! last_line_num {
             () => {
                 lines.last_enumerator().unwrap_or(0)
@@ -622,9 +626,12 @@ impl Bvh {
                 }
             })?;
 
-        let expected_total_motion_values = self.num_channels * num_frames;
+        // The number of frames is whatever the file says: it may overflow, and there
+        // may be far fewer motion values to follow.
+        let expected_total_motion_values = self.num_channels.saturating_mul(num_frames);
 
-        self.motion_values.reserve(expected_total_motion_values);
+        self.motion_values
+            .reserve(expected_total_motion_values.min(MAX_RESERVED_MOTION_VALUES));
 
         for (line_num, line) in lines {
             let line = line?;
@@ -640,7 +647,7 @@ impl Bvh {
             }
         }
 
-        if self.motion_values.len() != self.num_channels * num_frames {
+        if self.motion_values.len() != expected_total_motion_values {
             return Err(LoadMotionError::MotionCountMismatch {
                 actual_total_motion_values: self.motion_values.len(),
                 expected_total_motion_values,
-- 
2.43.0


From c5b8570036f607dfad29384b3c88452f61520144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:56 +0000
Subject: [PATCH 16/22] fix: do not cut joint names off at a colon

Names such as `mixamorig:Hips` are common, but only the part before the
colon was kept, since the whole hierarchy was split at colons.
---
 src/parse.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index e2c3590..1581f3e 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -282,6 +282,16 @@ impl Bvh {
                 .unwrap_or(0)
         }
 
+        /// Returns the name which follows the `keyword` at the start of the `line`. Unlike
+        /// other tokens, a name may contain a `:`.
+        #[inline]
+        fn parse_name<'a>(line: &'a [u8], keyword: &[u8]) -> Option<&'a [u8]> {
+            line.get(keyword.len()..)?
+                .trim_start_with(|c| c.is_ascii_whitespace() || c == ':')
+                .fields_with(|c: char| c.is_ascii_whitespace())
+                .next()
+        }
+
         for (line_num, line) in lines {
             let line = line?;
             let line = line.trim();
@@ -308,7 +318,7 @@ impl Bvh {
                         return Err(LoadJointsError::UnexpectedToken { line: line_num });
                     }
 
-                    if let Some(name) = tokens.next() {
+                    if let Some(name) = parse_name(line, ROOT_KEYWORD) {
                         curr_joint.set_name(name);
                     } else {
                         return Err(LoadJointsError::MissingJointName { line: line_num });
@@ -392,7 +402,7 @@ impl Bvh {
                     }
                     has_channels = false;
 
-                    if let Some(mut name) = tokens.next() {
+                    if let Some(name) = parse_name(line, JOINT_KEYWORD) {
                         curr_joint.set_name(name);
                     } else {
                         return Err(LoadJointsError::MissingJointName { line: line_num });
-- 
2.43.0


From 8f92bb26e0757543c26e01bc3dd115d5601ca5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:56 +0000
Subject: [PATCH 17/22] fix: expand bvh! joints with 4, 5 and 7 channels

The macro arm for 4 channels did not compile, the one for 5 channels only
if the crate was in scope by its original name, and the one for 7
channels was never matched.
---
 src/macros.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/macros.rs b/src/macros.rs
index d17bd0c..57701f6 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -110,9 +110,9 @@ macro_rules! parse_joints_internal {
         CHANNELS 4 $ch0:ident $ch1:ident $ch2:ident $ch3:ident
         $($rest:tt)*
     )) => {
-        bvh_anim$crate::parse_offset!($builder ($ofst_x $ofst_y $ofst_z));
-        bvh_anim$crate::match_channels!($builder ; $ch0 $ch1 $ch2 $ch3);
-        bvh_anim$crate::parse_joints_internal!($builder ( $($rest)* ));
+        $crate::parse_offset!($builder ($ofst_x $ofst_y $ofst_z));
+        $crate::match_channels!($builder ; $ch0 $ch1 $ch2 $ch3);
+        $crate::parse_joints_internal!($builder ( $($rest)* ));
     };
 
     ($builder:ident (
@@ -125,9 +125,9 @@ macro_rules! parse_joints_internal {
             $ch4:ident
         $($rest:tt)*
     )) => {
-        bvh_anim::parse_offset!($builder ($ofst_x $ofst_y $ofst_z));
-        bvh_anim::match_channels!($builder ; $ch0 $ch1 $ch2 $ch3 $ch4);
-        bvh_anim::parse_joints_internal!($builder ( $($rest)* ));
+        $crate::parse_offset!($builder ($ofst_x $ofst_y $ofst_z));
+        $crate::match_channels!($builder ; $ch0 $ch1 $ch2 $ch3 $ch4);
+        $crate::parse_joints_internal!($builder ( $($rest)* ));
     };
 
     ($builder:ident (
@@ -148,6 +148,7 @@ macro_rules! parse_joints_internal {
     };
 
     ($builder:ident (
+        OFFSET $ofst_x:literal $ofst_y:literal $ofst_z:literal
         CHANNELS 7
             $ch0:ident
             $ch1:ident
-- 
2.43.0


From 89f645a155c9376a9a5811162524a1a9da4b630d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:52 +0000
Subject: [PATCH 18/22] fix: treat the size hint of inserted frames as a hint
 only

An iterator with a huge lower bound, like a repeated frame, made
try_insert_frames overflow or run out of capacity before the first
frame was looked at, even if that frame is to be refused.
---
 src/frame_cursor.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/frame_cursor.rs b/src/frame_cursor.rs
index e688405..7bace30 100644
--- a/src/frame_cursor.rs
+++ b/src/frame_cursor.rs
@@ -320,7 +320,11 @@ impl<'bvh> FrameCursor<'bvh> {
         // The upper bound may be far larger than the number of frames yielded.
         let (num_frames, _) = frames.size_hint();
 
-        self.bvh.motion_values.reserve(num_frames * num_channels);
+        // The lower bound is only a hint, too: do not fail if it is out of reach.
+        let _ = self
+            .bvh
+            .motion_values
+            .try_reserve(num_frames.saturating_mul(num_channels));
 
         for frame in frames.into_iter() {
             let frame = frame.as_ref();
-- 
2.43.0


From 194a55c1ff3326b5d3a24f2c8d67405db2bad107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:29 +0000
Subject: [PATCH 19/22] fix: read joint names after the keyword when a line
 starts with a colon

---
 src/parse.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 1581f3e..1a54e64 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -286,7 +286,8 @@ impl Bvh {
         /// other tokens, a name may contain a `:`.
         #[inline]
         fn parse_name<'a>(line: &'a [u8], keyword: &[u8]) -> Option<&'a [u8]> {
-            line.get(keyword.len()..)?
+            line.trim_start_with(|c| c.is_ascii_whitespace() || c == ':')
+                .get(keyword.len()..)?
                 .trim_start_with(|c| c.is_ascii_whitespace() || c == ':')
                 .fields_with(|c: char| c.is_ascii_whitespace())
                 .next()
-- 
2.43.0


From 8c072a8ba8b4733446f7e066641f8cdba4304cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:50 +0000
Subject: [PATCH 20/22] fix: parse long numbers exactly and without a panic

lexical keeps the digits of a number which is hard to round in a buffer of a fixed size, and panics
if there are more of them. Some numbers with more than 113 digits (f32) or 768 digits (f64) were
not rounded to the nearest value, either.
---
 src/parse.rs | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 1a54e64..ade4561 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -226,6 +226,33 @@ Ok((data, (frame_time, num_frames, motion_data)))
 }
 */
 
+/// Parses the `token` as a floating point number.
+fn float<T>(token: &[u8]) -> Result<T, lexical::Error>
+where
+    T: lexical::FromLexical + str::FromStr,
+{
+    // `lexical` may panic when it parses a number with more digits than this, or may not
+    // find the nearest floating point number.
+    const MAX_LEN: usize = 100;
+
+    if token.len() <= MAX_LEN {
+        return parse(token);
+    }
+
+    // What `lexical` accepts, and the errors it returns, do not depend on which digits there
+    // are. The standard library's conversion accepts the same long numbers.
+    let zeros = token
+        .iter()
+        .map(|b| if b.is_ascii_digit() { b'0' } else { *b })
+        .collect::<Vec<_>>();
+    let zero = parse(&zeros)?;
+
+    Ok(str::from_utf8(token)
+        .ok()
+        .and_then(|s| s.parse().ok())
+        .unwrap_or(zero))
+}
+
 impl Bvh {
     /// Logic for parsing the data from a `BufRead`.
     pub(crate) fn read_joints(
@@ -421,7 +448,7 @@ impl Bvh {
                         ($axis_field:literal, $axis_enum:ident) => {
                             if let Some(tok) = tokens.next() {
                                 offset[$axis_field] =
-                                    parse(tok).map_err(|e| LoadJointsError::ParseOffsetError {
+                                    float(tok).map_err(|e| LoadJointsError::ParseOffsetError {
                                         parse_float_error: e,
                                         axis: Axis::$axis_enum,
                                         line: line_num,
@@ -607,7 +634,7 @@ impl Bvh {
 
                 let parse_frame_time = |token: Option<&[u8]>| {
                     if let Some(frame_time) = token {
-                        let frame_time_secs = parse::<f64, _>(frame_time).map_err(|e| {
+                        let frame_time_secs = float::<f64>(frame_time).map_err(|e| {
                             LoadMotionError::MissingFrameTime {
                                 parse_error: Some(e),
                                 line: line_num,
@@ -649,7 +676,7 @@ impl Bvh {
             let tokens = line.fields();
             for (channel_index, token) in tokens.enumerate() {
                 let motion =
-                    parse::<f32, _>(token).map_err(|e| LoadMotionError::ParseMotionSection {
+                    float::<f32>(token).map_err(|e| LoadMotionError::ParseMotionSection {
                         parse_error: e,
                         channel_index,
                         line: line_num,
-- 
2.43.0


From 399c117252f9fcf7319af8e5833d0a30ce708bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:50 +0000
Subject: [PATCH 21/22] fix: find the parent of a joint without searching
 through its siblings

Loading a skeleton in which a joint has many children took time which grew with the square of their
number.
---
 src/parse.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index ade4561..1df5f51 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -301,12 +301,13 @@ impl Bvh {
 
         #[inline]
         fn get_parent_index(joints: &[JointData], for_depth: usize) -> usize {
-            joints
-                .iter()
-                .rev()
-                .find(|jd| jd.depth() == for_depth.saturating_sub(2))
-                .and_then(|jd| jd.private_data().map(|p| p.self_index))
-                .unwrap_or(0)
+            // The parent is the last joint or one of its ancestors.
+            let parent_depth = for_depth.saturating_sub(2);
+            let mut joint = joints.last().and_then(|jd| jd.private_data());
+            while let Some(private) = joint.filter(|p| p.depth > parent_depth) {
+                joint = joints[private.parent_index].private_data();
+            }
+            joint.map(|p| p.self_index).unwrap_or(0)
         }
 
         /// Returns the name which follows the `keyword` at the start of the `line`. Unlike
-- 
2.43.0


From adc327ad9ab06207305630f9cf5855a24c8ce959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:08 +0000
Subject: [PATCH 22/22] fix: keep trailing characters of a name which are not
 ASCII whitespace

A name ends at ASCII whitespace, but the line was trimmed of all Unicode
whitespace before, so that a name such as "a\u{3000}" could be loaded and
written but was cut off when it was loaded again.
---
 src/parse.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 1df5f51..a34002b 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -323,7 +323,9 @@ impl Bvh {
 
         for (line_num, line) in lines {
             let line = line?;
-            let line = line.trim();
+            // Names only end at ASCII whitespace, even at the end of a line.
+            let name_line = line.trim_start();
+            let line = name_line.trim_end();
 
             let mut tokens = line.fields_with(|c: char| c.is_ascii_whitespace() || c == ':');
 
@@ -347,7 +349,7 @@ impl Bvh {
                         return Err(LoadJointsError::UnexpectedToken { line: line_num });
                     }
 
-                    if let Some(name) = parse_name(line, ROOT_KEYWORD) {
+                    if let Some(name) = parse_name(name_line, ROOT_KEYWORD) {
                         curr_joint.set_name(name);
                     } else {
                         return Err(LoadJointsError::MissingJointName { line: line_num });
@@ -431,7 +433,7 @@ impl Bvh {
                     }
                     has_channels = false;
 
-                    if let Some(name) = parse_name(line, JOINT_KEYWORD) {
+                    if let Some(name) = parse_name(name_line, JOINT_KEYWORD) {
                         curr_joint.set_name(name);
                     } else {
                         return Err(LoadJointsError::MissingJointName { line: line_num });
-- 
2.43.0

