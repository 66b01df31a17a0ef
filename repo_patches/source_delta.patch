From 39f08f20d94108b312ff7fa3227b7dc86413d55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:25 +0000
Subject: [PATCH 01/28] fix: count_sigma overflowed its 8-bit counter on texts
 using all 256 byte values

---
 src/bin/count_sigma.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bin/count_sigma.rs b/src/bin/count_sigma.rs
index 58330b0..eb0e603 100644
--- a/src/bin/count_sigma.rs
+++ b/src/bin/count_sigma.rs
@@ -8,9 +8,9 @@ use log::info;
 
 /// counts the number of different characters in a byte string
 // fn count_sigma(s : &[u8]) -> u8 {
-fn count_sigma<'a, I: Iterator<Item = &'a u8>>(text_iter: I) -> u8 {
-    let mut inc = 0_u8;
-    let mut alphabet_to_reduced: Vec<u8> = vec![0; u8::MAX as usize + 1]; //@ maps a u8 char to its symbol of the effective alphabet, we start at 1 since 0 is treated as a special symbol
+fn count_sigma<'a, I: Iterator<Item = &'a u8>>(text_iter: I) -> usize {
+    let mut inc = 0_usize;
+    let mut alphabet_to_reduced: Vec<usize> = vec![0; u8::MAX as usize + 1]; //@ maps a u8 char to its symbol of the effective alphabet, we start at 1 since 0 is treated as a special symbol
     for c in text_iter {
         let index = *c as usize;
         if alphabet_to_reduced[index] == 0 {
-- 
2.43.0


From e3080447ea99a5c853c5f593528bdc0734cb9253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:25 +0000
Subject: [PATCH 02/28] fix: mtf crashed on byte 255, which was missing from
 its initial list

---
 src/bin/mtf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/mtf.rs b/src/bin/mtf.rs
index 9fb08f3..b0424b7 100644
--- a/src/bin/mtf.rs
+++ b/src/bin/mtf.rs
@@ -5,7 +5,7 @@ use stringology::core;
 use stringology::io;
 
 pub fn mtf<R: std::io::Read, W: std::io::Write>(mut reader: &mut R, writer: &mut W) {
-    let mut mtfvector: Vec<u8> = (0..u8::MAX).collect();
+    let mut mtfvector: Vec<u8> = (0..=u8::MAX).collect();
     loop {
         match io::read_char(&mut reader) {
             Err(_) => break,
-- 
2.43.0


From bf5e6136cccc9676cbc7531a873fd41e4459e791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:25 +0000
Subject: [PATCH 03/28] fix: rle declared -o for two options, so debug builds
 always panicked

---
 src/bin/rle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/rle.rs b/src/bin/rle.rs
index d179068..0c4ce29 100644
--- a/src/bin/rle.rs
+++ b/src/bin/rle.rs
@@ -114,7 +114,7 @@ struct Args {
     outfilename: Option<String>,
 
     /// the length of the prefix to parse
-    #[arg(short, long)]
+    #[arg(short = 'z', long)]
     onlyzero: bool,
 
     /// human-readable output
-- 
2.43.0


From 88d37643902fcdfa6322cf8cf130a68111477089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:25 +0000
Subject: [PATCH 04/28] fix: rle failed on character runs longer than 255

---
 src/bin/rle.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bin/rle.rs b/src/bin/rle.rs
index 0c4ce29..3741eb7 100644
--- a/src/bin/rle.rs
+++ b/src/bin/rle.rs
@@ -10,7 +10,7 @@ pub fn rle_text<R: std::io::Read, W: std::io::Write>(mut reader: &mut R, writer:
     match io::read_char(&mut reader) {
         Err(_) => (),
         Ok(first_char) => {
-            let mut run_counter = 0_u8; //@ counts the number of character runs
+            let mut run_counter = 0_usize; //@ counts the number of character runs
             let mut prev_char = first_char; //@ the current character of the chracter run
             loop {
                 match io::read_char(&mut reader) {
@@ -42,8 +42,8 @@ pub fn rle<R: std::io::Read, W: std::io::Write>(mut reader: &mut R, writer: &mut
                 match io::read_char(&mut reader) {
                     Err(_) => break,
                     Ok(next_char) => {
-                        if next_char != prev_char {
-                            assert_lt!(run_counter, u8::MAX);
+                        //@ a pair represents at most 256 characters, longer runs are split
+                        if next_char != prev_char || run_counter == u8::MAX {
                             writer.write_all(&[prev_char, run_counter]).unwrap();
                             prev_char = next_char;
                             run_counter = 0;
-- 
2.43.0


From 95679fb82843b4e3c30e7f6264826e51fb25e71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:26 +0000
Subject: [PATCH 05/28] fix: rle --onlyzero lost the character after a run of
 zeros and miscounted the last run

---
 src/bin/rle.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/bin/rle.rs b/src/bin/rle.rs
index 3741eb7..a6a54ca 100644
--- a/src/bin/rle.rs
+++ b/src/bin/rle.rs
@@ -1,8 +1,5 @@
 // extern crate byte_string;
 extern crate env_logger;
-#[macro_use]
-extern crate more_asserts;
-
 use stringology::core;
 use stringology::io;
 
@@ -65,7 +62,7 @@ pub fn rle_zero<R: std::io::Read, W: std::io::Write>(mut reader: &mut R, writer:
     match io::read_char(&mut reader) {
         Err(_) => (),
         Ok(first_char) => {
-            let mut run_counter = 0; //@ counts the number of character runs
+            let mut run_counter = 0_usize; //@ counts the length of the current run of zeros
             if first_char == CHR_ZERO {
                 run_counter = 1;
             } else {
@@ -76,23 +73,28 @@ pub fn rle_zero<R: std::io::Read, W: std::io::Write>(mut reader: &mut R, writer:
                     Err(_) => break,
                     Ok(next_char) => {
                         if next_char != CHR_ZERO {
-                            if run_counter == 0 {
-                                writer.write_all(&[next_char]).unwrap();
-                            } else {
-                                assert_lt!(run_counter - 1, u8::MAX);
+                            if run_counter > 0 {
                                 writer
-                                    .write_all(&[CHR_ZERO, run_counter.saturating_sub(1)])
+                                    .write_all(&[CHR_ZERO, (run_counter - 1) as u8])
                                     .unwrap();
                                 run_counter = 0;
                             }
+                            writer.write_all(&[next_char]).unwrap();
                         } else {
+                            //@ a pair represents at most 256 zeros, longer runs are split
+                            if run_counter == u8::MAX as usize + 1 {
+                                writer.write_all(&[CHR_ZERO, u8::MAX]).unwrap();
+                                run_counter = 0;
+                            }
                             run_counter += 1;
                         }
                     }
                 }
             }
             if run_counter > 0 {
-                writer.write_all(&[CHR_ZERO, run_counter]).unwrap();
+                writer
+                    .write_all(&[CHR_ZERO, (run_counter - 1) as u8])
+                    .unwrap();
             }
         }
     }
-- 
2.43.0


From c6ee8f3a6d6e1cc70211e32da1c26b41862716d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:44 +0000
Subject: [PATCH 06/28] fix: escape produced no output unless a prefix length
 was given

---
 src/bin/escape.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bin/escape.rs b/src/bin/escape.rs
index 89e7561..ed37649 100644
--- a/src/bin/escape.rs
+++ b/src/bin/escape.rs
@@ -48,7 +48,11 @@ struct Args {
 }
 
 fn main() {
-    let args = Args::parse();
+    let mut args = Args::parse();
+    //@ a prefix length of zero means to process the entire input
+    if args.prefixlength == 0 {
+        args.prefixlength = usize::MAX;
+    }
     // let matches = clap_app!(escape =>
     //     (about: "escape byte sequences")
     //     (@arg revert: -r --revert  "unescapes")
-- 
2.43.0


From 85150bc45c8d3ce7f1a83ddf88219af03001ed37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:44 +0000
Subject: [PATCH 07/28] fix: escape rejected the documented comma-separated
 symbol lists

---
 src/bin/escape.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin/escape.rs b/src/bin/escape.rs
index ed37649..e3abf04 100644
--- a/src/bin/escape.rs
+++ b/src/bin/escape.rs
@@ -35,11 +35,11 @@ struct Args {
     escape_symbol: u8,
 
     /// byte codes that need to be escaped, a list separeted by commas
-    #[arg(short, long)]
+    #[arg(short, long, value_delimiter = ',')]
     from_symbols: Vec<u8>,
 
     /// list byte codes that are safe and equal of length to from
-    #[arg(short, long)]
+    #[arg(short, long, value_delimiter = ',')]
     to_symbols: Vec<u8>,
 
     /// if true, invert the conversion
-- 
2.43.0


From 8113ede56b7c0a529ab65af3347949b9eed8389d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:44 +0000
Subject: [PATCH 08/28] fix: reading a prefix from stdin crashed if the input
 was shorter than the prefix

---
 src/io.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index d95055d..56a9520 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -32,15 +32,16 @@ pub fn stdin2byte_vector(prefix_length: usize) -> Vec<u8> {
     // let stdin = std::io::stdin();
     let mut reader = std::io::stdin();
     // let reader = stdin.lock();
+    let mut buffer = Vec::new();
     if prefix_length > 0 {
-        let mut buffer = vec![0; prefix_length];
-        reader.read_exact(buffer.as_mut_slice()).unwrap();
-        buffer
+        reader
+            .take(prefix_length as u64)
+            .read_to_end(&mut buffer)
+            .unwrap();
     } else {
-        let mut buffer = Vec::new();
         reader.read_to_end(&mut buffer).unwrap();
-        buffer
     }
+    buffer
 }
 
 pub fn file_or_stdin2byte_vector(filename: Option<&str>, prefix_length: usize) -> Vec<u8> {
-- 
2.43.0


From 3ac8475cadbb21181d38bea55428fede6428e852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:00 +0000
Subject: [PATCH 09/28] fix: pipes and devices given as input file were read as
 empty

---
 src/io.rs | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index 56a9520..c4389d9 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -6,23 +6,15 @@ pub fn file2byte_vector(filename: &str, prefix_length: usize) -> Vec<u8> {
 
     let path = std::path::Path::new(filename);
     let mut f = fs::File::open(path).expect("no file found");
-    let metadata = fs::metadata(path).expect("unable to read metadata");
-    let buffer_length = if prefix_length > 0 {
-        std::cmp::min(prefix_length as u64, metadata.len())
+    //@ the file size in the metadata is meaningless for pipes and devices
+    let mut buffer = Vec::new();
+    if prefix_length > 0 {
+        f.take(prefix_length as u64)
+            .read_to_end(&mut buffer)
+            .unwrap();
     } else {
-        metadata.len()
-    };
-    assert!(buffer_length <= usize::MAX as u64);
-
-    let mut buffer = vec![0; buffer_length as usize];
-    f.read_exact(&mut buffer).unwrap();
-
-    // let mut buffer = Vec::new();
-    // buffer.reserve_exact(buffer_length as usize);
-    // match f.read_to_end(&mut buffer) {
-    //     Ok(length) => assert_eq!(length, buffer.len()),
-    //     Err(x) => panic!("in file2byte_vector: {}", x),
-    // };
+        f.read_to_end(&mut buffer).unwrap();
+    }
     buffer
 }
 
-- 
2.43.0


From 73f505eb87e1423a14511a59ab327bbc480acc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:01 +0000
Subject: [PATCH 10/28] fix: matrix BWT panicked on texts containing a zero
 byte, e.g. bwt --use-matrix on 99 bytes or more

---
 src/core.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index 5f1dfb9..44de0d5 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -54,9 +54,9 @@ pub fn bwt_by_matrix_naive<T: std::cmp::Ord + Copy>(text: &[T]) -> Vec<T> {
 }
 
 /// computes the BWT based on the matrix, i.e., the sorting of the cyclic conjugates of the
-/// input text by first finding its Lyndon conjugate, appending a 0 byte,
-/// then computing the BWT of this conjugate
-/// via the suffix array, and removing the 0 byte at the end.
+/// input text by first finding its Lyndon conjugate,
+/// then computing the BWT of this conjugate via the suffix array,
+/// whose order coincides with the order of the cyclic conjugates.
 pub fn bwt_by_matrix(text: &[u8]) -> Vec<u8> {
     let n = text.len();
     assert_gt!(n, 0);
@@ -69,10 +69,11 @@ pub fn bwt_by_matrix(text: &[u8]) -> Vec<u8> {
     for letter in text[0..conjugate_start].iter() {
         newtext.push(*letter);
     }
-    newtext.push(0u8);
-    let mut bwt = bwt_from_text_by_sa(&newtext);
-    bwt.remove(bwt.iter().position(|&x| x == 0).unwrap());
-    bwt
+    let mut sa = vec![0; n];
+    cdivsufsort::sort_in_place(&newtext, sa.as_mut_slice());
+    sa.iter()
+        .map(|&pos| newtext[(n + (pos as usize) - 1) % n])
+        .collect()
 }
 
 /// the conjugate of the text that is Lyndon
-- 
2.43.0


From 01bf38f85974a75399d52ae2261d817b0ec2986c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:01 +0000
Subject: [PATCH 11/28] fix: PLCP of the smallest suffix was non-zero for unary
 texts, making their lexparse undecodable

---
 src/core.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core.rs b/src/core.rs
index 44de0d5..513088c 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -269,6 +269,11 @@ pub fn compute_plcp(text: &[u8], phi: &[i32]) -> Vec<u32> {
         {
             length += 1;
         }
+        //@ a suffix that is a prefix of the one at `position_a` is smaller than it:
+        //@ it is the smallest suffix, which has no predecessor
+        if position_b + length == text.len() {
+            length = 0;
+        }
         plcp[position_b] = length as u32;
         length = length.saturating_sub(1);
     }
-- 
2.43.0


From 9180984f893d91e59e62bdb1614634e4ba4684d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 12/28] fix: mus crashed on, or missed substrings of, texts
 without a terminating zero byte

---
 src/bin/mus.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/bin/mus.rs b/src/bin/mus.rs
index a81400f..e2534fe 100644
--- a/src/bin/mus.rs
+++ b/src/bin/mus.rs
@@ -65,8 +65,13 @@ fn main() {
     info!("Build DS");
     let now = Instant::now();
 
-    let text =
+    let mut text =
         io::file_or_stdin2byte_vector(core::stringopt_stropt(&args.infilename), args.prefixlength);
+    let text_length = text.len();
+    //@ the computation of the MUSs needs a sentinel
+    if text.last() != Some(&0) {
+        text.push(0);
+    }
 
     let sa = {
         let mut sa = vec![0; text.len()];
@@ -85,7 +90,7 @@ fn main() {
     let result_format = format!(
         "RESULT file={} length={} ",
         core::get_filename(&args.infilename),
-        sa.len()
+        text_length
     );
 
     println!(
-- 
2.43.0


From f69387861c7a876d2bd57c887748811ffbba864b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:48 +0000
Subject: [PATCH 13/28] fix: is_stringattractor crashed on reporting an
 uncovered substring that is not valid UTF-8

---
 src/bin/is_stringattractor.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/bin/is_stringattractor.rs b/src/bin/is_stringattractor.rs
index aa4505b..63618a6 100644
--- a/src/bin/is_stringattractor.rs
+++ b/src/bin/is_stringattractor.rs
@@ -222,7 +222,6 @@ fn is_attractor(text: &[u8], attractor: &[u64]) -> bool {
 
     use segment_tree::ops::Min;
     use segment_tree::SegmentPoint;
-    use std::str;
     let d_rmq = SegmentPoint::build(arr_d.clone(), Min);
 
     let mut is_attractor = true;
@@ -237,7 +236,7 @@ fn is_attractor(text: &[u8], attractor: &[u64]) -> bool {
             let endpos = std::cmp::min(sa[lcpinterval.begin as usize] as usize + lcplength, n);
             println!(
                 "substring '{}' not covered!",
-                str::from_utf8(&text[startpos..endpos]).unwrap()
+                String::from_utf8_lossy(&text[startpos..endpos])
             );
         }
     }
-- 
2.43.0


From 4a3e5e163130b639dfb834849ce5247ca8815121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:52 +0000
Subject: [PATCH 14/28] fix: lyndonfactorization reported the prefix length
 option as text length

---
 src/bin/lyndonfactorization.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/bin/lyndonfactorization.rs b/src/bin/lyndonfactorization.rs
index 0838652..d0d1e58 100644
--- a/src/bin/lyndonfactorization.rs
+++ b/src/bin/lyndonfactorization.rs
@@ -37,17 +37,17 @@ fn main() {
     env_logger::init();
     use std::time::Instant;
 
-    let result_format = format!(
-        "RESULT file={} length={} ",
-        core::get_filename(&args.infilename),
-        args.prefixlength
-    );
-
     info!("read text");
 
     let text =
         io::file_or_stdin2byte_vector(core::stringopt_stropt(&args.infilename), args.prefixlength);
 
+    let result_format = format!(
+        "RESULT file={} length={} ",
+        core::get_filename(&args.infilename),
+        text.len()
+    );
+
     let timenow = Instant::now();
 
     let factors = core::duval(&text);
-- 
2.43.0


From 8813a67752ee9800b0fb99d858e63e6bec801de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:56 +0000
Subject: [PATCH 15/28] fix: lyndonfactorization ignored errors on writing the
 end of its output file

---
 src/bin/lyndonfactorization.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bin/lyndonfactorization.rs b/src/bin/lyndonfactorization.rs
index d0d1e58..5998358 100644
--- a/src/bin/lyndonfactorization.rs
+++ b/src/bin/lyndonfactorization.rs
@@ -96,6 +96,7 @@ fn main() {
                 os.write_all(&text[factors[factor_id - 1] + 1..factors[factor_id] + 1])
                     .unwrap();
             }
+            os.flush().unwrap();
         }
     };
 
-- 
2.43.0


From cee87699e6866b6c32c2af63e5f8a48343f59538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:11 +0000
Subject: [PATCH 16/28] fix: BinaryStringGenerator never ended and did not
 enumerate in lexicographic order

---
 src/core.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index 513088c..342661d 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -506,11 +506,12 @@ impl Iterator for BinaryStringGenerator {
     type Item = Vec<u8>;
 
     fn next(&mut self) -> Option<Vec<u8>> {
-        if self.m_rank == u64::MAX {
+        if self.m_rank == u64::MAX || (self.m_length < 64 && self.m_rank >> self.m_length != 0) {
             return None;
         }
         let mut text = Vec::with_capacity(self.m_length as usize);
-        for i in 0..self.m_length {
+        //@ the most significant bit comes first for the lexicographic order
+        for i in (0..self.m_length).rev() {
             let bit = self.m_rank & (1 << i);
             text.push(if bit == 0 { b'0' } else { b'1' });
         }
-- 
2.43.0


From 7460bea4dee5f677c976ff233addc5a95e39dc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:16 +0000
Subject: [PATCH 17/28] fix: power2_sequence left its last character, at a
 power of two, as a zero byte

---
 src/word.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/word.rs b/src/word.rs
index 168b228..c854ef4 100644
--- a/src/word.rs
+++ b/src/word.rs
@@ -597,7 +597,7 @@ pub fn power2_sequence(k: u8) -> Vec<u8> {
     // let mut text : Vec<u8> = Vec::with_capacity(n);
     // unsafe { text.set_len(n); }
     let mut most_significant_bit = 0;
-    for j in 1..n {
+    for j in 1..=n {
         while j > 1 << (most_significant_bit + 1) {
             most_significant_bit += 1;
         }
-- 
2.43.0


From 05f9a6f3533ee1a78b208b2d3cd7f2cafb3a3f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:34 +0000
Subject: [PATCH 18/28] fix: an interrupted or failing read was taken as the
 end of the input

---
 src/bin/escape.rs | 12 ++++++------
 src/bin/mtf.rs    |  6 +++---
 src/bin/rle.rs    | 36 ++++++++++++++++++------------------
 src/core.rs       | 12 ++++++------
 src/io.rs         | 25 ++++++++++++-------------
 5 files changed, 45 insertions(+), 46 deletions(-)

diff --git a/src/bin/escape.rs b/src/bin/escape.rs
index e3abf04..03d05bc 100644
--- a/src/bin/escape.rs
+++ b/src/bin/escape.rs
@@ -107,9 +107,9 @@ fn main() {
             revert_mapping
         };
         for _ in 0..args.prefixlength {
-            match io::read_char(&mut reader) {
-                Err(_) => break,
-                Ok(cur_char) => {
+            match io::read_char_or_end(&mut reader) {
+                None => break,
+                Some(cur_char) => {
                     if cur_char == args.escape_symbol {
                         let next_char = io::read_char(&mut reader).unwrap();
                         if next_char == args.escape_symbol {
@@ -134,9 +134,9 @@ fn main() {
             char_mapping
         };
         for _ in 0..args.prefixlength {
-            match io::read_char(&mut reader) {
-                Err(_) => break,
-                Ok(cur_char) => {
+            match io::read_char_or_end(&mut reader) {
+                None => break,
+                Some(cur_char) => {
                     if cur_char == args.escape_symbol {
                         writer
                             .write_all(&[args.escape_symbol, args.escape_symbol])
diff --git a/src/bin/mtf.rs b/src/bin/mtf.rs
index b0424b7..b45a7f2 100644
--- a/src/bin/mtf.rs
+++ b/src/bin/mtf.rs
@@ -7,9 +7,9 @@ use stringology::io;
 pub fn mtf<R: std::io::Read, W: std::io::Write>(mut reader: &mut R, writer: &mut W) {
     let mut mtfvector: Vec<u8> = (0..=u8::MAX).collect();
     loop {
-        match io::read_char(&mut reader) {
-            Err(_) => break,
-            Ok(cur_char) => {
+        match io::read_char_or_end(&mut reader) {
+            None => break,
+            Some(cur_char) => {
                 let pos = mtfvector.iter().position(|&c| c == cur_char).unwrap();
                 for j in 0..pos {
                     mtfvector[pos - j] = mtfvector[pos - j - 1];
diff --git a/src/bin/rle.rs b/src/bin/rle.rs
index a6a54ca..fc36bee 100644
--- a/src/bin/rle.rs
+++ b/src/bin/rle.rs
@@ -4,15 +4,15 @@ use stringology::core;
 use stringology::io;
 
 pub fn rle_text<R: std::io::Read, W: std::io::Write>(mut reader: &mut R, writer: &mut W) {
-    match io::read_char(&mut reader) {
-        Err(_) => (),
-        Ok(first_char) => {
+    match io::read_char_or_end(&mut reader) {
+        None => (),
+        Some(first_char) => {
             let mut run_counter = 0_usize; //@ counts the number of character runs
             let mut prev_char = first_char; //@ the current character of the chracter run
             loop {
-                match io::read_char(&mut reader) {
-                    Err(_) => break,
-                    Ok(next_char) => {
+                match io::read_char_or_end(&mut reader) {
+                    None => break,
+                    Some(next_char) => {
                         if next_char != prev_char {
                             write!(writer, "({},{})", prev_char as char, run_counter + 1).unwrap();
                             prev_char = next_char;
@@ -30,15 +30,15 @@ pub fn rle_text<R: std::io::Read, W: std::io::Write>(mut reader: &mut R, writer:
 }
 
 pub fn rle<R: std::io::Read, W: std::io::Write>(mut reader: &mut R, writer: &mut W) {
-    match io::read_char(&mut reader) {
-        Err(_) => (),
-        Ok(first_char) => {
+    match io::read_char_or_end(&mut reader) {
+        None => (),
+        Some(first_char) => {
             let mut run_counter = 0_u8; //@ counts the number of character runs
             let mut prev_char = first_char; //@ the current character of the chracter run
             loop {
-                match io::read_char(&mut reader) {
-                    Err(_) => break,
-                    Ok(next_char) => {
+                match io::read_char_or_end(&mut reader) {
+                    None => break,
+                    Some(next_char) => {
                         //@ a pair represents at most 256 characters, longer runs are split
                         if next_char != prev_char || run_counter == u8::MAX {
                             writer.write_all(&[prev_char, run_counter]).unwrap();
@@ -59,9 +59,9 @@ pub fn rle<R: std::io::Read, W: std::io::Write>(mut reader: &mut R, writer: &mut
 const CHR_ZERO: u8 = b'0';
 
 pub fn rle_zero<R: std::io::Read, W: std::io::Write>(mut reader: &mut R, writer: &mut W) {
-    match io::read_char(&mut reader) {
-        Err(_) => (),
-        Ok(first_char) => {
+    match io::read_char_or_end(&mut reader) {
+        None => (),
+        Some(first_char) => {
             let mut run_counter = 0_usize; //@ counts the length of the current run of zeros
             if first_char == CHR_ZERO {
                 run_counter = 1;
@@ -69,9 +69,9 @@ pub fn rle_zero<R: std::io::Read, W: std::io::Write>(mut reader: &mut R, writer:
                 writer.write_all(&[first_char]).unwrap();
             }
             loop {
-                match io::read_char(&mut reader) {
-                    Err(_) => break,
-                    Ok(next_char) => {
+                match io::read_char_or_end(&mut reader) {
+                    None => break,
+                    Some(next_char) => {
                         if next_char != CHR_ZERO {
                             if run_counter > 0 {
                                 writer
diff --git a/src/core.rs b/src/core.rs
index 342661d..77560b2 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -560,15 +560,15 @@ impl<C: Eq + Copy + Clone> Iterator for ConjugateIterator<'_, C> {
 
 /// counts the number of runs in an array `arr`
 pub fn number_of_runs<R: std::io::Read>(reader: &mut R) -> usize {
-    match io::read_char(reader) {
-        Err(_) => 0,
-        Ok(first_char) => {
+    match io::read_char_or_end(reader) {
+        None => 0,
+        Some(first_char) => {
             let mut run_counter = 1; //@ counts the number of character runs
             let mut prev_char = first_char; //@ the current character of the chracter run
             loop {
-                match io::read_char(reader) {
-                    Err(_) => break,
-                    Ok(next_char) => {
+                match io::read_char_or_end(reader) {
+                    None => break,
+                    Some(next_char) => {
                         if next_char != prev_char {
                             prev_char = next_char;
                             run_counter += 1;
diff --git a/src/io.rs b/src/io.rs
index c4389d9..dc2fb3a 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -71,18 +71,17 @@ pub fn stream_or_stdout(filename: Option<&str>) -> Box<dyn std::io::Write> {
 /// read a single u8 character
 pub fn read_char<R: std::io::Read>(reader: &mut R) -> std::io::Result<u8> {
     let mut buffer = [0u8];
-    match reader.read(buffer.as_mut()) {
-        Result::Ok(u) => {
-            if u == 1 {
-                Ok(buffer[0])
-            } else {
-                Err(std::io::Error::new(
-                    std::io::ErrorKind::Other,
-                    "end of file",
-                ))
-            }
-            // assert_eq!(u, 1);
-        }
-        Err(error) => Err(error),
+    //@ read_exact retries interrupted reads
+    reader.read_exact(&mut buffer)?;
+    Ok(buffer[0])
+}
+
+/// read a single u8 character, or `None` at the end of the input.
+/// Panics if the input cannot be read.
+pub fn read_char_or_end<R: std::io::Read>(reader: &mut R) -> Option<u8> {
+    match read_char(reader) {
+        Ok(character) => Some(character),
+        Err(error) if error.kind() == std::io::ErrorKind::UnexpectedEof => None,
+        Err(error) => panic!("cannot read input: {}", error),
     }
 }
-- 
2.43.0


From 8aaed21b1681c069713eae5f50f8c0f8bbe8a08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:49 +0000
Subject: [PATCH 19/28] fix: word and randomstring ignored errors on writing to
 stdout

---
 src/bin/randomstring.rs | 1 +
 src/bin/word.rs         | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/bin/randomstring.rs b/src/bin/randomstring.rs
index ed12ab7..53a9dd9 100644
--- a/src/bin/randomstring.rs
+++ b/src/bin/randomstring.rs
@@ -58,4 +58,5 @@ fn main() {
         charset.insert(newchar);
         writer.write_all(&[newchar]).unwrap();
     }
+    writer.flush().unwrap();
 }
diff --git a/src/bin/word.rs b/src/bin/word.rs
index 3ce7afe..24a4a9b 100644
--- a/src/bin/word.rs
+++ b/src/bin/word.rs
@@ -54,4 +54,5 @@ fn main() {
         WordName::Vtm => word::vtm_word,
     };
     writer.write_all(fun(args.k).as_slice()).unwrap();
+    writer.flush().unwrap();
 }
-- 
2.43.0


From 26747e84fa443e9efcef047b6f5df890d01ed3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:02 +0000
Subject: [PATCH 20/28] fix: entropy_kmer crashed on texts shorter than the
 order

---
 src/bin/entropy_kmer.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/bin/entropy_kmer.rs b/src/bin/entropy_kmer.rs
index f4450b5..6cd252d 100644
--- a/src/bin/entropy_kmer.rs
+++ b/src/bin/entropy_kmer.rs
@@ -28,9 +28,15 @@ fn entropy_via_kmer_counting<I: Iterator<Item = std::io::Result<u8>>>(
     let mut kmers = HashMap::new();
     let mut kplusmers = HashMap::new();
     let mut ringbuf: u64 = 0;
-    for _ in 0..order {
-        ringbuf <<= 8;
-        ringbuf |= text_iter.next().unwrap().unwrap() as u64;
+    for count in 0..order {
+        match text_iter.next() {
+            Some(byte) => {
+                ringbuf <<= 8;
+                ringbuf |= byte.unwrap() as u64;
+            }
+            //@ a text shorter than the order has no context
+            None => return (0.0, count),
+        }
     }
     let mut count = order;
 
-- 
2.43.0


From 7420bd1dc856750839c55166500efc7f37c254f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:27 +0000
Subject: [PATCH 21/28] fix: binary_debruijn_word was too short for orders of
 four and more

---
 src/word.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/word.rs b/src/word.rs
index c854ef4..ccca7a7 100644
--- a/src/word.rs
+++ b/src/word.rs
@@ -487,8 +487,8 @@ fn quaternary_to_binary(text: &[u8]) -> Vec<u8> {
     output
 }
 
-/// checks whether T[1..n] is a necklace, i.e., the lexicographically smallest string among all its
-/// shifted conjugates of the form T[i+1..n]T[1..i]
+/// checks whether T[1..n] is a prenecklace, i.e., a prefix of a string that is the
+/// lexicographically smallest among all its shifted conjugates of the form T[i+1..n]T[1..i]
 pub fn is_necklace<T>(text: &T, n: usize) -> bool
 where
     T: ?Sized + std::ops::Index<usize, Output = u8>,
@@ -540,6 +540,14 @@ fn reverse(c: u8) -> u8 {
     }
 }
 
+/// checks whether no conjugate T[i+1..n]T[1..i] of T[1..n] is lexicographically smaller than T
+fn is_smallest_conjugate(text: &std::collections::VecDeque<u8>) -> bool {
+    (1..text.len()).all(|i| {
+        let conjugate = text.iter().skip(i).chain(text.iter().take(i));
+        text.iter().le(conjugate)
+    })
+}
+
 /// Online construction algorithm of
 /// J. Sawada, A. Williams and D. Wong. A surprisingly simple de Bruijn sequence
 /// construction. Discrete Math., 339(1):127--131, 2016.
@@ -554,7 +562,7 @@ pub fn binary_debruijn_word(k: u8) -> Vec<u8> {
     loop {
         let mut first_char = word.pop_front().unwrap();
         word.push_back(CHR_B);
-        if is_necklace(&word, word.len()) {
+        if is_smallest_conjugate(&word) {
             first_char = reverse(first_char);
         }
         *word.back_mut().unwrap() = first_char;
-- 
2.43.0


From f59aa439a68dfb6fe041feedc0fdc6a74646391d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:46 +0000
Subject: [PATCH 22/28] fix: rle declared -h for --human beside --help, so
 debug builds always panicked

---
 src/bin/rle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/rle.rs b/src/bin/rle.rs
index fc36bee..18ad489 100644
--- a/src/bin/rle.rs
+++ b/src/bin/rle.rs
@@ -120,7 +120,7 @@ struct Args {
     onlyzero: bool,
 
     /// human-readable output
-    #[arg(short, long)]
+    #[arg(long)]
     human: bool,
 }
 
-- 
2.43.0


From fdd979abfbcf181ee5e3cf6e971918cbe4525f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:22 +0000
Subject: [PATCH 23/28] fix: generator_kmer crashed in release builds: its
 coroutine freed every yielded text twice

---
 src/bin/generator_kmer.rs | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/bin/generator_kmer.rs b/src/bin/generator_kmer.rs
index dadb222..89175c3 100644
--- a/src/bin/generator_kmer.rs
+++ b/src/bin/generator_kmer.rs
@@ -1,20 +1,16 @@
-use generator::{done, Gn};
 use std::str;
 
 fn main() {
     let length: usize = 8;
     let alphabet_size: usize = 4;
-    let g = Gn::new_scoped(|mut s| {
-        for num in 0..usize::pow(alphabet_size, length as u32) {
-            let mut text = vec![b'a'; length];
-            let mut remainder = num;
-            for letter in &mut text {
-                *letter = b'a' + ((remainder % alphabet_size) as u8);
-                remainder /= alphabet_size;
-            }
-            s.yield_(text);
+    let g = (0..usize::pow(alphabet_size, length as u32)).map(|num| {
+        let mut text = vec![b'a'; length];
+        let mut remainder = num;
+        for letter in &mut text {
+            *letter = b'a' + ((remainder % alphabet_size) as u8);
+            remainder /= alphabet_size;
         }
-        done!();
+        text
     });
 
     for i in g {
-- 
2.43.0


From dc859d5fcf401c71e867ab238040cca97345df22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:43 +0000
Subject: [PATCH 24/28] fix: entropy_kmer's result varied from run to run with
 the order of a hash map

---
 src/bin/entropy_kmer.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/bin/entropy_kmer.rs b/src/bin/entropy_kmer.rs
index 6cd252d..5f0419d 100644
--- a/src/bin/entropy_kmer.rs
+++ b/src/bin/entropy_kmer.rs
@@ -71,14 +71,17 @@ fn entropy_via_kmer_counting<I: Iterator<Item = std::io::Result<u8>>>(
         count += 1;
     }
     increment_kmer(order, ringbuf, &mut kmers);
-    let mut kmersum = 0.0;
-    for kmer in kmers {
-        kmersum += (kmer.1 as f64) * (kmer.1 as f64).log2();
-    }
-    let mut kplusmersum = 0.0;
-    for kplusmer in kplusmers {
-        kplusmersum += (kplusmer.1 as f64) * (kplusmer.1 as f64).log2();
+    //@ sums up in a fixed order, since rounding makes the sum depend on the order
+    fn sum_counts(kmers: HashMap<u64, u64>) -> f64 {
+        let mut counts: Vec<u64> = kmers.into_values().collect();
+        counts.sort_unstable();
+        counts
+            .into_iter()
+            .map(|count| (count as f64) * (count as f64).log2())
+            .sum()
     }
+    let kmersum = sum_counts(kmers);
+    let kplusmersum = sum_counts(kplusmers);
     ((kmersum - kplusmersum) / (count as f64), count)
 }
 
-- 
2.43.0


From e8986a5296bc90c5c1170df133e35d5c16ab5886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:56 +0000
Subject: [PATCH 25/28] fix: compute the size of long vtm words beyond 32 bits

---
 src/word.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/word.rs b/src/word.rs
index ccca7a7..c879b1d 100644
--- a/src/word.rs
+++ b/src/word.rs
@@ -692,7 +692,7 @@ pub fn vtm_morphism(c: u8) -> &'static [u8] {
 /// Francine Blanchet-Sadri, James D. Currie, Narad Rampersad, Nathan Fox:
 /// Abelian Complexity of Fixed Point of Morphism 0 ↦ 012, 1 ↦ 02, 2 ↦ 1. Integers 14: A11 (2014)
 pub fn vtm_word(k: u8) -> Vec<u8> {
-    iterate_general_morphism(k, vtm_morphism, (1 + (3 << (k))) as usize)
+    iterate_general_morphism(k, vtm_morphism, 1 + (3usize << k))
 }
 
 #[test]
-- 
2.43.0


From 945be219737ebeda6217f6965d436161cab978c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:10 +0000
Subject: [PATCH 26/28] fix: word orders of 64 and more: release builds wrapped
 the length and wrote a short wrong word

---
 src/word.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/word.rs b/src/word.rs
index c879b1d..4755c6d 100644
--- a/src/word.rs
+++ b/src/word.rs
@@ -33,7 +33,8 @@ fn fibonacci_number_estimate(k: u8) -> f64 {
 /// https://oeis.org/A003849
 /// Reference: Patrice Séébold: "Sequences generated by infinitely iterated morphisms". Discret. Appl. Math. 11(3): 255-264 (1985)
 pub fn fibonacci_word(k: u8) -> Vec<u8> {
-    let length = (fibonacci_number_estimate(k + 2) + 1.0) as usize + 1;
+    let order = k.checked_add(2).expect("the word is too long");
+    let length = (fibonacci_number_estimate(order) + 1.0) as usize + 1;
     let mut text = vec![0_u8; length];
     // let mut text : Vec<u8> = Vec::with_capacity(length);
     // unsafe { text.set_len(length); }
@@ -239,7 +240,9 @@ fn iterate_2morphism(rounds: u8, morphism: fn(u8) -> &'static [u8]) -> Vec<u8> {
     if rounds == 0 {
         return vec![CHR_A];
     }
-    let n = 1 << (rounds);
+    let n = 1usize
+        .checked_shl(rounds.into())
+        .expect("the word is too long");
     let mut text = vec![0_u8; n];
     // let mut text : Vec<u8> = Vec::with_capacity(n);
     // unsafe { text.set_len(n); }
@@ -414,7 +417,7 @@ pub fn paperfolding_word(i: u8) -> Vec<u8> {
 /// https://oeis.org/A014577
 /// where a = 00, b = 01, c = 10, d = 11
 pub fn quaternary_paperfolding_word(i: u8) -> Vec<u8> {
-    let n = 1 << i;
+    let n = 1usize.checked_shl(i.into()).expect("the word is too long");
     let mut text = vec![0_u8; n];
     // let mut text : Vec<u8> = Vec::with_capacity(n);
     // unsafe { text.set_len(n); }
@@ -600,7 +603,7 @@ fn test_binary_debrujin_word() {
 /// is https://oeis.org/A209229 and
 /// resembles https://oeis.org/A267366
 pub fn power2_sequence(k: u8) -> Vec<u8> {
-    let n = 1 << k;
+    let n = 1usize.checked_shl(k.into()).expect("the word is too long");
     let mut text = vec![0_u8; n];
     // let mut text : Vec<u8> = Vec::with_capacity(n);
     // unsafe { text.set_len(n); }
-- 
2.43.0


From ac493efdc072ab36589eb2cc58d6f80d0948c21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:16 +0000
Subject: [PATCH 27/28] fix: lyndonwords -s 0 and -s 160 or more: release
 builds wrapped the letters around and never ended

---
 src/bin/lyndonwords.rs | 6 +++---
 src/core.rs            | 4 ++++
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/bin/lyndonwords.rs b/src/bin/lyndonwords.rs
index ac4bb77..a0bd9b4 100644
--- a/src/bin/lyndonwords.rs
+++ b/src/bin/lyndonwords.rs
@@ -13,8 +13,8 @@ struct Args {
     length: usize,
 
     /// the alphabet size of the generated Lyndon words
-    #[arg(short, default_value_t = 2)]
-    sigma: usize,
+    #[arg(short, default_value_t = 2, value_parser = clap::value_parser!(u8).range(1..=159))]
+    sigma: u8,
 
     /// the output file to write (otherwise write from stdout)
     #[arg(short, long)]
@@ -25,7 +25,7 @@ fn main() {
     let args = Args::parse();
     let mut writer = io::stream_or_stdout(core::stringopt_stropt(&args.outfilename));
 
-    for it in core::LyndonWordGenerator::new(args.length, args.sigma) {
+    for it in core::LyndonWordGenerator::new(args.length, args.sigma as usize) {
         let out: Vec<u8> = it.iter().map(|x| x + b'a').collect::<Vec<u8>>();
         writer.write_all(&out).unwrap();
         writer.write_all(b"\n").unwrap();
diff --git a/src/core.rs b/src/core.rs
index 77560b2..8048b38 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -438,6 +438,10 @@ pub struct LyndonWordGenerator {
 impl LyndonWordGenerator {
     #[allow(dead_code)]
     pub fn new(length: usize, alphabet_size: usize) -> LyndonWordGenerator {
+        assert!(
+            (1..=256).contains(&alphabet_size),
+            "the letters are the bytes from 0 to alphabet_size - 1"
+        );
         LyndonWordGenerator {
             m_length: length,
             m_alphabet_size: alphabet_size,
-- 
2.43.0


From 7dc9ec3703683065fe724b9a85f711e056c6630b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:39 +0000
Subject: [PATCH 28/28] fix: BinaryStringGenerator of more than 64 bits: debug
 builds panicked, release builds yielded wrong strings

---
 src/core.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core.rs b/src/core.rs
index 8048b38..ee036a5 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -516,7 +516,7 @@ impl Iterator for BinaryStringGenerator {
         let mut text = Vec::with_capacity(self.m_length as usize);
         //@ the most significant bit comes first for the lexicographic order
         for i in (0..self.m_length).rev() {
-            let bit = self.m_rank & (1 << i);
+            let bit = self.m_rank.checked_shr(i.into()).unwrap_or(0) & 1;
             text.push(if bit == 0 { b'0' } else { b'1' });
         }
         self.m_rank += 1;
-- 
2.43.0

