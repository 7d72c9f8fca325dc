From 9ef926debb8a9066e554b4d0e724a8d01a767b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:52 +0000
Subject: [PATCH 01/20] fix: yield every byte of ByteWeights exactly once

After an absent byte 255 the iterators wrapped around and yielded
byte 0 a second time.
---
 huff_coding/src/weights.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/huff_coding/src/weights.rs b/huff_coding/src/weights.rs
index 2edb2f6..c509ccd 100644
--- a/huff_coding/src/weights.rs
+++ b/huff_coding/src/weights.rs
@@ -402,10 +402,10 @@ pub mod byte_weights{
             }
 
             while self.weights.get(&(self.current_index as u8)).is_none(){
+                self.current_index += 1;
                 if self.current_index == 256{
                     return None
                 }
-                self.current_index += 1
             }
             let entry = Some((self.current_index as u8, *self.weights.get(&(self.current_index as u8)).unwrap()));
             if self.current_index != 256{self.current_index += 1;}
@@ -429,10 +429,10 @@ pub mod byte_weights{
                 }
     
                 while self.weights.get(&(self.current_index as u8)).is_none(){
+                    self.current_index += 1;
                     if self.current_index == 256{
                         return None
                     }
-                    self.current_index += 1
                 }
                 let entry = Some((self.current_index as u8, *self.weights.get(&(self.current_index as u8)).unwrap()));
                 if self.current_index != 256{self.current_index += 1;}
-- 
2.43.0


From ac7b107f1feb9c1874c0cea53a5e28f496067bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:52 +0000
Subject: [PATCH 02/20] fix: count bytes on one thread when asked for zero
 threads

Dividing the bytes into zero rations panicked.
---
 huff_coding/src/weights.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/huff_coding/src/weights.rs b/huff_coding/src/weights.rs
index c509ccd..997cfb6 100644
--- a/huff_coding/src/weights.rs
+++ b/huff_coding/src/weights.rs
@@ -292,7 +292,7 @@ pub mod byte_weights{
         /// ```
         pub fn threaded_from_bytes(bytes: &[u8], thread_num: usize) -> Self{
             // divide the bytes into rations per thread
-            let byte_rations = ration_vec(bytes, thread_num);
+            let byte_rations = ration_vec(bytes, thread_num.max(1));
 
             // create ByteWeights from every ration
             let mut handles = Vec::with_capacity(thread_num);
-- 
2.43.0


From 749d367d462cab9dccb273be137d8f8130a53c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:52 +0000
Subject: [PATCH 03/20] fix: return Err instead of panicking on malformed
 compressed bytes

A stored tree length below 2, a padding above 7 bits and missing
compressed data all panicked in CompressData::try_from_bytes.
---
 huff_coding/src/comp.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/huff_coding/src/comp.rs b/huff_coding/src/comp.rs
index 8df8a99..8a1436e 100644
--- a/huff_coding/src/comp.rs
+++ b/huff_coding/src/comp.rs
@@ -151,8 +151,12 @@ impl<L: HuffLetterAsBytes> CompressData<L>{
             .unwrap()
         ) as usize;
         if tree_len < 2{
-            panic!("stored tree length must be at least 2");
+            return Err(CompressedDataFromBytesError::new("stored tree length must be at least 2"));
         } 
+        // neither padding can exceed the bits of a byte
+        if tree_padding_bits > 7 || data_padding_bits > 7{
+            return Err(CompressedDataFromBytesError::new("stored padding must be at most 7 bits"));
+        }
 
         // read the tree
         let tree_from_bin_result = 
@@ -176,8 +180,12 @@ impl<L: HuffLetterAsBytes> CompressData<L>{
                 )
             };
 
+        let comp_bytes = bytes_try_get![5 + tree_len..; "slice does not contain compressed data"]?.to_vec();
+        if comp_bytes.is_empty(){
+            return Err(CompressedDataFromBytesError::new("slice does not contain compressed data"));
+        }
         Ok(CompressData::new(
-            bytes_try_get![5 + tree_len..; "slice does not contain compressed data"]?.to_vec(), 
+            comp_bytes, 
             data_padding_bits,
             tree
         ))
-- 
2.43.0


From 0aaaa1a3f9424a92a6fbfe23e12f7c6716768465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:10 +0000
Subject: [PATCH 04/20] fix: return Err when an encoded HuffTree stores an
 invalid letter

try_from_bin unwrapped the letter's own conversion error.
---
 huff_coding/src/tree/tree_inner.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/huff_coding/src/tree/tree_inner.rs b/huff_coding/src/tree/tree_inner.rs
index e2844ca..579bfaf 100644
--- a/huff_coding/src/tree/tree_inner.rs
+++ b/huff_coding/src/tree/tree_inner.rs
@@ -570,7 +570,12 @@ impl<L: HuffLetterAsBytes> HuffTree<L>{
                 // create letter branch (no children)
                 let branch = HuffBranch::new(
                     // create letter from letter_bytes
-                    HuffLeaf::new(Some(L::try_from_be_bytes(&letter_bytes).unwrap()), 0),
+                    HuffLeaf::new(
+                        Some(L::try_from_be_bytes(&letter_bytes)
+                            .map_err(|_| FromBinError::new("Provided BitVec stores an invalid letter"))?
+                        ), 
+                        0
+                    ),
                     None,
                 );
                 Ok(branch)
-- 
2.43.0


From f1166ea2b846b0ff3da49b4fa3737f4887e7eb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:53 +0000
Subject: [PATCH 05/20] fix: bound the depth of a HuffTree read from binary

Deeply nested input overflowed the stack.
---
 huff_coding/src/tree/tree_inner.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/huff_coding/src/tree/tree_inner.rs b/huff_coding/src/tree/tree_inner.rs
index 579bfaf..a7b498e 100644
--- a/huff_coding/src/tree/tree_inner.rs
+++ b/huff_coding/src/tree/tree_inner.rs
@@ -12,6 +12,10 @@ use std::{
     hash::BuildHasher,
 };
 
+/// How deep can a tree read from binary be, 
+/// `HuffTree::from_weights` creates trees this deep only out of zero weights
+const MAX_TREE_DEPTH: usize = 512;
+
 
 
 /// Struct representing a Huffman Tree with an alphabet of
@@ -506,6 +510,7 @@ impl<L: HuffLetterAsBytes> HuffTree<L>{
     /// let new_tree = HuffTree::<u128>::try_from_bin(tree_bin)
     ///     .expect("this will return a FromBinError");
     /// ```
+    /// or when providing a too deep tree (more than 512 levels), 
     /// or when providing a too small/big BitVec to create a HuffTree<L>:
     /// ```should_panic
     /// use huff_coding::{
@@ -523,8 +528,14 @@ impl<L: HuffLetterAsBytes> HuffTree<L>{
         /// Recursively reads branches and their children from the given bits
         /// When finding a 1 -> recurses to get children,
         /// and when a 0 -> ends recursion returning a letter branch
-        fn read_branches_from_bits<L: HuffLetterAsBytes>(bits: &mut bitvec::slice::IterMut<Msb0, u8>) -> 
+        fn read_branches_from_bits<L: HuffLetterAsBytes>(bits: &mut bitvec::slice::IterMut<Msb0, u8>, depth: usize) -> 
         Result<HuffBranch<L>, FromBinError<L>>{
+            // refuse trees nested so deep that recursing into them would overflow the stack
+            if depth > MAX_TREE_DEPTH{
+                return Err(FromBinError::new(
+                    "Provided BitVec encodes a too deep HuffTree"
+                ))
+            }
             // check whether the bit can be popped at all, if not return Err
             // remove first bit, if its 1 -> joint branch
             if if let Some(bit) = bits.next(){*bit}
@@ -537,8 +548,8 @@ impl<L: HuffLetterAsBytes> HuffTree<L>{
                 let branch = HuffBranch::new(
                     HuffLeaf::new(None, 0),
                     Some(( 
-                        read_branches_from_bits(bits)?, 
-                        read_branches_from_bits(bits)?
+                        read_branches_from_bits(bits, depth + 1)?, 
+                        read_branches_from_bits(bits, depth + 1)?
                     ))
                 );
                 Ok(branch)
@@ -585,7 +596,7 @@ impl<L: HuffLetterAsBytes> HuffTree<L>{
         let mut bin = bin;
         // recurse to create root, and set codes for all branches
         let mut bin_iter_mut = bin.iter_mut();
-        let mut root = read_branches_from_bits(&mut bin_iter_mut)?;
+        let mut root = read_branches_from_bits(&mut bin_iter_mut, 0)?;
 
         // return Err if not all bits used
         if bin_iter_mut.next().is_some(){
-- 
2.43.0


From e64609d6dc897a002a2876019c6c0ab0e370d4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:53 +0000
Subject: [PATCH 06/20] fix: count the tree's bits in usize when computing its
 length in bytes

The bit count was truncated to 32 bits before being divided.
---
 huff_coding/src/comp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/huff_coding/src/comp.rs b/huff_coding/src/comp.rs
index 8a1436e..55e0397 100644
--- a/huff_coding/src/comp.rs
+++ b/huff_coding/src/comp.rs
@@ -290,7 +290,7 @@ impl<L: HuffLetterAsBytes> CompressData<L>{
         // calculate its lenght in bytes
         let tree_bin = self.huff_tree().as_bin();
         let tree_bin_padding_bits = calc_padding_bits(tree_bin.len());
-        let tree_bytes_len = (tree_bin.len() as u32 + tree_bin_padding_bits as u32) / 8;
+        let tree_bytes_len = ((tree_bin.len() + tree_bin_padding_bits as usize) / 8) as u32;
 
         let mut bytes = Vec::new();
         // push an empty byte, later to be filled by the padding bit nums
-- 
2.43.0


From 975d0554692dbae8ebf18f7defde2f080c4d2a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:53 +0000
Subject: [PATCH 07/20] fix: report a failed removal of the source file instead
 of panicking

---
 huff/src/cli.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/huff/src/cli.rs b/huff/src/cli.rs
index 54ecb39..ecde67b 100644
--- a/huff/src/cli.rs
+++ b/huff/src/cli.rs
@@ -154,7 +154,7 @@ pub fn process_args(matches: clap::ArgMatches) -> Result<(), Error>{
         comp::read_compress_write(&src_path, &dst_path, block_size)?;
     }
     if matches.is_present("replace"){
-        fs::remove_file(src_path).unwrap();
+        fs::remove_file(src_path)?;
     }
 
     if matches.is_present("time"){println!("{:?}", start.elapsed());}
-- 
2.43.0


From ca6e1f4000f04872c6eb6f491b4082ec3639a2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:53 +0000
Subject: [PATCH 08/20] fix: reject block sizes that do not fit in a usize

The multiplication panicked, or wrapped around (to 0 in the worst case, looping forever).
---
 huff/src/cli.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/huff/src/cli.rs b/huff/src/cli.rs
index ecde67b..3685d2d 100644
--- a/huff/src/cli.rs
+++ b/huff/src/cli.rs
@@ -96,7 +96,7 @@ macro_rules! parse_block_size {
         };
         
         mult.push_str(&chars.collect::<String>());
-        num * match &mult[..]{
+        let mult = match &mult[..]{
             "" => 1,
             "k" => 1_000,
             "m" => 1_000_000,
@@ -109,6 +109,14 @@ macro_rules! parse_block_size {
                     String::from("Invalid block size"), 
                     ErrorKind::InvalidInput
                 )),
+        };
+        match num.checked_mul(mult){
+            Some(size) => size,
+            None => 
+                return Err(Error::new(
+                    String::from("Invalid block size"), 
+                    ErrorKind::InvalidInput
+                )),
         }
     }};
 }
-- 
2.43.0


From 88966945133c3a9195f2dc19e2c1f05c2c4817d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:53 +0000
Subject: [PATCH 09/20] fix: report a source path without a file name instead
 of panicking

---
 huff/src/cli.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/huff/src/cli.rs b/huff/src/cli.rs
index 3685d2d..3e1e5c1 100644
--- a/huff/src/cli.rs
+++ b/huff/src/cli.rs
@@ -23,12 +23,6 @@ pub const EXTENSION: &str = "hff";
 
 macro_rules! parse_paths {
     ($src_path: expr, $dst_path:expr) =>{
-        // copy file name from src if none is provided
-        if $dst_path == Path::new("./SRC_FILE.hff"){
-            $dst_path.set_file_name("");
-            $dst_path.push(Path::new($src_path.file_name().unwrap()));
-        }
-
         // check if src is a file
         if $src_path.is_dir(){
             return Err(Error::new(
@@ -36,6 +30,20 @@ macro_rules! parse_paths {
                 ErrorKind::NotFile
             ))
         }
+
+        // copy file name from src if none is provided
+        if $dst_path == Path::new("./SRC_FILE.hff"){
+            let file_name = match $src_path.file_name(){
+                Some(file_name) => file_name,
+                None => 
+                    return Err(Error::new(
+                        format!("{:?} is not a file", $src_path), 
+                        ErrorKind::NotFile
+                    )),
+            };
+            $dst_path.set_file_name("");
+            $dst_path.push(Path::new(file_name));
+        }
     };
     (comp; $src_path: expr, $dst_path:expr) =>{
         parse_paths!($src_path, $dst_path);
-- 
2.43.0


From 451bc343d6d87d55e1552a5eab116a4c19327ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:53 +0000
Subject: [PATCH 10/20] fix: accept the uppercase answer the replacing prompt
 offers

---
 huff/src/cli.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/huff/src/cli.rs b/huff/src/cli.rs
index 3e1e5c1..eb23a7e 100644
--- a/huff/src/cli.rs
+++ b/huff/src/cli.rs
@@ -137,7 +137,7 @@ macro_rules! ask_replace {
 
             let mut yes_no = String::new();
             io::stdin().read_line(&mut yes_no)?;
-            if !yes_no.starts_with("y"){
+            if !yes_no.starts_with("y") && !yes_no.starts_with("Y"){
                 return Ok(());
             }
             println!();
-- 
2.43.0


From 002313bdae256ca2187d3ba07b654c46a1f79c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:53 +0000
Subject: [PATCH 11/20] fix: accept paths that are not valid UTF-8

Reading such arguments panicked.
---
 huff/src/cli.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/huff/src/cli.rs b/huff/src/cli.rs
index eb23a7e..67cb6d8 100644
--- a/huff/src/cli.rs
+++ b/huff/src/cli.rs
@@ -148,10 +148,10 @@ macro_rules! ask_replace {
 pub fn process_args(matches: clap::ArgMatches) -> Result<(), Error>{
     let start = std::time::Instant::now();
 
-    let src_path = std::path::PathBuf::from(matches.value_of("SRC_FILE").unwrap());
-    let mut dst_path = std::path::PathBuf::from(matches.value_of("DST_FILE").unwrap());
+    let src_path = std::path::PathBuf::from(matches.value_of_os("SRC_FILE").unwrap());
+    let mut dst_path = std::path::PathBuf::from(matches.value_of_os("DST_FILE").unwrap());
     
-    let block_size = parse_block_size!(matches.value_of("block-size").unwrap());
+    let block_size = parse_block_size!(matches.value_of_lossy("block-size").unwrap());
 
     // the decompress flag is present
     if matches.is_present("decompress"){
-- 
2.43.0


From 0a0d296dceea9fe6c44b7854827dcac744229234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:53 +0000
Subject: [PATCH 12/20] fix: refuse to write the output over the source file

A destination leading to the source truncated it before it was read.
---
 huff/src/cli.rs   | 15 +++++++++++++++
 huff/src/utils.rs | 24 ++++++++++++++++++++++++
 2 files changed, 39 insertions(+)

diff --git a/huff/src/cli.rs b/huff/src/cli.rs
index 67cb6d8..2bbd09e 100644
--- a/huff/src/cli.rs
+++ b/huff/src/cli.rs
@@ -1,5 +1,6 @@
 use super::{
     comp,
+    utils,
     error::{
         Error,
         ErrorKind,
@@ -129,6 +130,18 @@ macro_rules! parse_block_size {
     }};
 }
 
+macro_rules! check_not_same_file {
+    ($src_path: expr, $dst_path:expr) => {
+        // writing to src while reading it would destroy its contents
+        if utils::is_same_file(&$src_path, &$dst_path){
+            return Err(Error::new(
+                format!("{:?} and {:?} are the same file", $src_path, $dst_path), 
+                ErrorKind::InvalidInput
+            ))
+        }
+    };
+}
+
 macro_rules! ask_replace {
     ($path: expr, $noask:expr) => {
         if $path.exists() && !$noask{
@@ -156,6 +169,7 @@ pub fn process_args(matches: clap::ArgMatches) -> Result<(), Error>{
     // the decompress flag is present
     if matches.is_present("decompress"){
         parse_paths!(decomp; src_path, dst_path);
+        check_not_same_file!(src_path, dst_path);
         // ask if should replace dst_file
         ask_replace!(dst_path, matches.is_present("noask"));
         // read src, decompress it, write the results to dst
@@ -164,6 +178,7 @@ pub fn process_args(matches: clap::ArgMatches) -> Result<(), Error>{
     // if no major flags are present, just compress
     else{
         parse_paths!(comp; src_path, dst_path);
+        check_not_same_file!(src_path, dst_path);
         // ask if should replace dst_file
         ask_replace!(dst_path, matches.is_present("noask"));
         // read src, compress it, write the results to dst
diff --git a/huff/src/utils.rs b/huff/src/utils.rs
index 6459445..253fc31 100644
--- a/huff/src/utils.rs
+++ b/huff/src/utils.rs
@@ -1,3 +1,27 @@
+use std::{
+    fs,
+    path::Path,
+};
+
+/// Check whether both paths lead to the same existing file
+pub fn is_same_file(path: &Path, other: &Path) -> bool{
+    #[cfg(unix)]
+    {
+        use std::os::unix::fs::MetadataExt;
+        match (fs::metadata(path), fs::metadata(other)){
+            (Ok(meta), Ok(other)) => meta.dev() == other.dev() && meta.ino() == other.ino(),
+            _ => false,
+        }
+    }
+    #[cfg(not(unix))]
+    {
+        match (fs::canonicalize(path), fs::canonicalize(other)){
+            (Ok(path), Ok(other)) => path == other,
+            _ => false,
+        }
+    }
+}
+
 /// Move the provided bytes to the right by n bits
 pub fn offset_bytes(bytes: &[u8], n: usize) -> Vec<u8>{
     let empty_bytes = n / 8;
-- 
2.43.0


From 2ab4aed20c111556c72f637e22b66d3e2e994f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:46 +0000
Subject: [PATCH 13/20] fix: report failed metadata and seek calls instead of
 panicking

---
 huff/src/comp.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/huff/src/comp.rs b/huff/src/comp.rs
index 1b326dd..27d6d0b 100644
--- a/huff/src/comp.rs
+++ b/huff/src/comp.rs
@@ -32,7 +32,7 @@ use std::{
 pub fn read_compress_write(src_path: &PathBuf, dst_path: &PathBuf, block_size: usize) -> Result<(), Error>{
     // read from src file
     let src = File::open(src_path)?;
-    let mut src_bytes_left = src.metadata().unwrap().len() as usize;
+    let mut src_bytes_left = src.metadata()?.len() as usize;
     let mut reader = BufReader::new(src);
 
     // write to dst file
@@ -79,7 +79,7 @@ pub fn read_compress_write(src_path: &PathBuf, dst_path: &PathBuf, block_size: u
 pub fn read_decompress_write(src_path: &PathBuf, dst_path: &PathBuf, block_size: usize) -> Result<(), Error>{
     // read from src file
     let src = File::open(src_path)?;
-    let mut src_bytes_left = src.metadata().unwrap().len() as usize;
+    let mut src_bytes_left = src.metadata()?.len() as usize;
     let reader = BufReader::new(src);
 
     // write to dst file
@@ -194,7 +194,7 @@ fn compress_to_writer<R: Read, W: Write + Seek>(
             // if the previous compress data's padding isn't 0
             // write the comp_bytes minding the padding
             if prev_padding != 0{
-                writer.seek(SeekFrom::Current(-1)).unwrap();
+                writer.seek(SeekFrom::Current(-1))?;
 
                 comp_bytes = utils::offset_bytes(&comp_bytes, prev_padding as usize);
                 comp_bytes[0] |= prev_byte
-- 
2.43.0


From 7d17d19ebe2956ad51eedcde1ec9e8ff484a2a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:46 +0000
Subject: [PATCH 14/20] fix: report an empty source file instead of panicking

---
 huff/src/comp.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/huff/src/comp.rs b/huff/src/comp.rs
index 27d6d0b..bf1ec89 100644
--- a/huff/src/comp.rs
+++ b/huff/src/comp.rs
@@ -43,7 +43,7 @@ pub fn read_compress_write(src_path: &PathBuf, dst_path: &PathBuf, block_size: u
     let mut buf = vec![0; block_size];
 
     // create a HuffTree from the src file bytes
-    let tree = huff_tree_from_reader(&mut reader, &mut src_bytes_left.clone(), &mut buf);
+    let tree = huff_tree_from_reader(&mut reader, &mut src_bytes_left.clone(), &mut buf)?;
     let tree_bin = tree.as_bin();
     let tree_bin_padding = utils::calc_padding_bits(tree_bin.len());
     let tree_bin_bytes = tree_bin.into_vec();
@@ -158,7 +158,7 @@ pub fn read_decompress_write(src_path: &PathBuf, dst_path: &PathBuf, block_size:
 
 /// Read bytes from reader, loading at most buf.len() bytes
 /// from it at one time, building a HuffTree from them
-pub fn huff_tree_from_reader<R: Read>(reader: &mut R, reader_bytes_left: &mut usize, buf: &mut [u8]) -> HuffTree<u8>{
+pub fn huff_tree_from_reader<R: Read>(reader: &mut R, reader_bytes_left: &mut usize, buf: &mut [u8]) -> Result<HuffTree<u8>, Error>{
     let mut bw = ByteWeights::new();
     while reader.read_exact(buf).is_ok(){
         bw += ByteWeights::threaded_from_bytes(&buf, 12);
@@ -167,8 +167,14 @@ pub fn huff_tree_from_reader<R: Read>(reader: &mut R, reader_bytes_left: &mut us
     if *reader_bytes_left > 0{
         bw += ByteWeights::threaded_from_bytes(&buf[..*reader_bytes_left], 12);
     }
+    if bw.is_empty(){
+        return Err(Error::new(
+            String::from("The file is empty, there is nothing to compress"),
+            ErrorKind::InvalidInput
+        ))
+    }
 
-    HuffTree::from_weights(bw)
+    Ok(HuffTree::from_weights(bw))
 }
 
 /// Read bytes from reader, loading at most buf.len() bytes
-- 
2.43.0


From c16e68ada91b5a61304f5803a7016198f1bf7114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:46 +0000
Subject: [PATCH 15/20] fix: leave the destination untouched when the source is
 rejected

The destination was truncated before the source was read and validated.
---
 huff/src/comp.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/huff/src/comp.rs b/huff/src/comp.rs
index bf1ec89..9d2f42c 100644
--- a/huff/src/comp.rs
+++ b/huff/src/comp.rs
@@ -35,10 +35,6 @@ pub fn read_compress_write(src_path: &PathBuf, dst_path: &PathBuf, block_size: u
     let mut src_bytes_left = src.metadata()?.len() as usize;
     let mut reader = BufReader::new(src);
 
-    // write to dst file
-    let dst = File::create(dst_path)?;
-    let mut writer = BufWriter::new(dst);
-
     // allocate a u8 buffer of size == block_size
     let mut buf = vec![0; block_size];
 
@@ -51,6 +47,10 @@ pub fn read_compress_write(src_path: &PathBuf, dst_path: &PathBuf, block_size: u
     // return reader to start
     reader.seek(SeekFrom::Start(0))?;
 
+    // write to dst file
+    let dst = File::create(dst_path)?;
+    let mut writer = BufWriter::new(dst);
+
     // write an empty byte, later to be filled by padding data
     writer.write_all(&[0])?;
     // write the tree_bin_bytes lenght as a 4 byte num
@@ -82,10 +82,6 @@ pub fn read_decompress_write(src_path: &PathBuf, dst_path: &PathBuf, block_size:
     let mut src_bytes_left = src.metadata()?.len() as usize;
     let reader = BufReader::new(src);
 
-    // write to dst file
-    let dst = File::create(dst_path)?;
-    let mut writer = BufWriter::new(dst);
-
     // allocate a u8 buffer of size == block_size
     let mut buf = vec![0; block_size];
 
@@ -144,6 +140,10 @@ pub fn read_decompress_write(src_path: &PathBuf, dst_path: &PathBuf, block_size:
         ))
     };
 
+    // write to dst file
+    let dst = File::create(dst_path)?;
+    let mut writer = BufWriter::new(dst);
+
     // decompress the remaining bytes
     let mut reader = reader.into_inner();
     decompress_to_writer(
-- 
2.43.0


From 805ba9a6825af00499e14d31f08a3feaaea1bb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:46 +0000
Subject: [PATCH 16/20] fix: do not take a failed read for the end of the
 source file

Any read error ended the reading loops early, after which stale buffer
contents were processed. The blocks are now read with their errors
reported, which also stops the padding bits from being decoded as letters
when the data fills the last block exactly.
---
 huff/src/comp.rs | 60 ++++++++++++++++++++++--------------------------
 1 file changed, 28 insertions(+), 32 deletions(-)

diff --git a/huff/src/comp.rs b/huff/src/comp.rs
index 9d2f42c..a032429 100644
--- a/huff/src/comp.rs
+++ b/huff/src/comp.rs
@@ -156,16 +156,23 @@ pub fn read_decompress_write(src_path: &PathBuf, dst_path: &PathBuf, block_size:
     Ok(())
 }
 
+/// Read the next block of buf.len() bytes from reader,
+/// or of all the bytes left if there are fewer of them
+fn read_block<'a, R: Read>(reader: &mut R, reader_bytes_left: &mut usize, buf: &'a mut [u8]) -> Result<&'a [u8], Error>{
+    let block_len = buf.len().min(*reader_bytes_left);
+    let block = &mut buf[..block_len];
+    reader.read_exact(block)?;
+    *reader_bytes_left -= block_len;
+    Ok(block)
+}
+
 /// Read bytes from reader, loading at most buf.len() bytes
 /// from it at one time, building a HuffTree from them
 pub fn huff_tree_from_reader<R: Read>(reader: &mut R, reader_bytes_left: &mut usize, buf: &mut [u8]) -> Result<HuffTree<u8>, Error>{
     let mut bw = ByteWeights::new();
-    while reader.read_exact(buf).is_ok(){
-        bw += ByteWeights::threaded_from_bytes(&buf, 12);
-        *reader_bytes_left -= buf.len();
-    }
-    if *reader_bytes_left > 0{
-        bw += ByteWeights::threaded_from_bytes(&buf[..*reader_bytes_left], 12);
+    while *reader_bytes_left > 0{
+        let block = read_block(reader, reader_bytes_left, buf)?;
+        bw += ByteWeights::threaded_from_bytes(block, 12);
     }
     if bw.is_empty(){
         return Err(Error::new(
@@ -209,23 +216,15 @@ fn compress_to_writer<R: Read, W: Write + Seek>(
             (comp_bytes, padding_bits, huff_tree)
         }};
     }
-    // try to read exactly buf.len() bytes, compressing them and repeating
-    while reader.read_exact(buf).is_ok(){
-        let (comp_bytes, padding_bits, huff_tree) =  comp_data_from!(&buf);
+    // read at most buf.len() bytes, compressing them and repeating
+    while *reader_bytes_left > 0{
+        let block = read_block(reader, reader_bytes_left, buf)?;
+        let (comp_bytes, padding_bits, huff_tree) =  comp_data_from!(block);
         writer.write_all(&comp_bytes)?;
         
         prev_padding = padding_bits;
         prev_byte = comp_bytes[comp_bytes.len() - 1];
         tree = huff_tree;
-
-        *reader_bytes_left -= buf.len();
-    }
-    // if couldn't read exactly buf.len() bytes and there are some bytes left, compress them
-    if *reader_bytes_left > 0{
-        let (comp_bytes, padding_bits, _) =  comp_data_from!(&buf[..*reader_bytes_left]);
-        writer.write_all(&comp_bytes)?;
-
-        prev_padding = padding_bits;
     }
 
     // return the written compressed data's padding bits
@@ -264,23 +263,20 @@ fn decompress_to_writer<R: Read, W: Write>(
             }
         };
     }
-    // try to read exactly buf.len() bytes, decompressing them and writing
-    while reader.read_exact(buf).is_ok(){
-        for byte in &buf[..]{
-            read_codes_in_byte!(byte;[0..8]);
+    // read at most buf.len() bytes, decompressing them and writing
+    while *reader_bytes_left > 0{
+        let block = read_block(reader, reader_bytes_left, buf)?;
+        for (i, byte) in block.iter().enumerate(){
+            // only the very last byte stores padding bits
+            if *reader_bytes_left == 0 && i == block.len() - 1{
+                read_codes_in_byte!(byte;[0..8 - padding_bits]);
+            }
+            else{
+                read_codes_in_byte!(byte;[0..8]);
+            }
         }
         writer.write_all(&decomp_buf)?;
         decomp_buf.clear();
-        *reader_bytes_left -= buf.len();
-    }
-    // if couldn't read exactly buf.len() bytes and there are some bytes left, 
-    // decompress them minding the padding bits
-    if *reader_bytes_left > 0{
-        for byte in &buf[..*reader_bytes_left - 1]{
-            read_codes_in_byte!(byte;[0..8]);
-        }
-        read_codes_in_byte!(buf[*reader_bytes_left - 1];[0..8 - padding_bits]);
-        writer.write_all(&decomp_buf)?;
     }
     Ok(())
 }
-- 
2.43.0


From 5ee0f5244f5314e80145cfbeea32dc12eb78dc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:46 +0000
Subject: [PATCH 17/20] fix: report a source file changed between the two
 passes instead of panicking

---
 huff/src/comp.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/huff/src/comp.rs b/huff/src/comp.rs
index a032429..81e9e05 100644
--- a/huff/src/comp.rs
+++ b/huff/src/comp.rs
@@ -202,7 +202,10 @@ fn compress_to_writer<R: Read, W: Write + Seek>(
             // get and own the compress data
             let (mut comp_bytes, padding_bits, huff_tree) = 
                 compress_with_tree($buf, tree.clone())
-                .unwrap()
+                .map_err(|_| Error::new(
+                    String::from("The file changed while being compressed"),
+                    ErrorKind::Io
+                ))?
                 .into_inner();
             // if the previous compress data's padding isn't 0
             // write the comp_bytes minding the padding
-- 
2.43.0


From 05ad278f69e9e7b8fd501c530f0084cf98442c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:46 +0000
Subject: [PATCH 18/20] fix: join the compressed blocks where the previous one
 ends

Files larger than the block size were corrupted: the bytes were offset by
the number of padding bits instead of the used ones, and the resulting
padding was not accounted for.
---
 huff/src/comp.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/huff/src/comp.rs b/huff/src/comp.rs
index 81e9e05..9943cd0 100644
--- a/huff/src/comp.rs
+++ b/huff/src/comp.rs
@@ -200,7 +200,7 @@ fn compress_to_writer<R: Read, W: Write + Seek>(
     macro_rules! comp_data_from {
         ($buf:expr) => {{
             // get and own the compress data
-            let (mut comp_bytes, padding_bits, huff_tree) = 
+            let (mut comp_bytes, mut padding_bits, huff_tree) = 
                 compress_with_tree($buf, tree.clone())
                 .map_err(|_| Error::new(
                     String::from("The file changed while being compressed"),
@@ -212,8 +212,14 @@ fn compress_to_writer<R: Read, W: Write + Seek>(
             if prev_padding != 0{
                 writer.seek(SeekFrom::Current(-1))?;
 
-                comp_bytes = utils::offset_bytes(&comp_bytes, prev_padding as usize);
-                comp_bytes[0] |= prev_byte
+                comp_bytes = utils::offset_bytes(&comp_bytes, 8 - prev_padding as usize);
+                comp_bytes[0] |= prev_byte;
+                // moved padding bits may make up a whole byte
+                padding_bits += prev_padding;
+                if padding_bits > 7{
+                    padding_bits -= 8;
+                    comp_bytes.pop();
+                }
             }
 
             (comp_bytes, padding_bits, huff_tree)
-- 
2.43.0


From 4397b8abddac811328bd268d826912ea51ecf4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:46 +0000
Subject: [PATCH 19/20] fix: read the header and the tree regardless of the
 block size

A block size below the size of the header or of the tree, and a short
read, made valid files be rejected.
---
 huff/src/comp.rs | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/huff/src/comp.rs b/huff/src/comp.rs
index 9943cd0..5bcf771 100644
--- a/huff/src/comp.rs
+++ b/huff/src/comp.rs
@@ -80,24 +80,24 @@ pub fn read_decompress_write(src_path: &PathBuf, dst_path: &PathBuf, block_size:
     // read from src file
     let src = File::open(src_path)?;
     let mut src_bytes_left = src.metadata()?.len() as usize;
-    let reader = BufReader::new(src);
+    let mut reader = BufReader::new(src);
 
     // allocate a u8 buffer of size == block_size
     let mut buf = vec![0; block_size];
 
     // read only first 5 bytes
-    let mut reader = reader.take(5);
-    let bytes_read = reader.read(&mut buf)?;
-    if bytes_read < 5{
+    if src_bytes_left < 5{
         return Err(Error::new(
             format!("{:?} too short to decompress, missing header information", src_path),
             ErrorKind::MissingHeaderInfo
         ))
     }
+    let mut header = [0; 5];
+    reader.read_exact(&mut header)?;
     src_bytes_left -= 5;
 
     // read padding info from the first byte
-    let padding = buf[0];
+    let padding = header[0];
     let tree_padding_bits =  padding >> 4;
     let data_padding_bits = padding & 0b0000_1111;
     if tree_padding_bits > 7 || data_padding_bits > 7{
@@ -108,28 +108,25 @@ pub fn read_decompress_write(src_path: &PathBuf, dst_path: &PathBuf, block_size:
     }
     // read tree_bin's length
     let tree_len = u32::from_be_bytes(
-        buf[1..5]
+        header[1..5]
         .try_into()
         .unwrap()
     ) as usize;
     
     // read only next tree_len bytes
-    reader.set_limit(tree_len as u64);
-    let bytes_read = reader.read(&mut buf)?;
-    if bytes_read < tree_len{
+    if src_bytes_left < tree_len{
         return Err(Error::new(
             format!("{:?} too short to decompress, missing header information", src_path),
             ErrorKind::MissingHeaderInfo
         ))
     }
+    let mut tree_bytes = vec![0; tree_len];
+    reader.read_exact(&mut tree_bytes)?;
     src_bytes_left -= tree_len;
 
     // read the HuffTree
     let tree = match huff_coding::prelude::HuffTree::<u8>::try_from_bin({
-        let mut b = huff_coding::bitvec::prelude::BitVec::from_vec(
-            buf[..tree_len]
-            .to_vec()
-        );
+        let mut b = huff_coding::bitvec::prelude::BitVec::from_vec(tree_bytes);
         for _ in 0..tree_padding_bits{b.pop();}
         b
     }){
@@ -145,7 +142,6 @@ pub fn read_decompress_write(src_path: &PathBuf, dst_path: &PathBuf, block_size:
     let mut writer = BufWriter::new(dst);
 
     // decompress the remaining bytes
-    let mut reader = reader.into_inner();
     decompress_to_writer(
         &mut reader, &mut writer, 
         &mut src_bytes_left, &mut buf,
-- 
2.43.0


From 5a7891b03f7cc6641437ecac01b22e27f94ce939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:46 +0000
Subject: [PATCH 20/20] fix: do not allocate a buffer larger than the source
 file

A large block size aborted the program.
---
 huff/src/comp.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/huff/src/comp.rs b/huff/src/comp.rs
index 5bcf771..977d371 100644
--- a/huff/src/comp.rs
+++ b/huff/src/comp.rs
@@ -35,8 +35,8 @@ pub fn read_compress_write(src_path: &PathBuf, dst_path: &PathBuf, block_size: u
     let mut src_bytes_left = src.metadata()?.len() as usize;
     let mut reader = BufReader::new(src);
 
-    // allocate a u8 buffer of size == block_size
-    let mut buf = vec![0; block_size];
+    // allocate a u8 buffer of size == block_size, or smaller if that's enough for the whole file
+    let mut buf = vec![0; block_size.min(src_bytes_left).max(1)];
 
     // create a HuffTree from the src file bytes
     let tree = huff_tree_from_reader(&mut reader, &mut src_bytes_left.clone(), &mut buf)?;
@@ -82,8 +82,8 @@ pub fn read_decompress_write(src_path: &PathBuf, dst_path: &PathBuf, block_size:
     let mut src_bytes_left = src.metadata()?.len() as usize;
     let mut reader = BufReader::new(src);
 
-    // allocate a u8 buffer of size == block_size
-    let mut buf = vec![0; block_size];
+    // allocate a u8 buffer of size == block_size, or smaller if that's enough for the whole file
+    let mut buf = vec![0; block_size.min(src_bytes_left).max(1)];
 
     // read only first 5 bytes
     if src_bytes_left < 5{
-- 
2.43.0

