From 3aa1be64ad51def09112f01f0883e4c0781dbf2d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:34:34 +0000
Subject: [PATCH 01/45] fix: encode_text built a Vec<u8> from a Vec<(u8,u8)>
 through set_len/transmute (undefined behaviour, aborts)

---
 src/dbcharconv.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/dbcharconv.rs b/src/dbcharconv.rs
index 9c04a41..ad2251b 100644
--- a/src/dbcharconv.rs
+++ b/src/dbcharconv.rs
@@ -35,15 +35,10 @@ pub fn encode_char(ch: char) -> (u8, u8) {
 }
 
 pub fn encode_text(text: &str) -> Vec<u8> {
-    let mut res = text.chars()
+    text.chars()
         .map(|c| encode_char(c))
-        .collect::<Vec<(u8, u8)>>();
-
-    unsafe {
-        res.set_len(res.len() * 2);
-        std::mem::transmute(res)
-    }
-
+        .flat_map(|(high, low)| [high, low])
+        .collect()
 }
 
 #[cfg(test)]
-- 
2.43.0


From e21ba84f66a3eeb135d304839d4f7e6df6fe1f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:25 +0000
Subject: [PATCH 02/45] fix: spacing in decompiled calculations came out as
 text literals

---
 src/decompile/decompiler.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index 79d1c4e..88dbabe 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -127,7 +127,15 @@ fn decompile_calculation(bytecode: &[u8]) -> String {
                 result.push('&');
             }
             0xC => {
-                result.push(' ');
+                /* spacing between operands: a text chunk that is not a literal. */
+                if it.peek() == Some(&&0x13) {
+                    it.next();
+                    let n = *it.next().unwrap() as usize;
+                    let s = it.by_ref().take(n).map(|c| *c).collect::<Vec<u8>>();
+                    result.push_str(&fm_string_decrypt(&s));
+                } else {
+                    result.push(' ');
+                }
             }
             _ => {
 
-- 
2.43.0


From bf0fdfb9f3b82a2ebcf37ad6ec9b69f701214ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:53 +0000
Subject: [PATCH 03/45] fix: non-ASCII text and variable names were garbled in
 decompiled calculations

---
 src/decompile/decompiler.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index 88dbabe..6cc2ca9 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -72,13 +72,13 @@ fn decompile_calculation(bytecode: &[u8]) -> String {
             0x13 => {
                 /* Processing String */
                 let n = it.next();
-                let mut s = String::new();
+                let mut s = Vec::<u8>::new();
                 for i in 1..=*n.unwrap() as usize {
-                    s.push(*it.next().unwrap() as char);
+                    s.push(*it.next().unwrap());
                 }
                 let mut text = String::new();
                 text.push('"');
-                text.push_str(&fm_string_decrypt(s.as_bytes()));
+                text.push_str(&fm_string_decrypt(&s));
                 text.push('"');
 
                 result.push_str(&text);
@@ -86,11 +86,11 @@ fn decompile_calculation(bytecode: &[u8]) -> String {
             0x1a => {
                 /* decode variable */
                 let n = it.next();
-                let mut name_arr = String::new();
+                let mut name_arr = Vec::<u8>::new();
                 for i in 1..=*n.unwrap() as usize {
-                    name_arr.push(*it.next().unwrap() as char);
+                    name_arr.push(*it.next().unwrap());
                 }
-                let name = fm_string_decrypt(name_arr.as_bytes());
+                let name = fm_string_decrypt(&name_arr);
                 result.push_str(&name);
             },
             0x25 => {
-- 
2.43.0


From 3bd436070dc55789d09ebb638f76df4e64f46e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:28 +0000
Subject: [PATCH 04/45] fix: decompiled table occurrences and relationships
 were numbered by position instead of by their ids

---
 src/decompile/decompiler.rs | 43 ++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 22 deletions(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index 6cc2ca9..585ab01 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -255,6 +255,7 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
     let mut script_segments: HashMap<usize, BTreeMap<usize, Vec<u8>>> = HashMap::new();
 
     let mut data_source_names = VecDeque::<String>::new();
+    let mut occurrence_id = 0;
 
 
     while idx != 0 {
@@ -275,39 +276,26 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
 
             // print_chunk(&chunk, &path);
             match &path.iter().map(|s| s.as_str()).collect::<Vec<_>>().as_slice() {
-                /* Examining relatinoships of table occurences */
-                ["3", "17", "5", "0", "251"] => {
-                    if chunk.ctype == ChunkType::DataSimple {
-                        let mut tmp = component::FMComponentRelationship::new();
-                        tmp.table1 = fmp_file.table_occurrences.len() as u16;
-                        tmp.table2 = chunk.data.unwrap()[2] as u16;
-                        if fmp_file.relationships.iter()
-                            .filter(|x| x.1.table1 == tmp.table2 && x.1.table2 == tmp.table1)
-                            .collect::<Vec<_>>().len() == 0 {
-                            fmp_file.relationships.insert(fmp_file.relationships.len() + 1, tmp);
-                        }
-                    }
-                },
                 /* Examining table occurences */
                 ["3", "17", "5", "0", ..] => {
                     let s = fm_string_decrypt(chunk.data.unwrap_or(&[0]));
+                    if chunk.ctype == ChunkType::PathPush && path.len() == 4 {
+                        occurrence_id = get_int(&chunk.data.unwrap()[1..3]);
+                    }
                     match chunk.ref_simple {
                         Some(2) => {
-                            let tmp = component::FMComponentTableOccurence {
-                                table_occurence_name: String::new(),
-                                create_by_user: String::new(),
-                                created_by_account: String::new(),
-                                table_actual: chunk.data.unwrap()[6] as u16,
-                                table_actual_name: String::new(),
-                            };
+                            fmp_file.table_occurrences
+                                .entry(occurrence_id)
+                                .or_insert_with(component::FMComponentTableOccurence::new)
+                                .table_actual = chunk.data.unwrap()[6] as u16;
 
                             let source = chunk.data.unwrap()[2];
                             println!("{:?}", source);
-                            fmp_file.table_occurrences.insert(fmp_file.table_occurrences.len() + 1, tmp);
                         }
                         Some(16) => {
                             fmp_file.table_occurrences
-                                .get_mut(&(fmp_file.table_occurrences.len())).unwrap()
+                                .entry(occurrence_id)
+                                .or_insert_with(component::FMComponentTableOccurence::new)
                                 .table_occurence_name = s;
                         },
                         Some(129) => {
@@ -330,6 +318,17 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                         }
                     }
                 },
+                /* Examining the table occurrences joined by a relationship. */
+                ["3", "251", "5", x] => {
+                    if chunk.ref_simple == Some(2) {
+                        let data = chunk.data.unwrap();
+                        let handle = fmp_file.relationships
+                            .entry(x.parse().unwrap())
+                            .or_insert_with(component::FMComponentRelationship::new);
+                        handle.table1 = get_int(&data[3..5]) as u16;
+                        handle.table2 = get_int(&data[8..10]) as u16;
+                    }
+                },
                 ["3", "251", "5", x, "3"] => {
                     match chunk.ref_simple {
                         Some(1) => {
-- 
2.43.0


From b85ab14caf3039b69bc3462c9d752f4ae706c5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:57 +0000
Subject: [PATCH 05/45] fix: two-byte path integers lost their high byte

---
 src/decompile/decompiler.rs | 5 +++--
 src/encoding_util.rs        | 9 ++++++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index 585ab01..7779498 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -342,8 +342,9 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                                 0x6 => RelationComparison::Cartesian,
                                 _ => RelationComparison::Equal
                             };
-                            let field1 = get_path_int(&chunk.data.unwrap()[2..=3]) - 128;
-                            let field2 = get_path_int(&chunk.data.unwrap()[5..=6]) - 128;
+                            /* field ids are stored from 256 up. */
+                            let field1 = get_int(&chunk.data.unwrap()[2..=3]).saturating_sub(256);
+                            let field2 = get_int(&chunk.data.unwrap()[5..=6]).saturating_sub(256);
                             let handle = fmp_file.relationships.get_mut(&x.parse().unwrap());
                             if handle.is_some() {
                                 let handle_uw = handle.unwrap();
diff --git a/src/encoding_util.rs b/src/encoding_util.rs
index d889858..721df59 100644
--- a/src/encoding_util.rs
+++ b/src/encoding_util.rs
@@ -3,7 +3,14 @@
 pub fn get_path_int(bytes : &[u8]) -> usize {
     match bytes.len() {
         1 => bytes[0] as usize,
-        2 => 0x80 + ((bytes[0] as usize) & 0x7f << 8) + bytes[1] as usize,
+        2 => {
+            let mut high = (bytes[0] & 0x7f) as usize;
+            /* put_path_int marks its high byte with 0x7c, which is not part of the number. */
+            if high & 0x7c == 0x7c {
+                high &= 0x03;
+            }
+            0x80 + (high << 8) + bytes[1] as usize
+        },
         _ => 0
     }
 }
-- 
2.43.0


From 971050eb597f9d1a90745eda1a85e0b171011f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:46 +0000
Subject: [PATCH 06/45] fix: decompiled perform_script steps aborted when run,
 their script name was not a text literal

---
 src/decompile/decompiler.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index 7779498..a7c7f70 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -604,7 +604,7 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                                     match oc {
                                         Some(Instruction::PerformScript) => {
                                             switch.push(
-                                                fmp_file.scripts.get(&(ins[8] as usize)).unwrap().script_name.clone()
+                                                format!("\"{}\"", fmp_file.scripts.get(&(ins[8] as usize)).unwrap().script_name)
                                             );
                                         },
                                         _ => {}
@@ -634,7 +634,7 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                                         match oc {
                                             Some(Instruction::PerformScript) => {
                                                 switch.push(
-                                                    fmp_file.scripts.get(&(ins[8] as usize)).unwrap().script_name.clone()
+                                                    format!("\"{}\"", fmp_file.scripts.get(&(ins[8] as usize)).unwrap().script_name)
                                                 );
                                             },
                                             _ => {}
@@ -770,7 +770,7 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                 let mut switch: Vec<String> = vec![];
                 match op {
                     Some(Instruction::PerformScript) => {
-                        switch.push(fmp_file.scripts.get(&(instr[8] as usize)).unwrap().script_name.clone());
+                        switch.push(format!("\"{}\"", fmp_file.scripts.get(&(instr[8] as usize)).unwrap().script_name));
                     },
                     _ => {}
                 }
-- 
2.43.0


From 1376891719dd22080f0137cbba299cb1cfa7599a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:47 +0000
Subject: [PATCH 07/45] fix: compiled relationships replaced each other

---
 src/compile/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compile/parser.rs b/src/compile/parser.rs
index bcda58d..c4a4c35 100644
--- a/src/compile/parser.rs
+++ b/src/compile/parser.rs
@@ -81,7 +81,7 @@ impl Parser {
                             }
                         }
                     }
-                    ret.relationships.insert(ret.tables.len() + 1, relationship);
+                    ret.relationships.insert(ret.relationships.len() + 1, relationship);
                 },
                 TokenType::ValueList => {
                     let mut value_list = FMComponentValueList::new();
-- 
2.43.0


From 20619fd5688dfdacc191dc9f725ff6977fbc5cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:48 +0000
Subject: [PATCH 08/45] fix: commas and parentheses in text literals split
 script step arguments

---
 src/burn_script/lexer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/burn_script/lexer.rs b/src/burn_script/lexer.rs
index 8280a00..bbadff6 100644
--- a/src/burn_script/lexer.rs
+++ b/src/burn_script/lexer.rs
@@ -77,6 +77,9 @@ impl Lexer {
                                 in_string = !in_string;
                                 buffer.push(*c);
                             }
+                            _ if in_string => {
+                                buffer.push(*c);
+                            }
                             ')' => {
                                 if stack == 0 {
                                     ret.push(Token::with_value(TokenType::Argument, &buffer));
-- 
2.43.0


From edb3a8181a35797f28c3c8ecc2c6f1f026a13882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:49 +0000
Subject: [PATCH 09/45] fix: line breaks and trailing spaces became part of
 names in calculations

---
 src/burn_script/lexer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/burn_script/lexer.rs b/src/burn_script/lexer.rs
index bbadff6..b89d1e2 100644
--- a/src/burn_script/lexer.rs
+++ b/src/burn_script/lexer.rs
@@ -82,7 +82,7 @@ impl Lexer {
                             }
                             ')' => {
                                 if stack == 0 {
-                                    ret.push(Token::with_value(TokenType::Argument, &buffer));
+                                    ret.push(Token::with_value(TokenType::Argument, buffer.trim()));
                                     buffer.clear();
                                     break;
                                 } else {
@@ -96,7 +96,7 @@ impl Lexer {
                             }
                             ',' => {
                                 if stack == 0 {
-                                    ret.push(Token::with_value(TokenType::Argument, &buffer));
+                                    ret.push(Token::with_value(TokenType::Argument, buffer.trim()));
                                     buffer.clear();
                                 } else {
                                     buffer.push(*c);
-- 
2.43.0


From 497a7dcd71b574ee349495a70ee8ff4cb1e0c4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:50 +0000
Subject: [PATCH 10/45] fix: a closing bracket in a text literal ended the
 script block

---
 src/compile/lexer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/compile/lexer.rs b/src/compile/lexer.rs
index 6ed2a06..7c60c0b 100644
--- a/src/compile/lexer.rs
+++ b/src/compile/lexer.rs
@@ -47,8 +47,12 @@ pub fn tokenize(code: &str) -> Vec<Token> {
             c = lex_iter.next().unwrap().1;
         }
 
+        let mut in_literal = false;
         while in_script == true {
-            if c == ']' {
+            if c == '"' {
+                in_literal = !in_literal;
+            }
+            if c == ']' && !in_literal {
                 list.push(Token { ttype: TokenType::Script, text: buffer.to_string()});
                 in_script = false;
                 buffer.clear();
-- 
2.43.0


From 7307f942c626d6ef70f049e5aa75fab872ee31d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:51 +0000
Subject: [PATCH 11/45] fix: chunk 0x1F read its length from inside its
 reference

---
 src/chunk.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/chunk.rs b/src/chunk.rs
index c96b2ed..85abafa 100644
--- a/src/chunk.rs
+++ b/src/chunk.rs
@@ -218,6 +218,7 @@ pub fn get_chunk_from_code<'a>(code: &'a[u8], offset: &mut usize, path: &mut Vec
             let ref_len = code[*offset] as usize;
             *offset += 1;
             ref_data = Some(&code[*offset..*offset+ref_len]);
+            *offset += ref_len;
             let len = get_int(&code[*offset..*offset+2]);
             *offset += 2;
             data = Some(&code[*offset..*offset+len]);
-- 
2.43.0


From 9f7aead32979e802714493a516f571800ea2e680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:52 +0000
Subject: [PATCH 12/45] fix: a 0x0F chunk that is not a segment was decoded
 forever

---
 src/chunk.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/chunk.rs b/src/chunk.rs
index 85abafa..babcefa 100644
--- a/src/chunk.rs
+++ b/src/chunk.rs
@@ -140,6 +140,8 @@ pub fn get_chunk_from_code<'a>(code: &'a[u8], offset: &mut usize, path: &mut Vec
                 *offset += 2;
                 data = Some(&code[*offset..*offset+len]);
                 *offset += len;
+            } else {
+                return Err("Invalid segment chunk.");
             }
         },
         0x10 => {
@@ -280,7 +282,7 @@ pub fn get_chunk_from_code<'a>(code: &'a[u8], offset: &mut usize, path: &mut Vec
             *offset += 1;
         }
         _ => {
-            eprintln!("Unknown code @ B:{}, O:{}: {:x}", (4096 / (*offset - local)), local, chunk_code);
+            eprintln!("Unknown code @ B:{}, O:{}: {:x}", *offset - local, local, chunk_code);
             return Err("Invalid Opcode for Chunk.");
         }
     };
-- 
2.43.0


From debe0446b88f7570635e5f38103f30cddd71d233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:54 +0000
Subject: [PATCH 13/45] fix: a cyclic sector chain or an absurd sector count
 hung or exhausted memory

---
 src/decompile/decompiler.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index a7c7f70..d9c1682 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -2,7 +2,7 @@ use std::char::decode_utf16;
 use std::fs::{File, write};
 use std::io::Read;
 use std::path::Path;
-use std::collections::{BTreeMap, HashMap, VecDeque};
+use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
 
 use crate::component::{FMComponentDataSource, RelationComparison, SourceFileLocation};
 use crate::fm_script_engine::fm_script_engine_instructions::{ScriptStep, INSTRUCTIONMAP, Instruction};
@@ -240,6 +240,9 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
     let first = sector::get_sector(&buffer[offset..]);
     // println!("{:?} == {}", &buffer[offset+8..offset+12], first.next);
     let n_blocks = first.next;
+    if n_blocks > buffer.len() / SECTOR_SIZE + 1 {
+        panic!("File is shorter than the {} sectors it claims to have.", n_blocks);
+    }
 
     sectors.resize(n_blocks + 1, sector::Sector { 
         deleted: false, 
@@ -258,7 +261,12 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
     let mut occurrence_id = 0;
 
 
+    let mut visited = HashSet::<usize>::new();
+
     while idx != 0 {
+        if !visited.insert(idx) {
+            panic!("Sector {} is part of a cycle.", idx);
+        }
         let start = idx * SECTOR_SIZE;
         let bound = start + SECTOR_SIZE;
         offset = start;
-- 
2.43.0


From 337125a80cd379ae563b9e523df8dcab26f6a804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:42 +0000
Subject: [PATCH 14/45] fix: a component that continues in another sector lost
 what was read of it before

---
 src/decompile/decompiler.rs | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index d9c1682..f1c8ea2 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -370,10 +370,9 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                 /* Examing layouts */
                 ["4", "1", "7", x, ..] => {
                     if chunk.ctype == ChunkType::PathPush {
-                        fmp_file.layouts.insert(
-                            x.parse::<usize>().unwrap(),
-                            component::FMComponentLayout::new()
-                            );
+                        fmp_file.layouts
+                            .entry(x.parse::<usize>().unwrap())
+                            .or_insert_with(component::FMComponentLayout::new);
                         continue;
                     } else {
                         match chunk.ref_simple {
@@ -412,8 +411,8 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                             }
                             fmp_file.tables.get_mut(&(x.parse::<usize>().unwrap() - 128))
                                 .unwrap().fields
-                                    .insert(y.parse::<usize>().unwrap() as u16, 
-                                            component::FMComponentField::new());
+                                    .entry(y.parse::<usize>().unwrap() as u16)
+                                    .or_insert_with(component::FMComponentField::new);
                         } else {
                             let s = fm_string_decrypt(chunk.data.unwrap_or(&[0]));
                             // match chunk.ref_simple.unwrap_or(0) {
@@ -486,9 +485,9 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                 ["3", "16", "5", x] => {
                     let s = fm_string_decrypt(chunk.data.unwrap_or(&[0]));
                     if chunk.ctype == ChunkType::PathPush {
-                        if !fmp_file.tables.contains_key(&x.parse().unwrap()) {
-                            fmp_file.tables.insert(x.parse::<usize>().unwrap() - 128, component::FMComponentTable::new());
-                        } 
+                        fmp_file.tables
+                            .entry(x.parse::<usize>().unwrap() - 128)
+                            .or_insert_with(component::FMComponentTable::new);
                     } else {
                         match chunk.ref_simple.unwrap_or(0) {
                             metadata_constants::COMPONENT_NAME => { 
@@ -723,12 +722,14 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                 ["32", "5", ds, ..] => {
                     match chunk.ctype {
                         ChunkType::PathPush => {
-                            let idx = get_int(chunk.data.unwrap());
-                            let mut tmp = FMComponentDataSource::new();
-                            let front = data_source_names.pop_front();
-                            if front.is_some() {
-                                tmp.source_name = front.unwrap();
-                                fmp_file.data_sources.insert(idx, tmp);
+                            let idx = ds.parse::<usize>().unwrap();
+                            if !fmp_file.data_sources.contains_key(&idx) {
+                                let mut tmp = FMComponentDataSource::new();
+                                let front = data_source_names.pop_front();
+                                if front.is_some() {
+                                    tmp.source_name = front.unwrap();
+                                    fmp_file.data_sources.insert(idx, tmp);
+                                }
                             }
                         }
                         ChunkType::RefSimple => {
-- 
2.43.0


From baa1e3d8e38b56216f536eeb82002ea38aad5969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:43 +0000
Subject: [PATCH 15/45] fix: a script stored in segments could not have data
 for its steps

---
 src/decompile/decompiler.rs | 68 +++++++++++++++++++++----------------
 1 file changed, 39 insertions(+), 29 deletions(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index f1c8ea2..bf5ed25 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -219,6 +219,36 @@ fn print_chunk(chunk: &chunk::Chunk, path: &Vec<String>) {
     }
 }
 
+/* Adds the steps of a script whose code is spread over segments. */
+fn assemble_script(fmp_file: &mut FmpFile, script: usize, segments: BTreeMap<usize, Vec<u8>>) {
+    let mut instructions = Vec::<u8>::new();
+    for mut s in segments {
+        instructions.append(&mut s.1);
+    }
+
+    for instr in instructions.chunks(28) {
+        if instr.len() < 28 {
+            continue;
+        }
+        let op = &INSTRUCTIONMAP[instr[21] as usize];
+        if op.is_some() {
+            let mut switch: Vec<String> = vec![];
+            match op {
+                Some(Instruction::PerformScript) => {
+                    switch.push(format!("\"{}\"", fmp_file.scripts.get(&(instr[8] as usize)).unwrap().script_name));
+                },
+                _ => {}
+            }
+            let tmp = ScriptStep {
+                opcode: op.clone().unwrap(),
+                index: crate::encoding_util::get_path_int(&instr[2..instr[0] as usize + 1]),
+                switches: switch,
+            };
+            fmp_file.scripts.get_mut(&script).unwrap().instructions.push(tmp);
+        }
+    }
+}
+
 pub fn decompile_fmp12_file_with_header(path: &Path) -> FmpFile {
     let mut file = File::open(path).expect("unable to open file.");
     let mut buffer = Vec::<u8>::new();
@@ -596,6 +626,13 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                     // }
                 },
                 ["17", "5", x, ..] => {
+                    /* The data of the steps follows, so the steps have to be there. */
+                    if chunk.ctype == ChunkType::PathPush && path.len() == 4 && path[3] == "5" {
+                        let script = x.parse().unwrap();
+                        if let Some(segments) = script_segments.remove(&script) {
+                            assemble_script(&mut fmp_file, script, segments);
+                        }
+                    }
                     if chunk.ctype == ChunkType::PathPop 
                         || chunk.ctype == ChunkType::PathPush {
                         continue;
@@ -764,35 +801,8 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
         idx = sectors[idx].next;
     }
     /* Assemble scripts */
-    for (script, segments) in &mut script_segments {
-        let mut instructions = Vec::<u8>::new();
-        for s in segments {
-            instructions.append(s.1);
-        }
-
-        for instr in instructions.chunks(28) {
-            if instr.len() < 28 {
-                continue;
-            }
-            let op = &INSTRUCTIONMAP[instr[21] as usize];
-            if op.is_some() {
-                let mut switch: Vec<String> = vec![];
-                match op {
-                    Some(Instruction::PerformScript) => {
-                        switch.push(format!("\"{}\"", fmp_file.scripts.get(&(instr[8] as usize)).unwrap().script_name));
-                    },
-                    _ => {}
-                }
-                let tmp = ScriptStep {
-                    opcode: op.clone().unwrap(),
-                    index: crate::encoding_util::get_path_int(&instr[2..instr[0] as usize + 1]),
-                    switches: switch,
-                };
-                let handle = fmp_file.scripts.get_mut(&script).unwrap();
-                handle.instructions.insert(handle.instructions.len(), tmp);
-            }
-
-        }
+    for (script, segments) in script_segments {
+        assemble_script(&mut fmp_file, script, segments);
     }
     // for script in &fmp_file.scripts {
     //     println!("{:?}", script.1.script_name);
-- 
2.43.0


From 416be00828d5af383365ec45d519880294d6a53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:57 +0000
Subject: [PATCH 16/45] fix: assembling the same file twice gave different
 bytes

---
 src/compile/assembler.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/compile/assembler.rs b/src/compile/assembler.rs
index a7f1a1b..cada1e0 100644
--- a/src/compile/assembler.rs
+++ b/src/compile/assembler.rs
@@ -1,10 +1,17 @@
 use crate::{dbcharconv::encode_text, encoding_util::{fm_string_encrypt, get_int, get_path_int, put_int, put_path_int}, FmpFile};
 
-use std::{fs::{write, File}, io::Read, path::Path};
+use std::{collections::HashMap, fs::{write, File}, io::Read, path::Path};
 use super::header::HEADER_INIT;
 use crate::encoding_util;
 use crate::dbcharconv;
 
+/* The components in the order of their ids, so that the same file is always assembled the same. */
+fn by_id<T>(components: &HashMap<usize, T>) -> Vec<(&usize, &T)> {
+    let mut sorted: Vec<_> = components.iter().collect();
+    sorted.sort_by_key(|c| c.0);
+    sorted
+}
+
 pub struct Assembler<'a> {
     idx: usize,
     local_idx: u16,
@@ -164,7 +171,7 @@ impl<'a> Assembler<'a> {
         self.push_directory(1);
         self.push_directory(1);
 
-        for t in &self.file.tables {
+        for t in by_id(&self.file.tables) {
             let mut encoding = dbcharconv::encode_text(&t.1.table_name);
             encoding.push(0x0);
             encoding.push(0x0);
@@ -176,7 +183,7 @@ impl<'a> Assembler<'a> {
         self.pop_directory();
         self.push_directory(3);
 
-        for t in &self.file.tables {
+        for t in by_id(&self.file.tables) {
             let key = put_int(*t.0);
             println!("pushing {:?}", (*t.0 as u32).to_be_bytes());
             self.emit_long_kv(&key, &(*t.0 as u32).to_be_bytes());
@@ -189,7 +196,7 @@ impl<'a> Assembler<'a> {
 
         self.push_directory(5);
 
-        for t in &self.file.tables {
+        for t in by_id(&self.file.tables) {
             self.push_directory(128 + *t.0 as u32);
             self.pop_directory();
         }
@@ -204,14 +211,14 @@ impl<'a> Assembler<'a> {
         self.emit_simple_kv(0, &[3, 208, 0, 9]);
         self.push_directory(1);
 
-        for to in &self.file.table_occurrences {
+        for to in by_id(&self.file.table_occurrences) {
             let name = &encode_text(&(to.1.table_occurence_name.clone() + "\0\0"));
             self.emit_simple_data_1b(&name);
         }
 
         self.pop_directory();
         self.push_directory(3);
-        for to in &self.file.table_occurrences {
+        for to in by_id(&self.file.table_occurrences) {
             self.emit_simple_data_1b(&put_int(*to.0));
         }
 
@@ -245,7 +252,7 @@ impl<'a> Assembler<'a> {
 
         self.push_directory(1);
 
-        for script in &self.file.scripts {
+        for script in by_id(&self.file.scripts) {
             self.emit_simple_data(&encode_text(&script.1.script_name));
         }
         self.pop_directory();
-- 
2.43.0


From f19fdf7b0ab676d1f8b3cc43f28fe3f6a10e46dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:36 +0000
Subject: [PATCH 17/45] fix: data sources were given each other's names

---
 src/decompile/decompiler.rs | 31 ++++++++++++-------------------
 1 file changed, 12 insertions(+), 19 deletions(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index bf5ed25..d77de1b 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -2,7 +2,7 @@ use std::char::decode_utf16;
 use std::fs::{File, write};
 use std::io::Read;
 use std::path::Path;
-use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
+use std::collections::{BTreeMap, HashMap, HashSet};
 
 use crate::component::{FMComponentDataSource, RelationComparison, SourceFileLocation};
 use crate::fm_script_engine::fm_script_engine_instructions::{ScriptStep, INSTRUCTIONMAP, Instruction};
@@ -287,7 +287,6 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
     let mut idx = 2;
     let mut script_segments: HashMap<usize, BTreeMap<usize, Vec<u8>>> = HashMap::new();
 
-    let mut data_source_names = VecDeque::<String>::new();
     let mut occurrence_id = 0;
 
 
@@ -737,15 +736,8 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                     // } else {
                     // }
                 },
-                /* Variable length encoded names of data sources. */
+                /* Variable length encoded names of data sources, in alphabetical order. */
                 ["32", "1", "1"] => {
-                    match chunk.ctype {
-                        ChunkType::DataSimple => {
-                            let s = dbcharconv::decode_bytes(chunk.data.unwrap());
-                            data_source_names.push_back(s);
-                        }
-                        _ => {}
-                    }
                 },
                 /* Identifiers for data sources. */
                 ["32", "1", "3"] => {
@@ -759,18 +751,19 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                 ["32", "5", ds, ..] => {
                     match chunk.ctype {
                         ChunkType::PathPush => {
-                            let idx = ds.parse::<usize>().unwrap();
-                            if !fmp_file.data_sources.contains_key(&idx) {
-                                let mut tmp = FMComponentDataSource::new();
-                                let front = data_source_names.pop_front();
-                                if front.is_some() {
-                                    tmp.source_name = front.unwrap();
-                                    fmp_file.data_sources.insert(idx, tmp);
-                                }
-                            }
+                            fmp_file.data_sources
+                                .entry(ds.parse::<usize>().unwrap())
+                                .or_insert_with(FMComponentDataSource::new);
                         }
                         ChunkType::RefSimple => {
                             match chunk.ref_simple.unwrap() {
+                                16 if path.len() == 3 => {
+                                    let s = fm_string_decrypt(chunk.data.unwrap());
+                                    let handle = fmp_file.data_sources.get_mut(&ds.parse::<usize>().unwrap());
+                                    if handle.is_some() {
+                                        handle.unwrap().source_name = s;
+                                    }
+                                },
                                 130 => {
                                     if chunk.code == 0x6 {
                                         /* Path is stored here */
-- 
2.43.0


From e7616c02155a6e2c5f250f2b69ead6594a73edc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:24 +0000
Subject: [PATCH 18/45] fix: the letter h was dropped from the paths of data
 sources

---
 src/component.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/component.rs b/src/component.rs
index a947d06..94c6f8a 100644
--- a/src/component.rs
+++ b/src/component.rs
@@ -234,13 +234,14 @@ impl SourceFileLocation {
         let path_bytes = &body[path_start+3..path_start+3+path_len];
 
         let path : Vec<_> = path_bytes.into_iter()
-            .map(|b| vec![b])
-            .map(|b| match b[..] {
-                [50] => { vec![] }
-                [65] => { vec![96 as u8]},
-                [218] => { vec![(117 as u8)] },
-                [219] => { vec![(116 as u8), (116 as u8)] },
-                _ => b.into_iter().map(|n| *n).collect()
+            .enumerate()
+            .map(|(i, b)| match *b {
+                /* Part of the marker that 65 starts, anywhere else an 'h'. */
+                50 if i > 0 && path_bytes[i - 1] == 65 => { vec![] }
+                65 => { vec![96 as u8]},
+                218 => { vec![(117 as u8)] },
+                219 => { vec![(116 as u8), (116 as u8)] },
+                n => vec![n]
             })
             .flatten()
             .collect();
-- 
2.43.0


From defdc02ba8797531948cc22b3c202afe4aa8b970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:59 +0000
Subject: [PATCH 19/45] fix: a script of more than nine steps in one chunk
 aborted the decompiler

---
 src/decompile/decompiler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index d77de1b..aa15e2f 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -660,7 +660,7 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                                     };
                                     let handle = &mut fmp_file.scripts
                                         .get_mut(&x.parse().unwrap()).unwrap().instructions;
-                                        handle.insert(n, tmp);
+                                        handle.push(tmp);
                                     }
                                 }
                             }
-- 
2.43.0


From b095df1b81133793b7764c66351007f7b7f6fa36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:14 +0000
Subject: [PATCH 20/45] fix: put_int aborted for numbers of more than 24 bits

---
 src/encoding_util.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/encoding_util.rs b/src/encoding_util.rs
index 721df59..74f63ab 100644
--- a/src/encoding_util.rs
+++ b/src/encoding_util.rs
@@ -38,12 +38,9 @@ pub fn get_int(bytes: &[u8]) -> usize {
 
 pub fn put_int(mut n: usize) -> Vec<u8> {
     let mut res = vec![0, 0, 0, 0];
-    let mut idx = 3;
-    while n > 0 {
-        let cur = n % 256;
+    for byte in res.iter_mut().rev() {
+        *byte = (n % 256) as u8;
         n /= 256;
-        res[idx] = cur as u8;
-        idx -= 1;
     }
     return res;
 }
-- 
2.43.0


From d4666dba61d7b0e394d4c18ae52877840f806a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:18 +0000
Subject: [PATCH 21/45] fix: components of a further source replaced those of
 the sources before it

---
 src/main.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index d8732f4..b80de46 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,5 +1,5 @@
 #![allow(unused)]
-use std::{fs::{write, File}, io::Read, path::Path};
+use std::{collections::HashMap, fs::{write, File}, io::Read, path::Path};
 use clap::Parser;
 use compile::{assembler::Assembler, compiler::compile_burn};
 use decompile::decompiler::{decompile_fmp12_file, decompile_fmp12_file_with_header};
@@ -18,6 +18,12 @@ mod fm_script_engine;
 mod testing;
 mod dbcharconv;
 
+/* Numbers the components of a further source after the ones already there. */
+fn append<T>(components: &mut HashMap<usize, T>, added: HashMap<usize, T>) {
+    let offset = components.len();
+    components.extend(added.into_iter().map(|(id, component)| (id + offset, component)));
+}
+
 fn main() {
 
     let args = cli::CLI::parse();
@@ -45,12 +51,12 @@ fn main() {
                 .to_str().unwrap().to_string()
                 .strip_suffix(".burn").unwrap().to_string();
 
-            file.tables.extend(tmp.tables);
-            file.relationships.extend(tmp.relationships);
-            file.value_lists.extend(tmp.value_lists);
-            file.table_occurrences.extend(tmp.table_occurrences);
-            file.scripts.extend(tmp.scripts);
-            file.layouts.extend(tmp.layouts);
+            append(&mut file.tables, tmp.tables);
+            append(&mut file.relationships, tmp.relationships);
+            append(&mut file.value_lists, tmp.value_lists);
+            append(&mut file.table_occurrences, tmp.table_occurrences);
+            append(&mut file.scripts, tmp.scripts);
+            append(&mut file.layouts, tmp.layouts);
             file.tests.extend(tmp.tests);
             let json = serde_json::to_string_pretty(&file).expect("Unable to generate json file");
             write("inspect_output/test_compile", json).expect("Unable to write to file.");
-- 
2.43.0


From 6d7fbd711bed07669f91ea5f0140a583cf7b1434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:47 +0000
Subject: [PATCH 22/45] fix: assembled table directories were nested one level
 too deep to be found

---
 src/compile/assembler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compile/assembler.rs b/src/compile/assembler.rs
index cada1e0..99bb015 100644
--- a/src/compile/assembler.rs
+++ b/src/compile/assembler.rs
@@ -194,6 +194,7 @@ impl<'a> Assembler<'a> {
         self.emit_simple_kv_e(129, &vec![59, 62, 55, 51, 52]);
         self.emit_simple_kv_e(130, &vec![59, 62, 55, 51, 52]);
 
+        self.pop_directory();
         self.push_directory(5);
 
         for t in by_id(&self.file.tables) {
@@ -202,7 +203,6 @@ impl<'a> Assembler<'a> {
         }
         self.pop_directory();
         self.pop_directory();
-        self.pop_directory();
     }
 
     pub fn emit_relationship_data(&mut self) {
-- 
2.43.0


From a963bda3dc0144b7b9e47be326cef7a3be02fec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:20 +0000
Subject: [PATCH 23/45] fix: a test saw the records, position and outcome that
 earlier tests left behind

---
 src/main.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index b80de46..8ea8205 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -24,6 +24,18 @@ fn append<T>(components: &mut HashMap<usize, T>, added: HashMap<usize, T>) {
     components.extend(added.into_iter().map(|(id, component)| (id + offset, component)));
 }
 
+/* Runs each test in an environment of its own. */
+fn run_tests(file: &mut FmpFile) {
+    let tests = std::mem::take(&mut file.tests);
+    for test in &tests {
+        file.tests = vec![test.clone()];
+        let mut env = testing::test::TestEnvironment::new(file);
+        env.generate_test_environment();
+        env.run_tests_with_cleanup();
+    }
+    file.tests = tests;
+}
+
 fn main() {
 
     let args = cli::CLI::parse();
@@ -61,9 +73,7 @@ fn main() {
             let json = serde_json::to_string_pretty(&file).expect("Unable to generate json file");
             write("inspect_output/test_compile", json).expect("Unable to write to file.");
             if args.no_testing == false && !file.tests.is_empty() {
-                let mut env = testing::test::TestEnvironment::new(&file);
-                env.generate_test_environment();
-                env.run_tests_with_cleanup();
+                run_tests(&mut file);
             }
             let mut assembler = Assembler::new(&file);
             assembler.assemble_fmp12(&file);
@@ -91,9 +101,7 @@ fn main() {
             file.layouts.extend(tmp.layouts);
             file.tests.extend(tmp.tests);
             if args.no_testing == false && !file.tests.is_empty() {
-                let mut env = testing::test::TestEnvironment::new(&file);
-                env.generate_test_environment();
-                env.run_tests_with_cleanup();
+                run_tests(&mut file);
             }
 
         }
-- 
2.43.0


From 0f58e09588750622d15b3dad2207f7e7290e8ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:09 +0000
Subject: [PATCH 24/45] Add observation points for the verification harness
 (cfg burn_verif)

---
 src/main.rs       |  11 ++++
 src/verif_hook.rs | 142 ++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 153 insertions(+)
 create mode 100644 src/verif_hook.rs

diff --git a/src/main.rs b/src/main.rs
index 8ea8205..59d91e8 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,4 +1,5 @@
 #![allow(unused)]
+#![allow(unexpected_cfgs)]
 use std::{collections::HashMap, fs::{write, File}, io::Read, path::Path};
 use clap::Parser;
 use compile::{assembler::Assembler, compiler::compile_burn};
@@ -17,6 +18,8 @@ mod encoding_util;
 mod fm_script_engine;
 mod testing;
 mod dbcharconv;
+#[cfg(burn_verif)]
+mod verif_hook;
 
 /* Numbers the components of a further source after the ones already there. */
 fn append<T>(components: &mut HashMap<usize, T>, added: HashMap<usize, T>) {
@@ -31,12 +34,20 @@ fn run_tests(file: &mut FmpFile) {
         file.tests = vec![test.clone()];
         let mut env = testing::test::TestEnvironment::new(file);
         env.generate_test_environment();
+        #[cfg(burn_verif)]
+        if verif_hook::run_traced(&mut env) {
+            continue;
+        }
         env.run_tests_with_cleanup();
     }
     file.tests = tests;
 }
 
 fn main() {
+    #[cfg(burn_verif)]
+    if verif_hook::drive() {
+        return;
+    }
 
     let args = cli::CLI::parse();
 
diff --git a/src/verif_hook.rs b/src/verif_hook.rs
new file mode 100644
index 0000000..4f6fe62
--- /dev/null
+++ b/src/verif_hook.rs
@@ -0,0 +1,142 @@
+/* Observation points for the verification harness, only built with --cfg burn_verif.
+ * - BURN_VERIF_TRACE=<file>: the state of the test environment before every script step.
+ * - BURN_VERIF_DRIVE=<file>: run the commands in the file instead of the command line. */
+use std::fs::{read_to_string, OpenOptions};
+use std::io::Write;
+use std::panic::{catch_unwind, AssertUnwindSafe};
+use std::path::Path;
+
+use serde_json::{json, Value};
+
+use crate::decompile::decompiler::decompile_fmp12_file;
+use crate::testing::test::{TestEnvironment, TestState};
+use crate::{dbcharconv, encoding_util};
+
+/* Runs the tests like TestEnvironment::run_tests, with an observation before every step.
+ * False when nothing is to be traced. */
+pub fn run_traced(env: &mut TestEnvironment) -> bool {
+    let path = match std::env::var("BURN_VERIF_TRACE") {
+        Ok(path) => path,
+        Err(_) => return false,
+    };
+    let mut out = OpenOptions::new().create(true).append(true).open(path).expect("unable to open trace.");
+    for test in &env.file_handle.tests {
+        println!("Running test: {}", test.test_name);
+        env.load_test(test.clone());
+        while env.test_state == TestState::Pass && !env.instruction_ptr.is_empty() {
+            writeln!(out, "{}", observation(env)).expect("unable to write trace.");
+            env.step();
+        }
+        let outcome = if env.test_state == TestState::Pass { "Success" } else { "Fail" };
+        println!("Test {} outcome: {}", test.test_name, outcome);
+    }
+    true
+}
+
+fn observation(env: &TestEnvironment) -> Value {
+    json!({
+        "test": env.current_test.as_ref().map(|t| t.test_name.clone()),
+        "script": env.instruction_ptr.last().map(|f| f.0.clone()),
+        "ip": env.instruction_ptr.last().map(|f| f.1),
+        "depth": env.instruction_ptr.len(),
+        "scopes": env.variables.len(),
+        "db": database_state(env),
+    })
+}
+
+fn database_state(env: &TestEnvironment) -> Value {
+    let db = &env.database;
+    let current = db.table_occurrences.iter()
+        .position(|o| !db.table_occurrences.is_empty() && std::ptr::eq(o, db.get_current_occurrence()));
+    json!({
+        "current": current,
+        "occurrences": db.table_occurrences.iter()
+            .map(|o| json!([o.table_ptr, o.record_ptr, o.found_set]))
+            .collect::<Vec<_>>(),
+        "tables": db.tables.iter()
+            .map(|t| t.fields.iter().map(|f| f.records.len()).collect::<Vec<_>>())
+            .collect::<Vec<_>>(),
+    })
+}
+
+fn bytes(v: &Value) -> Vec<u8> {
+    v.as_array().unwrap().iter().map(|b| b.as_u64().unwrap() as u8).collect()
+}
+
+fn num(v: &Value) -> usize {
+    v.as_u64().unwrap() as usize
+}
+
+fn text(v: &Value) -> &str {
+    v.as_str().unwrap()
+}
+
+fn database_action(env: &mut TestEnvironment, action: &Value) -> Value {
+    let db = &mut env.database;
+    match text(&action[0]) {
+        "occurrence" => { db.set_current_occurrence(num(&action[1]) as u16); Value::Null }
+        "new" => { db.create_record(); Value::Null }
+        "set" => match db.get_current_record_by_table_field_mut(text(&action[1]), text(&action[2])) {
+            Ok(field) => { *field = text(&action[3]).to_string(); json!(true) }
+            Err(_) => json!(false),
+        },
+        "goto" => { db.goto_record(num(&action[1])); Value::Null }
+        "first" => { db.goto_first_record(); Value::Null }
+        "last" => { db.goto_last_record(); Value::Null }
+        "next" => { db.goto_next_record(); Value::Null }
+        "previous" => { db.goto_previous_record(); Value::Null }
+        "found" => {
+            let records = action[1].as_array().unwrap().iter().map(num).collect();
+            db.update_found_set(&records);
+            Value::Null
+        }
+        "all" => { db.reset_found_set(); Value::Null }
+        "clear" => { db.clear_records(); Value::Null }
+        "related" => match db.get_related_record_field(text(&action[1]), text(&action[2])) {
+            Ok(value) => json!({ "ok": value }),
+            Err(_) => json!({ "err": true }),
+        },
+        "state" => database_state(env),
+        other => panic!("unknown action {}", other),
+    }
+}
+
+fn command(cmd: &Value) -> Value {
+    match text(&cmd["op"]) {
+        "database" => {
+            let file = decompile_fmp12_file(Path::new(text(&cmd["fmp12"])));
+            let mut env = TestEnvironment::new(&file);
+            env.generate_test_environment();
+            cmd["actions"].as_array().unwrap().iter()
+                .map(|a| database_action(&mut env, a))
+                .collect()
+        }
+        "get_path_int" => json!(encoding_util::get_path_int(&bytes(&cmd["arg"]))),
+        "put_path_int" => json!(encoding_util::put_path_int(num(&cmd["arg"]) as u32)),
+        "get_int" => json!(encoding_util::get_int(&bytes(&cmd["arg"]))),
+        "put_int" => json!(encoding_util::put_int(num(&cmd["arg"]))),
+        "encrypt" => json!(encoding_util::fm_string_encrypt(text(&cmd["arg"]).to_string())),
+        "decrypt" => json!(encoding_util::fm_string_decrypt(&bytes(&cmd["arg"]))),
+        "encode_text" => json!(dbcharconv::encode_text(text(&cmd["arg"]))),
+        "decode_bytes" => json!(dbcharconv::decode_bytes(&bytes(&cmd["arg"]))),
+        other => panic!("unknown command {}", other),
+    }
+}
+
+/* Runs the commands in BURN_VERIF_DRIVE, false when there are none to run. */
+pub fn drive() -> bool {
+    let path = match std::env::var("BURN_VERIF_DRIVE") {
+        Ok(path) => path,
+        Err(_) => return false,
+    };
+    let input = read_to_string(path).expect("unable to read commands.");
+    let commands: Vec<Value> = serde_json::from_str(&input).expect("unable to parse commands.");
+    for cmd in &commands {
+        let result = catch_unwind(AssertUnwindSafe(|| command(cmd)));
+        match result {
+            Ok(value) => println!("@@{}", json!({ "value": value })),
+            Err(_) => println!("@@{}", json!({ "panic": true })),
+        }
+    }
+    true
+}
-- 
2.43.0


From 6b3e5029f77520112a97eaee12c6f5f80aef1b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:38 +0000
Subject: [PATCH 25/45] Let parts of the observation points be left out

---
 src/verif_hook.rs | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/verif_hook.rs b/src/verif_hook.rs
index 4f6fe62..9ed79d8 100644
--- a/src/verif_hook.rs
+++ b/src/verif_hook.rs
@@ -1,6 +1,9 @@
 /* Observation points for the verification harness, only built with --cfg burn_verif.
  * - BURN_VERIF_TRACE=<file>: the state of the test environment before every script step.
- * - BURN_VERIF_DRIVE=<file>: run the commands in the file instead of the command line. */
+ * - BURN_VERIF_DRIVE=<file>: run the commands in the file instead of the command line.
+ * burn_verif_no_trace, burn_verif_no_state, burn_verif_no_database and burn_verif_no_codec leave parts out,
+ * for a tree in which what they observe was renamed. */
+#![allow(unused_imports, dead_code)]
 use std::fs::{read_to_string, OpenOptions};
 use std::io::Write;
 use std::panic::{catch_unwind, AssertUnwindSafe};
@@ -9,11 +12,19 @@ use std::path::Path;
 use serde_json::{json, Value};
 
 use crate::decompile::decompiler::decompile_fmp12_file;
-use crate::testing::test::{TestEnvironment, TestState};
+use crate::testing::test::TestEnvironment;
+#[cfg(not(burn_verif_no_trace))]
+use crate::testing::test::TestState;
 use crate::{dbcharconv, encoding_util};
 
 /* Runs the tests like TestEnvironment::run_tests, with an observation before every step.
  * False when nothing is to be traced. */
+#[cfg(burn_verif_no_trace)]
+pub fn run_traced(_: &mut TestEnvironment) -> bool {
+    false
+}
+
+#[cfg(not(burn_verif_no_trace))]
 pub fn run_traced(env: &mut TestEnvironment) -> bool {
     let path = match std::env::var("BURN_VERIF_TRACE") {
         Ok(path) => path,
@@ -33,6 +44,7 @@ pub fn run_traced(env: &mut TestEnvironment) -> bool {
     true
 }
 
+#[cfg(not(burn_verif_no_trace))]
 fn observation(env: &TestEnvironment) -> Value {
     json!({
         "test": env.current_test.as_ref().map(|t| t.test_name.clone()),
@@ -44,6 +56,12 @@ fn observation(env: &TestEnvironment) -> Value {
     })
 }
 
+#[cfg(burn_verif_no_state)]
+fn database_state(_: &TestEnvironment) -> Value {
+    Value::Null
+}
+
+#[cfg(not(burn_verif_no_state))]
 fn database_state(env: &TestEnvironment) -> Value {
     let db = &env.database;
     let current = db.table_occurrences.iter()
@@ -71,6 +89,7 @@ fn text(v: &Value) -> &str {
     v.as_str().unwrap()
 }
 
+#[cfg(not(burn_verif_no_database))]
 fn database_action(env: &mut TestEnvironment, action: &Value) -> Value {
     let db = &mut env.database;
     match text(&action[0]) {
@@ -103,6 +122,7 @@ fn database_action(env: &mut TestEnvironment, action: &Value) -> Value {
 
 fn command(cmd: &Value) -> Value {
     match text(&cmd["op"]) {
+        #[cfg(not(burn_verif_no_database))]
         "database" => {
             let file = decompile_fmp12_file(Path::new(text(&cmd["fmp12"])));
             let mut env = TestEnvironment::new(&file);
@@ -111,13 +131,21 @@ fn command(cmd: &Value) -> Value {
                 .map(|a| database_action(&mut env, a))
                 .collect()
         }
+        #[cfg(not(burn_verif_no_codec))]
         "get_path_int" => json!(encoding_util::get_path_int(&bytes(&cmd["arg"]))),
+        #[cfg(not(burn_verif_no_codec))]
         "put_path_int" => json!(encoding_util::put_path_int(num(&cmd["arg"]) as u32)),
+        #[cfg(not(burn_verif_no_codec))]
         "get_int" => json!(encoding_util::get_int(&bytes(&cmd["arg"]))),
+        #[cfg(not(burn_verif_no_codec))]
         "put_int" => json!(encoding_util::put_int(num(&cmd["arg"]))),
+        #[cfg(not(burn_verif_no_codec))]
         "encrypt" => json!(encoding_util::fm_string_encrypt(text(&cmd["arg"]).to_string())),
+        #[cfg(not(burn_verif_no_codec))]
         "decrypt" => json!(encoding_util::fm_string_decrypt(&bytes(&cmd["arg"]))),
+        #[cfg(not(burn_verif_no_codec))]
         "encode_text" => json!(dbcharconv::encode_text(text(&cmd["arg"]))),
+        #[cfg(not(burn_verif_no_codec))]
         "decode_bytes" => json!(dbcharconv::decode_bytes(&bytes(&cmd["arg"]))),
         other => panic!("unknown command {}", other),
     }
-- 
2.43.0


From 4bd5dfae3ffb080202e38d7025b9446189036e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:59 +0000
Subject: [PATCH 26/45] fix: a script that is not closed was compiled up to
 where it broke off

---
 src/burn_script/parser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/burn_script/parser.rs b/src/burn_script/parser.rs
index 5e3e9ac..a0cb622 100644
--- a/src/burn_script/parser.rs
+++ b/src/burn_script/parser.rs
@@ -56,6 +56,7 @@ impl Parser {
                     }
 
                     /* Parse the instructions inside the script with their options */
+                    let mut closed = false;
                     while let Some(t) = parser_iter.next() {
                         match t.ttype {
                             TokenType::Identifier => {
@@ -88,6 +89,7 @@ impl Parser {
                             TokenType::CloseBracket => {
                                 let top = punc_stack.last();
                                 if top.is_none() {
+                                    closed = true;
                                     break;
                                 }
                                 let n = parser_iter.peek();
@@ -199,6 +201,9 @@ impl Parser {
                             }
                         }
                     }
+                    if !closed {
+                        return Err("Script is not closed.");
+                    }
                     scripts.push(tmp);
                 },
                 _ => {
-- 
2.43.0


From f5a453d2b1792c233663bed161419d8d92564fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:01 +0000
Subject: [PATCH 27/45] fix: script steps behind a surplus closing brace were
 left out

---
 src/burn_script/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/burn_script/parser.rs b/src/burn_script/parser.rs
index a0cb622..0946a23 100644
--- a/src/burn_script/parser.rs
+++ b/src/burn_script/parser.rs
@@ -207,7 +207,7 @@ impl Parser {
                     scripts.push(tmp);
                 },
                 _ => {
-                    eprintln!("Unrecognized token");
+                    return Err("Unrecognized token outside of a script.");
                 }
             }
         }
-- 
2.43.0


From 30ac7cbe3e6dffbdaf9244e6af18b4c60d24bd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:03 +0000
Subject: [PATCH 28/45] fix: a declaration without its end was compiled up to
 where the file broke off

---
 src/compile/parser.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/compile/parser.rs b/src/compile/parser.rs
index c4a4c35..e6a0c01 100644
--- a/src/compile/parser.rs
+++ b/src/compile/parser.rs
@@ -26,7 +26,8 @@ impl Parser {
                     } else {
                         table.table_name = parser_iter.next().unwrap().text.clone();
                     }
-                    while let Some(mut n) = parser_iter.next() {
+                    loop {
+                        let mut n = parser_iter.next().ok_or("Unexpected end of file, expected \"end\".")?;
                         match n.ttype {
                             TokenType::End => 
                             {
@@ -52,7 +53,8 @@ impl Parser {
                     if parser_iter.peek().unwrap().ttype != TokenType::Colon {
                         return Err("Expected colon after \"relationship\" keyword.".to_string())
                     } 
-                    while let Some(mut n) = parser_iter.next() {
+                    loop {
+                        let mut n = parser_iter.next().ok_or("Unexpected end of file, expected \"end\".")?;
                         match n.ttype {
                             TokenType::Identifier => {
                                 if parser_iter.peek().unwrap().ttype == TokenType::Colon {
@@ -90,7 +92,8 @@ impl Parser {
                     } else {
                         value_list.list_name = parser_iter.next().unwrap().text.clone();
                     }
-                    while let Some(mut n) = parser_iter.next() {
+                    loop {
+                        let mut n = parser_iter.next().ok_or("Unexpected end of file, expected \"end\".")?;
                         match n.ttype {
                             TokenType::End => 
                             {
@@ -141,7 +144,8 @@ impl Parser {
                     } else {
                         table_occurence.table_occurence_name = parser_iter.next().unwrap().text.clone();
                     }
-                    while let Some(mut t) = parser_iter.next() {
+                    loop {
+                        let mut t = parser_iter.next().ok_or("Unexpected end of file, expected \"end\".")?;
                         // println!("{:?}", t.ttype);
                         match t.ttype {
                             TokenType::Table => {
@@ -184,7 +188,8 @@ impl Parser {
                         test.test_name = parser_iter.next().unwrap().text.clone();
                     }
 
-                    while let Some(mut n) = parser_iter.next() {
+                    loop {
+                        let mut n = parser_iter.next().ok_or("Unexpected end of file, expected \"end\".")?;
                         match n.ttype {
                             TokenType::Script => {
                                 if parser_iter.next().unwrap().ttype != TokenType::Colon {
-- 
2.43.0


From 04c729176674511c4843199318d739d984429681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:33 +0000
Subject: [PATCH 29/45] fix: a script that is not closed took in the one behind
 it

---
 src/burn_script/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/burn_script/parser.rs b/src/burn_script/parser.rs
index 0946a23..c676a27 100644
--- a/src/burn_script/parser.rs
+++ b/src/burn_script/parser.rs
@@ -125,6 +125,9 @@ impl Parser {
                                 tmp.instructions.insert(tmp.instructions.len(), step);
                             },
                             TokenType::OpenBracket => {},
+                            TokenType::Define => {
+                                return Err("Script is not closed.");
+                            },
                             TokenType::Loop => {
                                 let check = parser_iter.next();
                                 if check.unwrap().ttype != TokenType::OpenBracket {
-- 
2.43.0


From 53a3bb41f007bcb18649167c2d5a2ce6340bce08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:37 +0000
Subject: [PATCH 30/45] fix: a perform-script step whose script is gone aborted
 the decompiler

---
 src/decompile/decompiler.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index aa15e2f..8d8efd9 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -235,7 +235,9 @@ fn assemble_script(fmp_file: &mut FmpFile, script: usize, segments: BTreeMap<usi
             let mut switch: Vec<String> = vec![];
             match op {
                 Some(Instruction::PerformScript) => {
-                    switch.push(format!("\"{}\"", fmp_file.scripts.get(&(instr[8] as usize)).unwrap().script_name));
+                    if let Some(target) = fmp_file.scripts.get(&(instr[8] as usize)) {
+                        switch.push(format!("\"{}\"", target.script_name));
+                    }
                 },
                 _ => {}
             }
@@ -646,9 +648,9 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                                     let mut switch: Vec<String> = vec![];
                                     match oc {
                                         Some(Instruction::PerformScript) => {
-                                            switch.push(
-                                                format!("\"{}\"", fmp_file.scripts.get(&(ins[8] as usize)).unwrap().script_name)
-                                            );
+                                            if let Some(target) = fmp_file.scripts.get(&(ins[8] as usize)) {
+                                                switch.push(format!("\"{}\"", target.script_name));
+                                            }
                                         },
                                         _ => {}
                                     }
@@ -676,9 +678,9 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                                         let mut switch: Vec<String> = vec![];
                                         match oc {
                                             Some(Instruction::PerformScript) => {
-                                                switch.push(
-                                                    format!("\"{}\"", fmp_file.scripts.get(&(ins[8] as usize)).unwrap().script_name)
-                                                );
+                                                if let Some(target) = fmp_file.scripts.get(&(ins[8] as usize)) {
+                                                    switch.push(format!("\"{}\"", target.script_name));
+                                                }
                                             },
                                             _ => {}
                                         }
-- 
2.43.0


From c46e06c44084f0cfe1f52c47edd35d9b4ac8d3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:30 +0000
Subject: [PATCH 31/45] fix: a script without a name was compiled, one whose
 name reads as a number lost it

---
 src/burn_script/parser.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/burn_script/parser.rs b/src/burn_script/parser.rs
index c676a27..ce5f932 100644
--- a/src/burn_script/parser.rs
+++ b/src/burn_script/parser.rs
@@ -29,8 +29,13 @@ impl Parser {
                 TokenType::Define => {
                     let mut tmp = FMComponentScript::new();
                     let peeked = parser_iter.next().unwrap();
-                    if peeked.ttype == TokenType::Identifier {
-                        tmp.script_name = peeked.value.clone();
+                    match peeked.ttype {
+                        TokenType::Identifier | TokenType::NumericLiteral => {
+                            tmp.script_name = peeked.value.clone();
+                        },
+                        _ => {
+                            return Err("Script without a name.");
+                        }
                     }
 
                     /* Parse arguments to script */
-- 
2.43.0


From 6fe8d8d2ee5897e1dc4b296ed66158d632fcd3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:00 +0000
Subject: [PATCH 32/45] fix: elif and else were accepted where no branch ends
 in front of them

---
 src/burn_script/parser.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/burn_script/parser.rs b/src/burn_script/parser.rs
index ce5f932..68e1db0 100644
--- a/src/burn_script/parser.rs
+++ b/src/burn_script/parser.rs
@@ -62,6 +62,7 @@ impl Parser {
 
                     /* Parse the instructions inside the script with their options */
                     let mut closed = false;
+                    let mut branch_closed = false;
                     while let Some(t) = parser_iter.next() {
                         match t.ttype {
                             TokenType::Identifier => {
@@ -100,10 +101,9 @@ impl Parser {
                                 let n = parser_iter.peek();
                                 if n.is_some() {
                                     match n.unwrap().ttype {
-                                        TokenType::Else => {
-                                            continue;
-                                        }
-                                        TokenType::Elif => {
+                                        /* Only the block of an if has further branches, an else is the last. */
+                                        TokenType::Else | TokenType::Elif if *top.unwrap() == Instruction::If => {
+                                            branch_closed = true;
                                             continue;
                                         }
                                         _ => {}
@@ -111,7 +111,7 @@ impl Parser {
                                 }
                                 let op: Instruction;
                                 match top.unwrap() {
-                                    Instruction::If => {
+                                    Instruction::If | Instruction::Else => {
                                         op = Instruction::EndIf;
                                     },
                                     Instruction::Loop => {
@@ -148,6 +148,9 @@ impl Parser {
                                 punc_stack.push(Instruction::Loop);
                             },
                             TokenType::Elif => {
+                                if !std::mem::take(&mut branch_closed) {
+                                    return Err("\"elif\" does not follow a branch.");
+                                }
                                 let mut step = ScriptStep {
                                     opcode: Instruction::ElseIf,
                                     index: 0,
@@ -197,6 +200,10 @@ impl Parser {
                                     eprintln!("Expected '{{' after loop.");
                                     break;
                                 }
+                                if !std::mem::take(&mut branch_closed) {
+                                    return Err("\"else\" does not follow a branch.");
+                                }
+                                *punc_stack.last_mut().unwrap() = Instruction::Else;
                                 let step = ScriptStep {
                                     opcode: Instruction::Else,
                                     index: 0,
-- 
2.43.0


From 1ac615ca7cedf9edba907d090600d0f28fdb314a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:04 +0000
Subject: [PATCH 33/45] fix: a branch without a condition was compiled and
 aborted the test that came to it

---
 src/burn_script/parser.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/burn_script/parser.rs b/src/burn_script/parser.rs
index 68e1db0..550fdcf 100644
--- a/src/burn_script/parser.rs
+++ b/src/burn_script/parser.rs
@@ -166,6 +166,9 @@ impl Parser {
                                             if t.ttype != TokenType::OpenBracket {
                                                 panic!("missing open bracket on elif");
                                             }
+                                            if step.switches.len() != 1 || step.switches[0].is_empty() {
+                                                return Err("Expected one condition of a branch.");
+                                            }
                                             tmp.instructions.insert(tmp.instructions.len(), step);
                                             break;
                                         }
@@ -187,6 +190,9 @@ impl Parser {
                                             if t.ttype != TokenType::OpenBracket {
                                                 panic!("Missing open bracket on if");
                                             }
+                                            if step.switches.len() != 1 || step.switches[0].is_empty() {
+                                                return Err("Expected one condition of a branch.");
+                                            }
                                             tmp.instructions.insert(tmp.instructions.len(), step);
                                             break;
                                         }
-- 
2.43.0


From 39461562cee1ccb7c7275d2cd1d2aef3f8684b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:56 +0000
Subject: [PATCH 34/45] fix: relationships and table occurrences that name no
 table were compiled

---
 src/compile/parser.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/compile/parser.rs b/src/compile/parser.rs
index e6a0c01..12a9f38 100644
--- a/src/compile/parser.rs
+++ b/src/compile/parser.rs
@@ -61,6 +61,9 @@ impl Parser {
                                     relationship.table1_name = n.text.clone();
                                     parser_iter.next();
                                     let n = parser_iter.next().unwrap();
+                                    if n.ttype != TokenType::Identifier {
+                                        return Err("Expected Identifier for table reference.".to_string());
+                                    }
                                     relationship.table2_name = n.text.clone();
                                 } else {
 
@@ -83,6 +86,9 @@ impl Parser {
                             }
                         }
                     }
+                    if relationship.table1_name.is_empty() {
+                        return Err("Expected the tables of a relationship.".to_string());
+                    }
                     ret.relationships.insert(ret.relationships.len() + 1, relationship);
                 },
                 TokenType::ValueList => {
@@ -178,6 +184,9 @@ impl Parser {
                             }
                         }
                     }
+                    if table_occurence.table_actual_name.is_empty() {
+                        return Err("Expected the table of a table occurence.".to_string());
+                    }
                     ret.table_occurrences.insert(ret.table_occurrences.len(), table_occurence);
                 },
                 TokenType::Test => {
-- 
2.43.0


From 19b27acca4ef38a2c885b1bd8280b60b82c12392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:53 +0000
Subject: [PATCH 35/45] fix: data of script step options was decoded as further
 steps

---
 src/decompile/decompiler.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index 8d8efd9..57f2fb1 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -639,7 +639,7 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                         continue;
                     }
 
-                    if chunk.segment_idx == Some(4) {
+                    if chunk.segment_idx == Some(4) && path.len() == 3 {
                             let instrs = chunk.data.unwrap().chunks(28);
                             for (i, ins) in instrs.enumerate() {
                                 if ins.len() >= 21 {
@@ -669,7 +669,7 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                     } else {
                         let s = fm_string_decrypt(chunk.data.unwrap_or(&[0]));
                         match &chunk.ref_simple {
-                            Some(4) => {
+                            Some(4) if path.len() == 3 => {
                                 let instrs = chunk.data.unwrap().chunks(28);
                                 for ins in instrs {
                                     if ins.len() >= 21 {
-- 
2.43.0


From a4dff748e72fd797e63f5a9d03a93cd133095306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:53 +0000
Subject: [PATCH 36/45] fix: calculations of more than 255 bytes were left out
 of their steps

---
 src/decompile/decompiler.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index 57f2fb1..2fe6855 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -219,6 +219,11 @@ fn print_chunk(chunk: &chunk::Chunk, path: &Vec<String>) {
     }
 }
 
+/* The key of a value, a long one is stored as a segment with the key as its index. */
+fn value_key(chunk: &chunk::Chunk) -> u16 {
+    chunk.ref_simple.unwrap_or(chunk.segment_idx.unwrap_or(0) as u16)
+}
+
 /* Adds the steps of a script whose code is spread over segments. */
 fn assemble_script(fmp_file: &mut FmpFile, script: usize, segments: BTreeMap<usize, Vec<u8>>) {
     let mut instructions = Vec::<u8>::new();
@@ -544,7 +549,7 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                 },
                 ["17", "5", script, "5", step, "128", "5"] => {
                     let s = fm_string_decrypt(chunk.data.unwrap_or(&[0]));
-                    match chunk.ref_simple.unwrap_or(0).to_string().as_str() {
+                    match value_key(&chunk).to_string().as_str() {
                         "5" => {
                             let instrs = &mut fmp_file.scripts.get_mut(&script.parse().unwrap()).unwrap().instructions;
                             let instruction_idx = instrs
@@ -609,7 +614,7 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                 /* Examining script data */
                 ["17", "5", script, "5", step, "129", "5"] => {
                     let s = fm_string_decrypt(chunk.data.unwrap_or(&[0]));
-                    match chunk.ref_simple.unwrap_or(0).to_string().as_str() {
+                    match value_key(&chunk).to_string().as_str() {
                         "5" => {
                             let calc = decompile_calculation(chunk.data.unwrap());
                             let instr = &mut fmp_file.scripts.get_mut(&script.parse().unwrap()).unwrap()
-- 
2.43.0


From 989ac20bfa541e5771906e8027e1f56341a432a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:13 +0000
Subject: [PATCH 37/45] fix: calculations stored in segments were left out of
 their steps

---
 src/decompile/decompiler.rs | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index 2fe6855..77d3d67 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -256,6 +256,21 @@ fn assemble_script(fmp_file: &mut FmpFile, script: usize, segments: BTreeMap<usi
     }
 }
 
+/* Adds a calculation that is spread over segments to its step. */
+fn attach_calculation(fmp_file: &mut FmpFile, script: usize, step: usize, option: usize, segments: BTreeMap<usize, Vec<u8>>) {
+    let data = segments.into_values().flatten().collect::<Vec<u8>>();
+    let handle = fmp_file.scripts
+        .get_mut(&script)
+        .and_then(|s| s.instructions.iter_mut().find(|i| i.index == step));
+    if let Some(instr) = handle {
+        match (option, &instr.opcode) {
+            (129, _) | (128, Instruction::ExitScript) => instr.switches.push(decompile_calculation(&data)),
+            (128, Instruction::SetVariable) => instr.switches.push(fm_string_decrypt(&data)),
+            _ => {}
+        }
+    }
+}
+
 pub fn decompile_fmp12_file_with_header(path: &Path) -> FmpFile {
     let mut file = File::open(path).expect("unable to open file.");
     let mut buffer = Vec::<u8>::new();
@@ -293,6 +308,7 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
     sectors[0] = first;
     let mut idx = 2;
     let mut script_segments: HashMap<usize, BTreeMap<usize, Vec<u8>>> = HashMap::new();
+    let mut calculation_segments: BTreeMap<(usize, usize, usize), BTreeMap<usize, Vec<u8>>> = BTreeMap::new();
 
     let mut occurrence_id = 0;
 
@@ -631,6 +647,13 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                     //     println!("{:?}", i);
                     // }
                 },
+                /* A calculation that does not fit in one chunk. */
+                ["17", "5", script, "5", step, option, "5", "5"] if chunk.ctype == ChunkType::DataSegment => {
+                    calculation_segments
+                        .entry((script.parse().unwrap(), step.parse().unwrap(), option.parse().unwrap()))
+                        .or_default()
+                        .insert(chunk.segment_idx.unwrap() as usize, chunk.data.unwrap().to_vec());
+                },
                 ["17", "5", x, ..] => {
                     /* The data of the steps follows, so the steps have to be there. */
                     if chunk.ctype == ChunkType::PathPush && path.len() == 4 && path[3] == "5" {
@@ -804,6 +827,9 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
     for (script, segments) in script_segments {
         assemble_script(&mut fmp_file, script, segments);
     }
+    for ((script, step, option), segments) in calculation_segments {
+        attach_calculation(&mut fmp_file, script, step, option, segments);
+    }
     // for script in &fmp_file.scripts {
     //     println!("{:?}", script.1.script_name);
     //     for step in &script.1.instructions {
-- 
2.43.0


From aa0bb61aed13a980f4b8bb26a5e311418d1ff6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:32 +0000
Subject: [PATCH 38/45] fix: perform-script steps named the wrong script for
 ids of two bytes

---
 src/decompile/decompiler.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index 77d3d67..cdc9cb3 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -224,6 +224,11 @@ fn value_key(chunk: &chunk::Chunk) -> u16 {
     chunk.ref_simple.unwrap_or(chunk.segment_idx.unwrap_or(0) as u16)
 }
 
+/* The script that a perform-script step runs, its id is stored in the same form as the index of the step. */
+fn target_script(step: &[u8]) -> usize {
+    get_path_int(step.get(8..step[6] as usize + 7).unwrap_or(&[]))
+}
+
 /* Adds the steps of a script whose code is spread over segments. */
 fn assemble_script(fmp_file: &mut FmpFile, script: usize, segments: BTreeMap<usize, Vec<u8>>) {
     let mut instructions = Vec::<u8>::new();
@@ -240,7 +245,7 @@ fn assemble_script(fmp_file: &mut FmpFile, script: usize, segments: BTreeMap<usi
             let mut switch: Vec<String> = vec![];
             match op {
                 Some(Instruction::PerformScript) => {
-                    if let Some(target) = fmp_file.scripts.get(&(instr[8] as usize)) {
+                    if let Some(target) = fmp_file.scripts.get(&target_script(instr)) {
                         switch.push(format!("\"{}\"", target.script_name));
                     }
                 },
@@ -676,7 +681,7 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                                     let mut switch: Vec<String> = vec![];
                                     match oc {
                                         Some(Instruction::PerformScript) => {
-                                            if let Some(target) = fmp_file.scripts.get(&(ins[8] as usize)) {
+                                            if let Some(target) = fmp_file.scripts.get(&target_script(ins)) {
                                                 switch.push(format!("\"{}\"", target.script_name));
                                             }
                                         },
@@ -706,7 +711,7 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                                         let mut switch: Vec<String> = vec![];
                                         match oc {
                                             Some(Instruction::PerformScript) => {
-                                                if let Some(target) = fmp_file.scripts.get(&(ins[8] as usize)) {
+                                                if let Some(target) = fmp_file.scripts.get(&target_script(ins)) {
                                                     switch.push(format!("\"{}\"", target.script_name));
                                                 }
                                             },
-- 
2.43.0


From e238a09030c6ee4faaa53519f4e325e77d7df056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:35 +0000
Subject: [PATCH 39/45] fix: table occurrences of tables above 255 were given
 the wrong table

---
 src/decompile/decompiler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index cdc9cb3..04aebe2 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -352,7 +352,7 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                             fmp_file.table_occurrences
                                 .entry(occurrence_id)
                                 .or_insert_with(component::FMComponentTableOccurence::new)
-                                .table_actual = chunk.data.unwrap()[6] as u16;
+                                .table_actual = (get_path_int(&chunk.data.unwrap()[5..=6]) - 128) as u16;
 
                             let source = chunk.data.unwrap()[2];
                             println!("{:?}", source);
-- 
2.43.0


From b007f568892cad8a342b3d961121383da9b0ce32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:00 +0000
Subject: [PATCH 40/45] fix: layouts of table occurrences above 127 were given
 the wrong occurrence

---
 src/decompile/decompiler.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index 04aebe2..a4301fe 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -434,11 +434,12 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                     } else {
                         match chunk.ref_simple {
                             Some(2) => {
-                                /* Byte 2 refers to table occurrence */
+                                /* Bytes 2 and 3 refer to table occurrence, 7 bits each */
                                 let layout_handle = fmp_file.layouts.get_mut(&x.parse().unwrap());
                                 if layout_handle.is_none() {
                                 } else {
-                                    let occurrence = chunk.data.unwrap()[1] as usize - 128;
+                                    let data = chunk.data.unwrap();
+                                    let occurrence = (data[1] as usize - 128) + ((data[2] as usize).saturating_sub(129) << 7);
                                     fmp_file.layouts.get_mut(&x.parse().unwrap())
                                         .unwrap().table_occurrence = occurrence;
                                 }
-- 
2.43.0


From dd34b68503873964db3212523de1407923a7d8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:42 +0000
Subject: [PATCH 41/45] fix: names and descriptions of more than 255 bytes were
 left out

---
 src/decompile/decompiler.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index a4301fe..eb48c9a 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -342,12 +342,12 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
             // print_chunk(&chunk, &path);
             match &path.iter().map(|s| s.as_str()).collect::<Vec<_>>().as_slice() {
                 /* Examining table occurences */
-                ["3", "17", "5", "0", ..] => {
+                ["3", "17", "5", "0"] => {
                     let s = fm_string_decrypt(chunk.data.unwrap_or(&[0]));
                     if chunk.ctype == ChunkType::PathPush && path.len() == 4 {
                         occurrence_id = get_int(&chunk.data.unwrap()[1..3]);
                     }
-                    match chunk.ref_simple {
+                    match Some(value_key(&chunk)) {
                         Some(2) => {
                             fmp_file.table_occurrences
                                 .entry(occurrence_id)
@@ -425,14 +425,14 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                     let s = fm_string_decrypt(chunk.data.unwrap_or(&[0]));
                 },
                 /* Examing layouts */
-                ["4", "1", "7", x, ..] => {
+                ["4", "1", "7", x] => {
                     if chunk.ctype == ChunkType::PathPush {
                         fmp_file.layouts
                             .entry(x.parse::<usize>().unwrap())
                             .or_insert_with(component::FMComponentLayout::new);
                         continue;
                     } else {
-                        match chunk.ref_simple {
+                        match Some(value_key(&chunk)) {
                             Some(2) => {
                                 /* Bytes 2 and 3 refer to table occurrence, 7 bits each */
                                 let layout_handle = fmp_file.layouts.get_mut(&x.parse().unwrap());
@@ -492,7 +492,7 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                             //     _   => { println!("instr: {:x}. ref: {:?}, data: {:?}", chunk.code, chunk.ref_simple, chunk.data.unwrap()); }
                             // };
                             let tidx = x.parse::<usize>().unwrap() - 128;
-                            match chunk.ref_simple.unwrap_or(0) {
+                            match value_key(&chunk) {
                                 metadata_constants::FIELD_TYPE => {
                                     fmp_file.tables.get_mut(&tidx)
                                         .unwrap().fields
@@ -547,7 +547,7 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                             .entry(x.parse::<usize>().unwrap() - 128)
                             .or_insert_with(component::FMComponentTable::new);
                     } else {
-                        match chunk.ref_simple.unwrap_or(0) {
+                        match value_key(&chunk) {
                             metadata_constants::COMPONENT_NAME => { 
                                 fmp_file.tables.get_mut(&(x.parse::<usize>().unwrap() - 128)).unwrap().table_name = s },
                             _ => {}
@@ -740,14 +740,14 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
 
                 },
                 /* Examining script metadata */
-                ["17", "1", x, y, ..] => {
+                ["17", "1", x, y] => {
                     if chunk.ctype == ChunkType::PathPush 
                         || chunk.ctype == ChunkType::PathPop {
                         continue;
                     }
 
-                    if chunk.ctype == ChunkType::RefSimple {
-                        match chunk.ref_simple {
+                    if chunk.ctype == ChunkType::RefSimple || chunk.ctype == ChunkType::DataSegment {
+                        match Some(value_key(&chunk)) {
                             Some(16) => {
                                 let handle = fmp_file.scripts.get_mut(&y.parse().unwrap());
                                 if handle.is_none() {
-- 
2.43.0


From 38453668f8e5433ddaf87c963da9cff822bad917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:45 +0000
Subject: [PATCH 42/45] fix: field descriptions stored in segments were left
 out

---
 src/decompile/decompiler.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index eb48c9a..137e469 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -313,6 +313,7 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
     sectors[0] = first;
     let mut idx = 2;
     let mut script_segments: HashMap<usize, BTreeMap<usize, Vec<u8>>> = HashMap::new();
+    let mut description_segments: BTreeMap<(usize, u16), BTreeMap<usize, Vec<u8>>> = BTreeMap::new();
     let mut calculation_segments: BTreeMap<(usize, usize, usize), BTreeMap<usize, Vec<u8>>> = BTreeMap::new();
 
     let mut occurrence_id = 0;
@@ -534,6 +535,13 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                     }
 
                 },
+                /* A description that does not fit in one chunk. */
+                [x, "3", "5", y, "3"] if chunk.ctype == ChunkType::DataSegment => {
+                    description_segments
+                        .entry((x.parse().unwrap(), y.parse().unwrap()))
+                        .or_default()
+                        .insert(chunk.segment_idx.unwrap() as usize, chunk.data.unwrap().to_vec());
+                },
                 ["3", "16", "1", "1"] => {
                     if chunk.ref_data.is_some() {
                         let s = chunk.ref_data;
@@ -833,6 +841,14 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
     for (script, segments) in script_segments {
         assemble_script(&mut fmp_file, script, segments);
     }
+    for ((table, field), segments) in description_segments {
+        let handle = table.checked_sub(128)
+            .and_then(|t| fmp_file.tables.get_mut(&t))
+            .and_then(|t| t.fields.get_mut(&field));
+        if let Some(field) = handle {
+            field.field_description = fm_string_decrypt(&segments.into_values().flatten().collect::<Vec<u8>>());
+        }
+    }
     for ((script, step, option), segments) in calculation_segments {
         attach_calculation(&mut fmp_file, script, step, option, segments);
     }
-- 
2.43.0


From 767f93ebcd9846ef4d37efc77a2a013cd0ae31b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:20 +0000
Subject: [PATCH 43/45] fix: steps of an unknown kind that have options aborted
 the decompiling

---
 src/decompile/decompiler.rs | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index 137e469..61bf6c9 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -240,7 +240,7 @@ fn assemble_script(fmp_file: &mut FmpFile, script: usize, segments: BTreeMap<usi
         if instr.len() < 28 {
             continue;
         }
-        let op = &INSTRUCTIONMAP[instr[21] as usize];
+        let op = INSTRUCTIONMAP.get(instr[21] as usize).unwrap_or(&None);
         if op.is_some() {
             let mut switch: Vec<String> = vec![];
             match op {
@@ -582,11 +582,13 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                     match value_key(&chunk).to_string().as_str() {
                         "5" => {
                             let instrs = &mut fmp_file.scripts.get_mut(&script.parse().unwrap()).unwrap().instructions;
-                            let instruction_idx = instrs
+                            /* There is no instruction for a step of an unknown kind. */
+                            let Some(instruction_idx) = instrs
                                 .iter()
-                                .enumerate()
-                                .filter(|x| x.1.index == step.parse::<usize>().unwrap())
-                                .collect::<Vec<_>>()[0].0;
+                                .position(|x| x.index == step.parse::<usize>().unwrap())
+                            else {
+                                continue;
+                            };
 
                             // println!("Searching for {step}. instructions for script {script} == {}", instrs.len());
 
@@ -622,11 +624,13 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                             // let mut step = &mut fmp_file.scripts.get_mut(&x.parse().unwrap()).unwrap()
                             //     .instructions.get_mut(&y.parse().unwrap());
 
-                            let instr = &mut fmp_file.scripts
+                            let Some(instr) = fmp_file.scripts
                                 .get_mut(&script.parse().unwrap()).unwrap()
                                 .instructions.iter_mut()
-                                .filter(|x| x.index == step.parse::<usize>().unwrap())
-                                .collect::<Vec<_>>()[0];
+                                .find(|x| x.index == step.parse::<usize>().unwrap())
+                            else {
+                                continue;
+                            };
 
                             // println!("Searching for {step}. instructions for script {script}");
 
@@ -647,10 +651,11 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                     match value_key(&chunk).to_string().as_str() {
                         "5" => {
                             let calc = decompile_calculation(chunk.data.unwrap());
-                            let instr = &mut fmp_file.scripts.get_mut(&script.parse().unwrap()).unwrap()
-                                .instructions.iter_mut().filter(|x| x.index == step.parse::<usize>().unwrap())
-                                .collect::<Vec<_>>()[0];
+                            let instr = fmp_file.scripts.get_mut(&script.parse().unwrap()).unwrap()
+                                .instructions.iter_mut().find(|x| x.index == step.parse::<usize>().unwrap());
+                            if let Some(instr) = instr {
                                 instr.switches.push(calc);
+                            }
                         },
                         _ => {
 
@@ -685,7 +690,7 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                             let instrs = chunk.data.unwrap().chunks(28);
                             for (i, ins) in instrs.enumerate() {
                                 if ins.len() >= 21 {
-                                let oc = &INSTRUCTIONMAP[ins[21] as usize];
+                                let oc = INSTRUCTIONMAP.get(ins[21] as usize).unwrap_or(&None);
                                 if oc.is_some() {
                                     let mut switch: Vec<String> = vec![];
                                     match oc {
@@ -715,7 +720,7 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                                 let instrs = chunk.data.unwrap().chunks(28);
                                 for ins in instrs {
                                     if ins.len() >= 21 {
-                                    let oc = &INSTRUCTIONMAP[ins[21] as usize];
+                                    let oc = INSTRUCTIONMAP.get(ins[21] as usize).unwrap_or(&None);
                                     if oc.is_some() {
                                         let mut switch: Vec<String> = vec![];
                                         match oc {
-- 
2.43.0


From 720f1eee72690975811436467f13125b67a978bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:29 +0000
Subject: [PATCH 44/45] fix: names and locations of data sources of more than
 255 bytes were left out

---
 src/decompile/decompiler.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index 61bf6c9..b7c2724 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -804,8 +804,8 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                                 .entry(ds.parse::<usize>().unwrap())
                                 .or_insert_with(FMComponentDataSource::new);
                         }
-                        ChunkType::RefSimple => {
-                            match chunk.ref_simple.unwrap() {
+                        ChunkType::RefSimple | ChunkType::DataSegment => {
+                            match value_key(&chunk) {
                                 16 if path.len() == 3 => {
                                     let s = fm_string_decrypt(chunk.data.unwrap());
                                     let handle = fmp_file.data_sources.get_mut(&ds.parse::<usize>().unwrap());
@@ -814,7 +814,7 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                                     }
                                 },
                                 130 => {
-                                    if chunk.code == 0x6 {
+                                    if chunk.code == 0x6 || chunk.ctype == ChunkType::DataSegment {
                                         /* Path is stored here */
                                         let tmp = SourceFileLocation::from_bytes(chunk.data.unwrap());
                                         let handle = fmp_file.data_sources.get_mut(&ds.parse::<usize>().unwrap());
-- 
2.43.0


From 18e128c69759a04c827da9a9aa703af4c0ef0faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:29 +0000
Subject: [PATCH 45/45] fix: a header log that could not be written was not
 reported

---
 src/decompile/decompiler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index b7c2724..fc93e5e 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -281,7 +281,7 @@ pub fn decompile_fmp12_file_with_header(path: &Path) -> FmpFile {
     let mut buffer = Vec::<u8>::new();
     file.read_to_end(&mut buffer).expect("Unable to read file.");
 
-    write("header.log", buffer);
+    write("header.log", buffer).expect("Unable to write to file.");
     decompile_fmp12_file(path)
 }
 
-- 
2.43.0

