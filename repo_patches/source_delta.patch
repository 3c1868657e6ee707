From 9f940783bce2a7c806daf3d6be1beeb456ef6091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:20 +0000
Subject: [PATCH 01/31] fix: PBO entry reads no longer truncate the buffer
 length to 32 bits

---
 libs/pbo/src/file.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/pbo/src/file.rs b/libs/pbo/src/file.rs
index 50285e2..216ce01 100644
--- a/libs/pbo/src/file.rs
+++ b/libs/pbo/src/file.rs
@@ -25,8 +25,8 @@ impl<'a, I: Read> File<'a, I> {
 impl<I: Read> Read for File<'_, I> {
     fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
         // read up to the size of the file
-        let size = std::cmp::min(self.size - self.read, buf.len() as u32);
-        let read = self.input.read(&mut buf[..size as usize])?;
+        let size = std::cmp::min((self.size - self.read) as usize, buf.len());
+        let read = self.input.read(&mut buf[..size])?;
         self.read += read as u32;
         Ok(read)
     }
-- 
2.43.0


From 52c9939c93fa55d12e74596a59b6bdd6436e70cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:20 +0000
Subject: [PATCH 02/31] fix: recomputed checksum of a PBO without a version
 header includes no property terminator

---
 libs/pbo/src/read.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/libs/pbo/src/read.rs b/libs/pbo/src/read.rs
index 2090b8d..2b6edd4 100644
--- a/libs/pbo/src/read.rs
+++ b/libs/pbo/src/read.rs
@@ -177,22 +177,22 @@ impl<I: Seek + Read> ReadablePbo<I> {
         let mut headers: Cursor<Vec<u8>> = Cursor::new(Vec::new());
         if let Some(vers_header) = &self.vers_header {
             vers_header.write_pbo(&mut headers)?;
-        }
 
-        if let Some(prefix) = self.properties.get("prefix") {
-            headers.write_cstring(b"prefix")?;
-            headers.write_cstring(prefix)?;
-        }
+            if let Some(prefix) = self.properties.get("prefix") {
+                headers.write_cstring(b"prefix")?;
+                headers.write_cstring(prefix)?;
+            }
 
-        for (key, value) in &self.properties {
-            if key == "prefix" {
-                continue;
+            for (key, value) in &self.properties {
+                if key == "prefix" {
+                    continue;
+                }
+                headers.write_cstring(key.as_bytes())?;
+                headers.write_cstring(value.as_bytes())?;
             }
-            headers.write_cstring(key.as_bytes())?;
-            headers.write_cstring(value.as_bytes())?;
-        }
 
-        headers.write_all(&[0])?;
+            headers.write_all(&[0])?;
+        }
 
         for header in &self.files_sorted() {
             header.write_pbo(&mut headers)?;
-- 
2.43.0


From a494052e211ae5fa96ef934f4dfae253ae7f8e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:20 +0000
Subject: [PATCH 03/31] fix: find PBO entries whose stored name uses forward
 slashes

---
 libs/pbo/src/read.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/libs/pbo/src/read.rs b/libs/pbo/src/read.rs
index 2b6edd4..a5eda6e 100644
--- a/libs/pbo/src/read.rs
+++ b/libs/pbo/src/read.rs
@@ -77,7 +77,7 @@ impl<I: Seek + Read> ReadablePbo<I> {
     pub fn header(&self, name: &str) -> Option<&Header> {
         self.headers
             .iter()
-            .find(|h| h.filename() == name.replace('/', "\\"))
+            .find(|h| h.filename().replace('/', "\\") == name.replace('/', "\\"))
     }
 
     /// Get the PBO's properties
@@ -113,7 +113,9 @@ impl<I: Seek + Read> ReadablePbo<I> {
     pub fn file(&mut self, name: &str) -> Result<Option<File<I>>, Error> {
         self.input.seek(SeekFrom::Start(self.blob_start))?;
         for header in &self.headers {
-            if header.filename().to_lowercase() == name.replace('/', "\\").to_lowercase() {
+            if header.filename().replace('/', "\\").to_lowercase()
+                == name.replace('/', "\\").to_lowercase()
+            {
                 return Ok(Some(File::new(header, &mut self.input)));
             }
             self.input
@@ -129,7 +131,9 @@ impl<I: Seek + Read> ReadablePbo<I> {
     pub fn file_offset(&self, name: &str) -> Result<Option<u64>, Error> {
         let mut offset = self.blob_start;
         for header in &self.headers {
-            if header.filename().to_lowercase() == name.replace('/', "\\").to_lowercase() {
+            if header.filename().replace('/', "\\").to_lowercase()
+                == name.replace('/', "\\").to_lowercase()
+            {
                 return Ok(Some(offset));
             }
             offset += header.size() as u64;
-- 
2.43.0


From a74d663a762abb3e927f9cd7f92354dda5f5a3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:40 +0000
Subject: [PATCH 04/31] fix: verify signatures with the public key instead of
 the key embedded in the signature

---
 libs/signing/src/public.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libs/signing/src/public.rs b/libs/signing/src/public.rs
index 1e62b17..26eee53 100644
--- a/libs/signing/src/public.rs
+++ b/libs/signing/src/public.rs
@@ -123,7 +123,10 @@ impl BIPublicKey {
         let (real_hash1, real_hash2, real_hash3) =
             generate_hashes(pbo, signature.version, self.length)?;
 
-        let (signed_hash1, signed_hash2, signed_hash3) = signature.signatures_modpow();
+        // the signature carries its own copy of the key, which must not be trusted
+        let signed_hash1 = signature.sig1.modpow(&self.exponent, &self.n);
+        let signed_hash2 = signature.sig2.modpow(&self.exponent, &self.n);
+        let signed_hash3 = signature.sig3.modpow(&self.exponent, &self.n);
 
         if real_hash1 != signed_hash1 {
             let (s, r) = super::display_hashes(&signed_hash1, &real_hash1);
-- 
2.43.0


From 684312ad10d765afb7635bd6325a40f38bfaa77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:19 +0000
Subject: [PATCH 05/31] fix: malformed public keys and signatures are rejected
 with an error instead of a panic

---
 libs/signing/src/public.rs    | 7 +++----
 libs/signing/src/signature.rs | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/libs/signing/src/public.rs b/libs/signing/src/public.rs
index 26eee53..8c24488 100644
--- a/libs/signing/src/public.rs
+++ b/libs/signing/src/public.rs
@@ -74,9 +74,6 @@ impl BIPublicKey {
     ///
     /// # Errors
     /// If the reader fails to read
-    ///
-    /// # Panics
-    /// If the public key is invalid
     pub fn read<I: Read>(input: &mut I) -> Result<Self, Error> {
         let authority = input.read_cstring()?;
         let temp = input.read_u32::<LittleEndian>()?;
@@ -86,7 +83,9 @@ impl BIPublicKey {
         let length = input.read_u32::<LittleEndian>()?;
         let exponent = BigUint::new(vec![input.read_u32::<LittleEndian>()?]);
 
-        assert_eq!(temp, length / 8 + 20);
+        if temp != length / 8 + 20 {
+            return Err(Error::InvalidLength);
+        }
 
         let mut buffer = vec![0; (length / 8) as usize];
         input.read_exact(&mut buffer)?;
diff --git a/libs/signing/src/signature.rs b/libs/signing/src/signature.rs
index af52b13..b6437d2 100644
--- a/libs/signing/src/signature.rs
+++ b/libs/signing/src/signature.rs
@@ -108,9 +108,6 @@ impl BISign {
     ///
     /// # Errors
     /// If the reader fails to read
-    ///
-    /// # Panics
-    /// If the signature is invalid
     pub fn read<I: Read>(input: &mut I) -> Result<Self, Error> {
         let authority = input.read_cstring()?;
         let temp = input.read_u32::<LittleEndian>()?;
@@ -120,7 +117,9 @@ impl BISign {
         let length = input.read_u32::<LittleEndian>()?;
         let exponent = BigUint::new(vec![input.read_u32::<LittleEndian>()?]);
 
-        assert_eq!(temp, length / 8 + 20);
+        if temp != length / 8 + 20 {
+            return Err(Error::InvalidLength);
+        }
 
         let mut buffer = vec![0; (length / 8) as usize];
         input.read_exact(&mut buffer)?;
-- 
2.43.0


From b4ade9d4ec93dad9691192bb1afc103f98ab6324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:28 +0000
Subject: [PATCH 06/31] fix: count stringtable lints when deciding whether
 lints are configured

---
 libs/common/src/config/project/lint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/common/src/config/project/lint.rs b/libs/common/src/config/project/lint.rs
index 42b34f6..66da836 100644
--- a/libs/common/src/config/project/lint.rs
+++ b/libs/common/src/config/project/lint.rs
@@ -32,7 +32,7 @@ impl LintGroupConfig {
     }
 
     pub fn is_empty(&self) -> bool {
-        self.config.is_empty() && self.sqf.is_empty()
+        self.config.is_empty() && self.sqf.is_empty() && self.stringtables.is_empty()
     }
 }
 
-- 
2.43.0


From a7575c9ed8fe9d387bda3f4f5431164a95e409f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:52 +0000
Subject: [PATCH 07/31] fix: a second #else is an error even after a nested
 conditional, and an orphan #else no longer panics

---
 libs/preprocessor/src/ifstate.rs | 42 +++++++++++++-------------------
 1 file changed, 17 insertions(+), 25 deletions(-)

diff --git a/libs/preprocessor/src/ifstate.rs b/libs/preprocessor/src/ifstate.rs
index de0412c..cf75415 100644
--- a/libs/preprocessor/src/ifstate.rs
+++ b/libs/preprocessor/src/ifstate.rs
@@ -35,7 +35,8 @@ impl IfState {
 #[derive(Clone, Default, Debug, Eq, PartialEq)]
 pub struct IfStates {
     stack: Vec<IfState>,
-    did_else: Option<Arc<Token>>,
+    /// The `#else` of each entry in the stack, if there was one
+    did_else: Vec<Option<Arc<Token>>>,
 }
 
 impl IfStates {
@@ -44,12 +45,11 @@ impl IfStates {
     }
 
     pub fn push(&mut self, s: IfState) {
-        self.did_else = None;
+        self.did_else.push(None);
         self.stack.push(s);
     }
 
     pub fn push_if(&mut self, token: Arc<Token>, state: bool) {
-        self.did_else = None;
         if state {
             self.push(IfState::ReadingIf(token));
         } else {
@@ -58,39 +58,31 @@ impl IfStates {
     }
 
     pub fn pop(&mut self) -> Option<IfState> {
-        self.did_else = None;
+        self.did_else.pop();
         self.stack.pop()
     }
 
     pub fn flip(&mut self, token: Arc<Token>) -> Result<(), Error> {
-        if let Some(previous) = self.did_else.take() {
+        let Some((current, parents)) = self.stack.split_last_mut() else {
+            return Ok(());
+        };
+        if let Some(Some(previous)) = self.did_else.last() {
             return Err(DoubleElse::code(
                 token.as_ref().clone(),
                 previous.as_ref().clone(),
-                self.stack
-                    .last()
-                    .expect("did_else should only be Some if there is a last element in the stack")
-                    .token()
-                    .as_ref()
-                    .clone(),
+                current.token().as_ref().clone(),
             ));
         }
-        if self
-            .stack
-            .iter()
-            .take(self.stack.len() - 1)
-            .all(IfState::reading)
-        {
-            if let Some(new) = match self.pop() {
-                Some(IfState::PassingChild(t)) => Some(IfState::PassingChild(t)),
-                Some(IfState::PassingIf(t)) => Some(IfState::ReadingElse(t)),
-                Some(IfState::ReadingIf(t)) => Some(IfState::PassingElse(t)),
-                Some(IfState::PassingElse(_) | IfState::ReadingElse(_)) | None => None,
-            } {
-                self.push(new);
+        if parents.iter().all(IfState::reading) {
+            match current {
+                IfState::PassingIf(t) => *current = IfState::ReadingElse(t.clone()),
+                IfState::ReadingIf(t) => *current = IfState::PassingElse(t.clone()),
+                IfState::PassingChild(_) | IfState::PassingElse(_) | IfState::ReadingElse(_) => {}
             }
         }
-        self.did_else = Some(token);
+        if let Some(did_else) = self.did_else.last_mut() {
+            *did_else = Some(token);
+        }
         Ok(())
     }
 }
-- 
2.43.0


From 9535d12b0054124c00c0e657a7199ef43994a76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:52 +0000
Subject: [PATCH 08/31] fix: line-scoped preprocessor flags end with the line

---
 libs/preprocessor/src/processor/pragma.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/preprocessor/src/processor/pragma.rs b/libs/preprocessor/src/processor/pragma.rs
index e985b3c..3c1db0a 100644
--- a/libs/preprocessor/src/processor/pragma.rs
+++ b/libs/preprocessor/src/processor/pragma.rs
@@ -52,6 +52,7 @@ impl Pragma {
 
     pub fn clear_line(&mut self) {
         self.suppress.retain(|_, v| *v as u8 > Scope::Line as u8);
+        self.flags.retain(|_, v| *v as u8 > Scope::Line as u8);
     }
 
     pub fn is_suppressed(&self, code: &Suppress) -> bool {
-- 
2.43.0


From 3c5cf7c81bc1c7d2663d90aaac90c17188b22c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:52 +0000
Subject: [PATCH 09/31] fix: macros in an untaken conditional inside a macro
 body are not expanded

---
 libs/preprocessor/src/processor/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libs/preprocessor/src/processor/mod.rs b/libs/preprocessor/src/processor/mod.rs
index f92c8f6..4b30e87 100644
--- a/libs/preprocessor/src/processor/mod.rs
+++ b/libs/preprocessor/src/processor/mod.rs
@@ -152,6 +152,10 @@ impl Processor {
         let mut just_whitespace = true;
         while let Some(token) = stream.peek() {
             match (token.symbol(), in_quotes) {
+                (Symbol::Word(_), false) if !self.ifstates.reading() => {
+                    just_whitespace = false;
+                    stream.next();
+                }
                 (Symbol::Word(w), false) => {
                     if w == "__EXEC" {
                         return Err(ExecNotSupported::code((**token).clone()));
-- 
2.43.0


From 88e8ee08b2df4be9dd1aee3cea51ed7b55a3fb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:52 +0000
Subject: [PATCH 10/31] fix: a source or macro body ending early is an error
 instead of a panic in the preprocessor

---
 libs/preprocessor/src/processor/defines.rs    | 12 +++----
 libs/preprocessor/src/processor/directives.rs | 33 ++++++++++---------
 libs/preprocessor/src/processor/mod.rs        | 19 ++++++-----
 3 files changed, 33 insertions(+), 31 deletions(-)

diff --git a/libs/preprocessor/src/processor/defines.rs b/libs/preprocessor/src/processor/defines.rs
index 7c49671..d099521 100644
--- a/libs/preprocessor/src/processor/defines.rs
+++ b/libs/preprocessor/src/processor/defines.rs
@@ -37,9 +37,7 @@ impl Processor {
     ) -> Result<Option<Vec<Vec<Arc<Token>>>>, Error> {
         if !stream
             .peek()
-            .expect("peeked by caller")
-            .symbol()
-            .is_left_paren()
+            .is_some_and(|token| token.symbol().is_left_paren())
         {
             return Ok(None);
         }
@@ -200,7 +198,9 @@ impl Processor {
         stream: &mut PeekMoreIterator<impl Iterator<Item = Arc<Token>>>,
         buffer: &mut Vec<Output>,
     ) -> Result<(), Error> {
-        let ident = Self::current_word(stream)?;
+        let Some(ident) = stream.next() else {
+            return Ok(());
+        };
         let ident_string = ident.to_string();
         let Some((source, body, define_source)) = self.defines.get_with_gen(&ident, Some(callsite))
         else {
@@ -303,9 +303,7 @@ impl Processor {
                     source.as_ref().clone(),
                     stream
                         .peek()
-                        .expect("peeked by caller")
-                        .symbol()
-                        .is_left_paren(),
+                        .is_some_and(|token| token.symbol().is_left_paren()),
                 ));
             }
         };
diff --git a/libs/preprocessor/src/processor/directives.rs b/libs/preprocessor/src/processor/directives.rs
index 59c0997..c999dd7 100644
--- a/libs/preprocessor/src/processor/directives.rs
+++ b/libs/preprocessor/src/processor/directives.rs
@@ -63,15 +63,15 @@ impl Processor {
         let command_word = command.symbol().to_string();
         match (command_word.as_str(), self.ifstates.reading()) {
             ("include", true) => {
-                self.directive_include(pragma, stream, buffer)?;
+                self.directive_include(pragma, command, stream, buffer)?;
                 Ok(())
             }
             ("define", true) => {
-                self.directive_define(stream)?;
+                self.directive_define(command, stream)?;
                 Ok(())
             }
             ("undef", true) => {
-                self.directive_undef(stream)?;
+                self.directive_undef(command, stream)?;
                 Ok(())
             }
             ("if", true) => {
@@ -96,11 +96,11 @@ impl Processor {
                 Ok(())
             }
             ("pragma", true) => {
-                if self.next_word(stream, None)?.to_string() != "hemtt" {
+                if self.next_word(&command, stream, None)?.to_string() != "hemtt" {
                     self.skip_to_after_newline(stream, None);
                     return Ok(());
                 }
-                let command = self.next_word(stream, None)?;
+                let command = self.next_word(&command, stream, None)?;
                 match command.to_string().as_str() {
                     "suppress" => {
                         let (code, scope) = self.read_pragma(&command, pragma, stream)?;
@@ -128,9 +128,9 @@ impl Processor {
         pragma: &Pragma,
         stream: &mut PeekMoreIterator<impl Iterator<Item = Arc<Token>>>,
     ) -> Result<(Arc<Token>, Scope), Error> {
-        let code = self.next_word(stream, None)?;
+        let code = self.next_word(command, stream, None)?;
         let mut hit_end = false;
-        let scope_token = self.next_word(stream, None).unwrap_or_else(|_| {
+        let scope_token = self.next_word(command, stream, None).unwrap_or_else(|_| {
             hit_end = true;
             Arc::new(Token::new(
                 Symbol::Word("line".to_string()),
@@ -153,11 +153,14 @@ impl Processor {
     pub(crate) fn directive_include(
         &mut self,
         pragma: &mut Pragma,
+        command: Arc<Token>,
         stream: &mut PeekMoreIterator<impl Iterator<Item = Arc<Token>>>,
         buffer: &mut Vec<Output>,
     ) -> Result<(), Error> {
         self.skip_whitespace(stream, None);
-        let open = stream.next().expect("was peeked in directive()");
+        let Some(open) = stream.next() else {
+            return Err(UnexpectedEOF::code(command.as_ref().clone()));
+        };
         if !open.symbol().is_include_enclosure() {
             return Err(IncludeNotEncased::code(
                 open.as_ref().clone(),
@@ -235,9 +238,10 @@ impl Processor {
 
     pub(crate) fn directive_define(
         &mut self,
+        command: Arc<Token>,
         stream: &mut PeekMoreIterator<impl Iterator<Item = Arc<Token>>>,
     ) -> Result<(), Error> {
-        let ident = self.next_word(stream, None)?;
+        let ident = self.next_word(&command, stream, None)?;
         if !ident.symbol().is_word() {
             return Err(ExpectedIdent::code(ident.as_ref().clone()));
         }
@@ -306,9 +310,10 @@ impl Processor {
 
     pub(crate) fn directive_undef(
         &mut self,
+        command: Arc<Token>,
         stream: &mut PeekMoreIterator<impl Iterator<Item = Arc<Token>>>,
     ) -> Result<(), Error> {
-        let ident = self.next_word(stream, None)?;
+        let ident = self.next_word(&command, stream, None)?;
         if !ident.symbol().is_word() {
             return Err(ExpectedIdent::code(ident.as_ref().clone()));
         }
@@ -416,11 +421,7 @@ impl Processor {
             let right = read_value(stream);
             if right.is_empty() {
                 return Err(UnexpectedEOF::code(
-                    operators
-                        .last()
-                        .expect("right should exists at this point")
-                        .as_ref()
-                        .clone(),
+                    operators.last().unwrap_or(&command).as_ref().clone(),
                 ));
             }
             if right.len() == 1 {
@@ -490,7 +491,7 @@ impl Processor {
         outcome: bool,
         stream: &mut PeekMoreIterator<impl Iterator<Item = Arc<Token>>>,
     ) -> Result<(), Error> {
-        let ident = self.next_word(stream, None)?;
+        let ident = self.next_word(&command, stream, None)?;
         if !ident.symbol().is_word() {
             return Err(ExpectedIdent::code(ident.as_ref().clone()));
         }
diff --git a/libs/preprocessor/src/processor/mod.rs b/libs/preprocessor/src/processor/mod.rs
index 4b30e87..01ebb14 100644
--- a/libs/preprocessor/src/processor/mod.rs
+++ b/libs/preprocessor/src/processor/mod.rs
@@ -250,15 +250,17 @@ impl Processor {
     /// - [`UnexpectedEOF`]: If the stream is at the end of the file
     /// - [`ExpectedIdent`]: If the stream is not at a word
     fn current_word(
+        last: &Token,
         stream: &mut PeekMoreIterator<impl Iterator<Item = Arc<Token>>>,
     ) -> Result<Arc<Token>, Error> {
-        if let Some(token) = stream.peek() {
-            if token.symbol().is_word() {
-                return Ok(stream.next().expect("just checked"));
-            }
-            if token.symbol().is_eoi() {
-                return Err(UnexpectedEOF::code(token.as_ref().clone()));
-            }
+        let Some(token) = stream.peek() else {
+            return Err(UnexpectedEOF::code(last.clone()));
+        };
+        if token.symbol().is_word() {
+            return Ok(stream.next().expect("just checked"));
+        }
+        if token.symbol().is_eoi() {
+            return Err(UnexpectedEOF::code(token.as_ref().clone()));
         }
         Err(ExpectedIdent::code(
             stream.next().expect("just checked").as_ref().clone(),
@@ -272,11 +274,12 @@ impl Processor {
     /// - [`ExpectedIdent`]: If the stream is not at a word
     fn next_word(
         &mut self,
+        last: &Token,
         stream: &mut PeekMoreIterator<impl Iterator<Item = Arc<Token>>>,
         buffer: Option<&mut Vec<Output>>,
     ) -> Result<Arc<Token>, Error> {
         self.skip_whitespace(stream, buffer);
-        Self::current_word(stream)
+        Self::current_word(last, stream)
     }
 
     // I might want this later, so for now I am leaving it here
-- 
2.43.0


From 086a767aa9ccf757a6bd1ce43a0bf802d4562000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:53 +0000
Subject: [PATCH 11/31] fix: the built-in constants __ARMA__ and __ARMA3__ are
 defined

---
 libs/preprocessor/src/defines.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/libs/preprocessor/src/defines.rs b/libs/preprocessor/src/defines.rs
index 827fc05..9df7dae 100644
--- a/libs/preprocessor/src/defines.rs
+++ b/libs/preprocessor/src/defines.rs
@@ -77,7 +77,7 @@ impl Defines {
     }
 
     pub fn contains_key(&self, key: &str) -> bool {
-        if BUILTIN_GEN.contains(&key) {
+        if BUILTIN_GEN.contains(&key) || BUILTIN_CONST.iter().any(|(k, _)| *k == key) {
             return true;
         }
         if let Some(last) = self.stack.last() {
@@ -98,6 +98,16 @@ impl Defines {
         site: Option<&Position>,
     ) -> Option<(Arc<Token>, Definition, DefineSource)> {
         let ident = key.to_string();
+        if let Some((_, value)) = BUILTIN_CONST.iter().find(|(k, _)| *k == ident) {
+            return Some((
+                key.clone(),
+                Definition::Value(vec![Arc::new(Token::new(
+                    Symbol::Digit((*value).into()),
+                    key.position().clone(),
+                ))]),
+                DefineSource::Generated,
+            ));
+        }
         if let Some(site) = site {
             if BUILTIN_GEN.contains(&ident.as_str()) {
                 match ident.as_str() {
-- 
2.43.0


From 1a500181cd1075edb0ed314ccb09da97ad998e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:38 +0000
Subject: [PATCH 12/31] fix: resolve paths by the longest matching prefix when
 prefixes nest

---
 libs/workspace/src/path.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/libs/workspace/src/path.rs b/libs/workspace/src/path.rs
index 06712e7..0d63155 100644
--- a/libs/workspace/src/path.rs
+++ b/libs/workspace/src/path.rs
@@ -136,10 +136,15 @@ impl WorkspacePath {
     pub fn as_virtual_str(&self) -> String {
         let mut path = self.data.path.as_str().replace('\\', "/");
         let path_lower = path.to_lowercase();
-        if let Some((base, root)) =
-            self.data.workspace.pointers.iter().find(|(_, vfs)| {
+        if let Some((base, root)) = self
+            .data
+            .workspace
+            .pointers
+            .iter()
+            .filter(|(_, vfs)| {
                 path_lower.starts_with(&format!("{}/", vfs.as_str().to_lowercase()))
             })
+            .max_by_key(|(base, vfs)| (vfs.as_str().len(), *base))
         {
             path = format!("{}{}", base, &path[root.as_str().len()..].to_string());
         }
@@ -250,7 +255,8 @@ impl WorkspacePath {
                 .workspace
                 .pointers
                 .iter()
-                .find(|(p, _)| path_lower.starts_with(&format!("{}/", p.to_lowercase())))
+                .filter(|(p, _)| path_lower.starts_with(&format!("{}/", p.to_lowercase())))
+                .max_by_key(|(p, _)| p.len())
             {
                 let ret_path = root.join(
                     path.strip_prefix_insensitive(base)
-- 
2.43.0


From 1a19ea879b5116418b60a06eb9d0cdd9a075f575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:38 +0000
Subject: [PATCH 13/31] fix: do not split characters when stripping a prefix

---
 libs/common/src/strip.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/libs/common/src/strip.rs b/libs/common/src/strip.rs
index 3e5497d..c86dee1 100644
--- a/libs/common/src/strip.rs
+++ b/libs/common/src/strip.rs
@@ -5,10 +5,7 @@ pub trait StripInsensitive {
 
 impl StripInsensitive for str {
     fn strip_prefix_insensitive(&self, prefix: &str) -> Option<&str> {
-        if self.len() < prefix.len() {
-            return None;
-        }
-        if self[..prefix.len()].eq_ignore_ascii_case(prefix) {
+        if self.get(..prefix.len())?.eq_ignore_ascii_case(prefix) {
             Some(&self[prefix.len()..])
         } else {
             None
-- 
2.43.0


From 8e01cd7f3542c1ea5267f997c9ff264e13bfe6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:41 +0000
Subject: [PATCH 14/31] fix: report errors when flushing a written P3D

---
 libs/p3d/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/p3d/src/lib.rs b/libs/p3d/src/lib.rs
index d10547a..dd6b37f 100644
--- a/libs/p3d/src/lib.rs
+++ b/libs/p3d/src/lib.rs
@@ -76,6 +76,7 @@ impl P3D {
         for lod in &self.lods {
             lod.write(&mut writer)?;
         }
+        writer.flush()?;
 
         Ok(())
     }
-- 
2.43.0


From 20edc2c7c3ad645bd67588b6b1bf6258758ae56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:41 +0000
Subject: [PATCH 15/31] fix: do not reserve memory for P3D counts before the
 data is read

---
 libs/p3d/src/lib.rs | 2 +-
 libs/p3d/src/lod.rs | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/libs/p3d/src/lib.rs b/libs/p3d/src/lib.rs
index dd6b37f..493692b 100644
--- a/libs/p3d/src/lib.rs
+++ b/libs/p3d/src/lib.rs
@@ -49,7 +49,7 @@ impl P3D {
 
         let version = reader.read_u32::<LittleEndian>()?;
         let num_lods = reader.read_u32::<LittleEndian>()?;
-        let mut lods: Vec<LOD> = Vec::with_capacity(num_lods as usize);
+        let mut lods: Vec<LOD> = Vec::new();
 
         for _i in 0..num_lods {
             lods.push(LOD::read(&mut reader)?);
diff --git a/libs/p3d/src/lod.rs b/libs/p3d/src/lod.rs
index 4724aa6..3aad3ea 100644
--- a/libs/p3d/src/lod.rs
+++ b/libs/p3d/src/lod.rs
@@ -40,9 +40,9 @@ impl LOD {
 
         input.bytes().nth(3);
 
-        let mut points: Vec<Point> = Vec::with_capacity(num_points as usize);
-        let mut face_normals: Vec<(f32, f32, f32)> = Vec::with_capacity(num_face_normals as usize);
-        let mut faces: Vec<Face> = Vec::with_capacity(num_faces as usize);
+        let mut points: Vec<Point> = Vec::new();
+        let mut face_normals: Vec<(f32, f32, f32)> = Vec::new();
+        let mut faces: Vec<Face> = Vec::new();
 
         for _i in 0..num_points {
             points.push(Point::read(input)?);
-- 
2.43.0


From 1f9b5fcae3ab9688fbf109c243c2bcb6dbfd5cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:35 +0000
Subject: [PATCH 16/31] fix: keep all taggs of a P3D LOD that share a name

---
 libs/p3d/src/lod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libs/p3d/src/lod.rs b/libs/p3d/src/lod.rs
index 3aad3ea..7f61b69 100644
--- a/libs/p3d/src/lod.rs
+++ b/libs/p3d/src/lod.rs
@@ -2,7 +2,6 @@ use std::io::{Read, Seek, Write};
 
 use byteorder::{LittleEndian, ReadBytesExt, WriteBytesExt};
 use hemtt_common::io::{ReadExt, WriteExt};
-use indexmap::IndexMap;
 
 use crate::{Error, Face, Point};
 
@@ -14,7 +13,8 @@ pub struct LOD {
     pub points: Vec<Point>,
     pub face_normals: Vec<(f32, f32, f32)>,
     pub faces: Vec<Face>,
-    pub taggs: IndexMap<String, Box<[u8]>>,
+    /// Names are not unique, every property is its own tagg
+    pub taggs: Vec<(String, Box<[u8]>)>,
 }
 
 impl LOD {
@@ -67,7 +67,7 @@ impl LOD {
             ));
         }
 
-        let mut taggs: IndexMap<String, Box<[u8]>> = IndexMap::new();
+        let mut taggs: Vec<(String, Box<[u8]>)> = Vec::new();
 
         loop {
             input.bytes().next();
@@ -81,7 +81,7 @@ impl LOD {
                 break;
             }
 
-            taggs.insert(name, buffer);
+            taggs.push((name, buffer));
         }
 
         let resolution = input.read_f32::<LittleEndian>()?;
-- 
2.43.0


From 83cac99123071d6ea0290ffc65fceec498222d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:12 +0000
Subject: [PATCH 17/31] fix: exchange only the extension of a texture when
 looking for its alternative

With str::replace an extension in the middle of the path was exchanged too,
so the texture was looked for in another folder and reported as missing.
---
 libs/p3d/src/functions/missing.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/libs/p3d/src/functions/missing.rs b/libs/p3d/src/functions/missing.rs
index 7a58fd1..27e55e1 100644
--- a/libs/p3d/src/functions/missing.rs
+++ b/libs/p3d/src/functions/missing.rs
@@ -74,14 +74,12 @@ impl P3D {
                     missing_textures.push(texture);
                 }
             } else if workspace.locate(&texture)?.is_none() {
-                #[allow(clippy::case_sensitive_file_extension_comparisons)]
-                // working on lowercase paths
-                let (replaced, ext) = if texture.ends_with(".paa") {
-                    (texture.replace(".paa", ".tga"), "tga")
-                } else if texture.ends_with(".tga") {
-                    (texture.replace(".tga", ".paa"), "paa")
-                } else if texture.ends_with(".png") {
-                    (texture.replace(".png", ".paa"), "paa")
+                let (replaced, ext) = if let Some(name) = texture.strip_suffix(".paa") {
+                    (format!("{name}.tga"), "tga")
+                } else if let Some(name) = texture.strip_suffix(".tga") {
+                    (format!("{name}.paa"), "paa")
+                } else if let Some(name) = texture.strip_suffix(".png") {
+                    (format!("{name}.paa"), "paa")
                 } else {
                     (texture.clone(), "")
                 };
-- 
2.43.0


From a8839f6628b25739a6c77fd292122b0ddfd2ec01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:31 +0000
Subject: [PATCH 18/31] fix: keep the line and column right behind comments and
 quotes

---
 libs/preprocessor/src/parse/mod.rs | 37 ++++++++++++++----------------
 1 file changed, 17 insertions(+), 20 deletions(-)

diff --git a/libs/preprocessor/src/parse/mod.rs b/libs/preprocessor/src/parse/mod.rs
index ba8a21e..a58ec05 100644
--- a/libs/preprocessor/src/parse/mod.rs
+++ b/libs/preprocessor/src/parse/mod.rs
@@ -45,47 +45,44 @@ pub fn parse(path: &WorkspacePath) -> Result<Vec<Arc<Token>>, Error> {
                 col = 0;
             }
             Rule::COMMENT => {
+                let lines = pair.as_str().split('\n').collect::<Vec<_>>();
+                let count = lines.len() - 1;
+                line += count;
+                if count > 0 {
+                    col = lines
+                        .last()
+                        .expect("exists because count is greater than 0")
+                        .len();
+                } else {
+                    col += pair.as_str().len();
+                }
                 if in_single_string || in_double_string {
                     if !skipping_comment {
                         tokens.push(Arc::new(Token::new(
                             Symbol::Word(pair.as_str().to_string()),
                             Position::new(
                                 start,
-                                LineCol(start.0 + 2, (start.1 .0 + 2, start.1 .1 + 2)),
+                                LineCol(offset + pair.as_str().len(), (line, col)),
                                 path.clone(),
                             ),
                         )));
                     }
-                } else {
-                    let lines = pair.as_str().split('\n').collect::<Vec<_>>();
-                    let count = lines.len() - 1;
-                    line += count;
-                    if count > 0 {
-                        col = lines
-                            .last()
-                            .expect("exists because count is greater than 0")
-                            .len()
-                            + 1;
-                    } else {
-                        col = 0;
-                    }
-                    if pair.as_str() == "//" {
-                        // skip to end of line
-                        skipping_comment = true;
-                    }
+                } else if pair.as_str() == "//" {
+                    // skip to end of line
+                    skipping_comment = true;
                 }
             }
             Rule::single_quote => {
                 if !skipping_comment && !in_double_string {
                     in_single_string = !in_single_string;
-                    col += 1;
                 }
+                col += 1;
             }
             Rule::double_quote => {
                 if !skipping_comment && !in_single_string {
                     in_double_string = !in_double_string;
-                    col += 1;
                 }
+                col += 1;
             }
             _ => {
                 col += pair.as_str().len();
-- 
2.43.0


From 3a7775b4c04ea6a585d422b448f6a8f8ab183fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:02 +0000
Subject: [PATCH 19/31] fix: unpack compressed paa mipmaps into a buffer of the
 size of the format, and do not show what can not be unpacked

---
 libs/paa/src/mipmap.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/libs/paa/src/mipmap.rs b/libs/paa/src/mipmap.rs
index 6c46873..61eb654 100644
--- a/libs/paa/src/mipmap.rs
+++ b/libs/paa/src/mipmap.rs
@@ -84,14 +84,14 @@ impl MipMap {
             width_2 -= 32768;
             true
         };
-        let mut img_size: u32 = u32::from(width_2) * u32::from(self.height);
-        if self.format == Format::Bc1 {
-            img_size /= 2;
-        }
-        let mut buffer: Box<[u8]> = vec![0; img_size as usize].into_boxed_slice();
+        let img_size = self
+            .format
+            .compressed_size(usize::from(width_2), usize::from(self.height));
+        let mut buffer: Box<[u8]> = vec![0; img_size].into_boxed_slice();
         let mut out_buffer = vec![0u8; 4 * (width_2 as usize) * (self.height as usize)];
         if compress {
-            let _ = hemtt_lzo::decompress_to_slice(data, &mut buffer);
+            hemtt_lzo::decompress_to_slice(data, &mut buffer)
+                .expect("compressed mipmap should contain valid lzo data");
             self.format.decompress(
                 &buffer,
                 usize::from(width_2),
-- 
2.43.0


From a2120e48539211f539f33f089b35eb88fca5b95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:03 +0000
Subject: [PATCH 20/31] fix: a paa in a format that can not be decoded is an
 error, not a panic

---
 libs/paa/src/paa.rs |  6 ++++--
 libs/paa/src/pax.rs | 19 +++++++++++++------
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/libs/paa/src/paa.rs b/libs/paa/src/paa.rs
index e00241a..03db917 100644
--- a/libs/paa/src/paa.rs
+++ b/libs/paa/src/paa.rs
@@ -82,6 +82,9 @@ impl Paa {
             }
             // Read MipMaps
             if let Some(offs) = paa.taggs.get("SFFO") {
+                let format = paa.format.texture_format().ok_or_else(|| {
+                    Error::new(std::io::ErrorKind::Unsupported, "unsupported paa format")
+                })?;
                 for i in 0..(offs.len() / 4) {
                     let mut seek: [u8; 4] = [0; 4];
                     let p = i * 4;
@@ -89,8 +92,7 @@ impl Paa {
                     let seek = u32::from_le_bytes(seek);
                     if seek != 0 {
                         input.seek(SeekFrom::Start(u64::from(seek)))?;
-                        paa.maps
-                            .push(MipMap::from_stream(paa.format.clone().into(), &mut input)?);
+                        paa.maps.push(MipMap::from_stream(format, &mut input)?);
                     }
                 }
             }
diff --git a/libs/paa/src/pax.rs b/libs/paa/src/pax.rs
index 3e60ad9..7d2f9fa 100644
--- a/libs/paa/src/pax.rs
+++ b/libs/paa/src/pax.rs
@@ -41,6 +41,17 @@ impl PaXType {
         }
     }
 
+    #[must_use]
+    /// The format of the textures, [`None`] if they can not be decoded
+    pub const fn texture_format(&self) -> Option<Format> {
+        match self {
+            Self::DXT1 => Some(Format::Bc1),
+            Self::DXT3 => Some(Format::Bc2),
+            Self::DXT5 => Some(Format::Bc3),
+            _ => None,
+        }
+    }
+
     #[must_use]
     pub const fn as_bytes(&self) -> [u8; 2] {
         match self {
@@ -59,12 +70,8 @@ impl PaXType {
 
 impl From<PaXType> for Format {
     fn from(pax: PaXType) -> Self {
-        match pax {
-            PaXType::DXT1 => Self::Bc1,
-            PaXType::DXT3 => Self::Bc2,
-            PaXType::DXT5 => Self::Bc3,
-            _ => unimplemented!(),
-        }
+        pax.texture_format()
+            .expect("only DXT1, DXT3 and DXT5 textures can be decoded")
     }
 }
 
-- 
2.43.0


From 9c58e101278b7ef3e5cb640a7c14f52cafb3a0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:03 +0000
Subject: [PATCH 21/31] fix: the average color of a paa is written under its
 tag

---
 libs/paa/src/paa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/paa/src/paa.rs b/libs/paa/src/paa.rs
index 03db917..7d35e0e 100644
--- a/libs/paa/src/paa.rs
+++ b/libs/paa/src/paa.rs
@@ -114,7 +114,7 @@ impl Paa {
         output.write_all(&PaXType::DXT5.as_bytes())?; // 2
 
         // Average Color
-        output.write_all(b"GGATAVGC")?; // 8
+        output.write_all(b"GGATCGVA")?; // 8
         output.write_u32::<LittleEndian>(size_of::<u32>() as u32)?; // 4
         let avg_color = image
             .pixels()
-- 
2.43.0


From 2e0b946060f7c971b425d4ab511a47fcef9ad079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:03 +0000
Subject: [PATCH 22/31] fix: refuse to write an image that does not fit in a
 paa

---
 libs/paa/src/paa.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/libs/paa/src/paa.rs b/libs/paa/src/paa.rs
index 7d35e0e..70bf7ba 100644
--- a/libs/paa/src/paa.rs
+++ b/libs/paa/src/paa.rs
@@ -111,6 +111,19 @@ impl Paa {
     /// [`std::io::Error`] if the output is not writable
     pub fn write(image: &RgbaImage, output: &mut impl Write) -> Result<(), Error> {
         let algo: Format = PaXType::DXT5.clone().into();
+        let size = algo.compressed_size(image.width() as usize, image.height() as usize);
+        // the top bit of the width marks compression, the size is stored in 24 bits
+        if image.width() == 0
+            || image.height() == 0
+            || image.width() > 0x7FFF
+            || image.height() > 0xFFFF
+            || size > 0x00FF_FFFF
+        {
+            return Err(Error::new(
+                std::io::ErrorKind::InvalidInput,
+                "image can not be stored in a paa",
+            ));
+        }
         output.write_all(&PaXType::DXT5.as_bytes())?; // 2
 
         // Average Color
@@ -168,7 +181,6 @@ impl Paa {
         // Write main image
         output.write_u16::<LittleEndian>(image.width() as u16)?;
         output.write_u16::<LittleEndian>(image.height() as u16)?;
-        let size = algo.compressed_size(image.width() as usize, image.height() as usize);
         output.write_u24::<LittleEndian>(size as u32)?;
         let mut buffer = vec![0; size];
         algo.compress(
-- 
2.43.0


From c27758caf039fbf201f9d1feb3c41a04f1c69c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:02 +0000
Subject: [PATCH 23/31] fix: malformed expressions such as `1 2` were given a
 value

---
 libs/common/src/math.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/libs/common/src/math.rs b/libs/common/src/math.rs
index c7a7389..d6bb663 100644
--- a/libs/common/src/math.rs
+++ b/libs/common/src/math.rs
@@ -24,8 +24,14 @@ fn shunting_yard(expression: &str) -> Option<Vec<Token>> {
     .collect();
 
     let tokens = tokenize(expression).ok()?;
+    let mut operand_expected = true;
 
     for token in tokens {
+        // operands and operators have to alternate
+        if operand_expected != matches!(token, Token::Number(_) | Token::LeftParenthesis) {
+            return None;
+        }
+        operand_expected = matches!(token, Token::Operator(_) | Token::LeftParenthesis);
         match token {
             Token::Number(_) => output_queue.push(token),
             Token::Operator(op) => {
@@ -63,6 +69,10 @@ fn shunting_yard(expression: &str) -> Option<Vec<Token>> {
         }
     }
 
+    if operand_expected {
+        return None;
+    }
+
     while let Some(operator) = operator_stack.pop() {
         output_queue.push(operator);
     }
-- 
2.43.0


From e07c2df16c9fc275dbd0d4ae2b146ae4f89da576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:02 +0000
Subject: [PATCH 24/31] fix: an expression starting with a negative number was
 rejected

---
 libs/common/src/math.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/common/src/math.rs b/libs/common/src/math.rs
index d6bb663..8cc3c5b 100644
--- a/libs/common/src/math.rs
+++ b/libs/common/src/math.rs
@@ -144,7 +144,7 @@ fn tokenize(expression: &str) -> Result<Vec<Token>, String> {
                     '-' => {
                         if matches!(
                             tokens.last(),
-                            Some(Token::Operator(_) | Token::LeftParenthesis)
+                            None | Some(Token::Operator(_) | Token::LeftParenthesis)
                         ) {
                             current_number.push(c);
                         } else {
-- 
2.43.0


From 31c4b51987123f8d55261bee64a19fdb91933613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:02 +0000
Subject: [PATCH 25/31] fix: `1.0.0` was read as the number 10

---
 libs/config/src/parse/value.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/config/src/parse/value.rs b/libs/config/src/parse/value.rs
index 3772809..95a6bf6 100644
--- a/libs/config/src/parse/value.rs
+++ b/libs/config/src/parse/value.rs
@@ -16,7 +16,8 @@ pub fn value() -> impl Parser<char, Value, Error = Simple<char>> {
 
 pub fn math() -> impl Parser<char, Number, Error = Simple<char>> {
     choice((
-        super::number::number().map(|n| n.to_string()),
+        // keeps apart two numbers that follow each other, such as `1.0` and `.0` in `1.0.0`
+        super::number::number().map(|n| format!("{n} ")),
         just("-".to_string()),
         just("+".to_string()),
         just("*".to_string()),
-- 
2.43.0


From 961710f341ba1aac607ca2cf0b84e6923a6c7d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:02 +0000
Subject: [PATCH 26/31] fix: the value of an expression above 2^63 was cut to
 2^63-1

---
 libs/config/src/model/number.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/libs/config/src/model/number.rs b/libs/config/src/model/number.rs
index d7beec7..4b30d92 100644
--- a/libs/config/src/model/number.rs
+++ b/libs/config/src/model/number.rs
@@ -39,10 +39,12 @@ impl Number {
                     span,
                 });
             }
-            return Some(Self::Int64 {
-                value: value as i64,
-                span,
-            });
+            if value >= i64::MIN as f64 && value < i64::MAX as f64 {
+                return Some(Self::Int64 {
+                    value: value as i64,
+                    span,
+                });
+            }
         }
         Some(Self::Float32 {
             value: value as f32,
-- 
2.43.0


From 5b8d56a48cb47b4a31f3de71da5cfde02b0adbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:47 +0000
Subject: [PATCH 27/31] fix: keep a # at the start of a line that is not
 followed by a word

---
 libs/preprocessor/src/processor/directives.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/libs/preprocessor/src/processor/directives.rs b/libs/preprocessor/src/processor/directives.rs
index c999dd7..db28984 100644
--- a/libs/preprocessor/src/processor/directives.rs
+++ b/libs/preprocessor/src/processor/directives.rs
@@ -39,16 +39,13 @@ impl Processor {
         stream: &mut PeekMoreIterator<impl Iterator<Item = Arc<Token>>>,
         buffer: &mut Vec<Output>,
     ) -> Result<bool, Error> {
-        if let Some(token) = stream.peek() {
-            if token.symbol().is_directive() {
-                stream.next();
-                if let Some(command) = stream.peek() {
-                    if command.symbol().is_word() {
-                        self.directive_command(pragma, stream, buffer)?;
-                        return Ok(true);
-                    }
-                }
-            }
+        // a `#` that is not followed by a word is not a directive, it is left in the stream
+        if stream.peek().is_some_and(|t| t.symbol().is_directive())
+            && stream.peek_nth(1).is_some_and(|t| t.symbol().is_word())
+        {
+            stream.next();
+            self.directive_command(pragma, stream, buffer)?;
+            return Ok(true);
         }
         Ok(false)
     }
-- 
2.43.0


From b4759b107ccabbd73ea056e1f8ee7d9d5da82cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:03 +0000
Subject: [PATCH 28/31] fix: a line continuation behind a macro removes only
 the backslash

---
 libs/preprocessor/src/processor/mod.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/libs/preprocessor/src/processor/mod.rs b/libs/preprocessor/src/processor/mod.rs
index 01ebb14..33d39c6 100644
--- a/libs/preprocessor/src/processor/mod.rs
+++ b/libs/preprocessor/src/processor/mod.rs
@@ -309,13 +309,22 @@ impl Processor {
                     .last()
                     .is_some_and(|t| t.last_symbol().is_some_and(Symbol::is_escape))
             {
-                buffer.pop();
+                Self::pop_last(buffer);
                 return;
             }
             self.token_count += 1;
             buffer.push(Output::Direct(token));
         }
     }
+
+    /// Removes the last token, of a macro only its last token
+    fn pop_last(buffer: &mut Vec<Output>) {
+        if let Some(Output::Macro(_, inner)) = buffer.last_mut() {
+            Self::pop_last(inner);
+        } else {
+            buffer.pop();
+        }
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 4cab7e27d53bf9081f1b44cb5b0077da3d159e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:22:26 +0000
Subject: [PATCH 29/31] fix: write the P drive choice "require" under the name
 it is read by

---
 libs/common/src/config/pdrive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/common/src/config/pdrive.rs b/libs/common/src/config/pdrive.rs
index 5af2154..556df76 100644
--- a/libs/common/src/config/pdrive.rs
+++ b/libs/common/src/config/pdrive.rs
@@ -33,7 +33,7 @@ impl Serialize for PDriveOption {
         match self {
             Self::Disallow => serializer.serialize_str("disallow"),
             Self::Ignore => serializer.serialize_str("ignore"),
-            Self::Require => serializer.serialize_str("required"),
+            Self::Require => serializer.serialize_str("require"),
         }
     }
 }
-- 
2.43.0


From addf3f1e0d1fcb09426626c4fbfc7248d30609e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:22:26 +0000
Subject: [PATCH 30/31] fix: report a cycle of launch presets that does not go
 through the first one

---
 libs/common/src/config/project/hemtt/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libs/common/src/config/project/hemtt/mod.rs b/libs/common/src/config/project/hemtt/mod.rs
index 5ed768c..6789074 100644
--- a/libs/common/src/config/project/hemtt/mod.rs
+++ b/libs/common/src/config/project/hemtt/mod.rs
@@ -102,10 +102,12 @@ impl HemttSectionFile {
                     .into_iter()
                     .map(|(k, v)| {
                         let mut base = v;
+                        let mut seen = vec![k.clone()];
                         while let Some(extends) = &base.extends {
-                            if extends == &k {
-                                return Err(Error::LaunchConfigExtendsSelf(k));
+                            if seen.contains(extends) {
+                                return Err(Error::LaunchConfigExtendsSelf(extends.clone()));
                             }
+                            seen.push(extends.clone());
                             if let Some(extends) = launch_source.get(extends) {
                                 base = base.extend(extends.clone());
                             } else {
-- 
2.43.0


From daf75d2c31f1ae98dd4acf92a7afee4e96d0fb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:26:18 +0000
Subject: [PATCH 31/31] fix: a git_hash longer than the commit's name is no
 panic

---
 libs/common/src/config/project/version.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/common/src/config/project/version.rs b/libs/common/src/config/project/version.rs
index ddd6a98..51e7f04 100644
--- a/libs/common/src/config/project/version.rs
+++ b/libs/common/src/config/project/version.rs
@@ -43,7 +43,7 @@ impl VersionConfig {
             let repo = Repository::discover(".")?;
             let rev = repo.revparse_single("HEAD")?;
             let id = rev.id().to_string();
-            version.set_build(&id[0..length as usize]);
+            version.set_build(&id[0..id.len().min(length as usize)]);
         };
 
         unsafe {
-- 
2.43.0

