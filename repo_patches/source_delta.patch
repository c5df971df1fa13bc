From e207801017081f81afaf06fdcee6891fb1a69b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:11 +0000
Subject: [PATCH 01/41] fix: compute request argument positions and bounds
 correctly when parsing

Positions were cleared before the parsed request borrowed them, ignored the
argument length bytes, and an argument was accepted four bytes early.
---
 engine/src/command/request/context.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/engine/src/command/request/context.rs b/engine/src/command/request/context.rs
index d9b4997..d1e7b22 100644
--- a/engine/src/command/request/context.rs
+++ b/engine/src/command/request/context.rs
@@ -60,6 +60,12 @@ impl Context {
     }
 
     pub fn feed<'a>(&'a mut self, buf: &'a [u8]) -> Result<Option<Request<'a>>, ParseError> {
+        // The positions of the last request's arguments are borrowed by that
+        // request, so they can only be cleared once a new one is started.
+        if self.stage == Stage::Init {
+            self.reset();
+        }
+
         loop {
             let conclusion = {
                 // We need to do this check on the first iteration to make sure we
@@ -87,7 +93,7 @@ impl Context {
 
             match conclusion {
                 Conclusion::Finished((command_id, key_type)) => {
-                    self.reset();
+                    self.stage = Stage::Init;
 
                     return Ok(Some(Request {
                         buf: Cow::Borrowed(buf),
@@ -173,13 +179,16 @@ impl Context {
 
         let arg_len = u32::from_be_bytes(len_bytes) as usize;
 
-        if buf.get(self.idx..self.idx + arg_len).is_some() {
-            self.positions.push(self.idx + arg_len);
-        } else {
+        let end = self.idx + Self::ARG_LEN_BYTES + arg_len;
+
+        if buf.len() < end {
             return Ok(Conclusion::Incomplete);
         }
 
-        self.idx += 4 + arg_len;
+        // A position is the index of the last byte of an argument.
+        self.positions.push(end - 1);
+
+        self.idx = end;
 
         if self.positions.len() == argument_count as usize {
             Ok(Conclusion::Finished((command_id, key_type)))
-- 
2.43.0


From 9d0d320c23eb168b96970a116037eca9b7e0a233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:14 +0000
Subject: [PATCH 02/41] fix: parse the key type of requests from the byte
 following the command

---
 engine/src/command/request/context.rs | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/engine/src/command/request/context.rs b/engine/src/command/request/context.rs
index d1e7b22..07d11e6 100644
--- a/engine/src/command/request/context.rs
+++ b/engine/src/command/request/context.rs
@@ -114,32 +114,40 @@ impl Context {
             None => return Ok(Conclusion::Incomplete),
         };
 
-        // If the first bit is flipped, then this byte is denoting the type of
-        // key to work with. This means that byte idx 2 is the argument length.
+        // If the first bit is flipped, then the next byte is denoting the type
+        // of key to work with. This means that byte idx 2 is the argument
+        // count.
         //
-        // If the first bit is 0, then this byte is the argument length, and the
-        // type of key to work with is not a requirement.
-        let key_type = if byte >> 7 == 1 {
-            let key_type_id = byte >> 1;
+        // If the first bit is 0, then the next byte is the argument count, and
+        // the type of key to work with is not a requirement.
+        let typed = byte >> 7 == 1;
+
+        let command_id =
+            CommandId::try_from(byte & 0b0111_1111).map_err(|_| ParseError::CommandIdInvalid)?;
+
+        let key_type = if typed {
+            let key_type_id = match buf.get(1) {
+                Some(key_type_id) => *key_type_id,
+                None => return Ok(Conclusion::Incomplete),
+            };
 
             Some(KeyType::try_from(key_type_id).map_err(|_| ParseError::KeyTypeInvalid)?)
         } else {
             None
         };
 
-        let command_id = CommandId::try_from(byte).map_err(|_| ParseError::CommandIdInvalid)?;
+        self.idx = 1 + typed as usize;
 
         // If the command type is simple and has no arguments or keys, then
         // we can just return a successful command here.
         if command_id.is_simple() {
-            return Ok(Conclusion::Finished((command_id, None)));
+            return Ok(Conclusion::Finished((command_id, key_type)));
         }
 
         self.stage = Stage::Kind {
             command_id,
             key_type,
         };
-        self.idx = self.idx.wrapping_add(1);
 
         Ok(Conclusion::Next)
     }
-- 
2.43.0


From 4f6bc11828cd957309b5a2a761a3521ef04f184a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:15 +0000
Subject: [PATCH 03/41] fix: finish parsing requests with no arguments

---
 engine/src/command/request/context.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/engine/src/command/request/context.rs b/engine/src/command/request/context.rs
index 07d11e6..d5ab37d 100644
--- a/engine/src/command/request/context.rs
+++ b/engine/src/command/request/context.rs
@@ -163,12 +163,17 @@ impl Context {
             None => return Ok(Conclusion::Incomplete),
         };
 
+        self.idx = self.idx.saturating_add(1);
+
+        if argument_count == 0 {
+            return Ok(Conclusion::Finished((command_id, key_type)));
+        }
+
         self.stage = Stage::ArgumentParsing {
             argument_count,
             command_id,
             key_type,
         };
-        self.idx = self.idx.saturating_add(1);
 
         Ok(Conclusion::Next)
     }
-- 
2.43.0


From 5ad0bc9a8a546673310c73b89e5201c46a9bbe68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:15 +0000
Subject: [PATCH 04/41] fix: exclude the bytes following a request from the
 parsed request

---
 engine/src/command/request/context.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/engine/src/command/request/context.rs b/engine/src/command/request/context.rs
index d5ab37d..496fcaf 100644
--- a/engine/src/command/request/context.rs
+++ b/engine/src/command/request/context.rs
@@ -96,7 +96,9 @@ impl Context {
                     self.stage = Stage::Init;
 
                     return Ok(Some(Request {
-                        buf: Cow::Borrowed(buf),
+                        // The buffer may contain the bytes of requests to
+                        // come.
+                        buf: Cow::Borrowed(&buf[..self.idx]),
                         command_id,
                         key_type,
                         positions: Cow::Borrowed(&self.positions),
-- 
2.43.0


From 312251215149e65a858535e24ee1e381af7860c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:51 +0000
Subject: [PATCH 05/41] fix: return the number of remaining arguments from
 Arguments::len

---
 engine/src/command/request/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/src/command/request/mod.rs b/engine/src/command/request/mod.rs
index efa2a5f..0483451 100644
--- a/engine/src/command/request/mod.rs
+++ b/engine/src/command/request/mod.rs
@@ -101,7 +101,7 @@ pub struct Arguments<'a> {
 
 impl ExactSizeIterator for Arguments<'_> {
     fn len(&self) -> usize {
-        self.to
+        self.to.saturating_sub(self.idx)
     }
 }
 
-- 
2.43.0


From a8843b39dfec0b07c821533f12b1eb1fb4b3c0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:51 +0000
Subject: [PATCH 06/41] fix: reject arguments that do not fit in a request

The argument count is a u8, so a 256th argument overflowed it, and the checks
made for lists, maps and sets truncated their lengths.
---
 engine/src/command/request/builder.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/engine/src/command/request/builder.rs b/engine/src/command/request/builder.rs
index 47562eb..4640296 100644
--- a/engine/src/command/request/builder.rs
+++ b/engine/src/command/request/builder.rs
@@ -171,7 +171,7 @@ impl RequestBuilder {
             }
             Value::Integer(int) => self.push_argument(Cow::Borrowed(int.to_be_bytes().as_ref()))?,
             Value::List(list) => {
-                if self.arguments_would_overfill(list.len() as u8) {
+                if self.arguments_would_overfill(list.len()) {
                     return Err(RequestBuilderError::TooManyArguments);
                 }
 
@@ -184,7 +184,7 @@ impl RequestBuilder {
                 }
             }
             Value::Map(map) => {
-                if self.arguments_would_overfill(map.len() as u8) {
+                if self.arguments_would_overfill(map.len() * 2) {
                     return Err(RequestBuilderError::TooManyArguments);
                 }
 
@@ -198,7 +198,7 @@ impl RequestBuilder {
                 }
             }
             Value::Set(set) => {
-                if self.arguments_would_overfill(set.len() as u8) {
+                if self.arguments_would_overfill(set.len()) {
                     return Err(RequestBuilderError::TooManyArguments);
                 }
 
@@ -222,8 +222,15 @@ impl RequestBuilder {
         Ok(self)
     }
 
-    fn arguments_would_overfill(&self, amount: u8) -> bool {
-        self.argument_count.checked_add(amount).is_none()
+    fn arguments_would_overfill(&self, amount: usize) -> bool {
+        // Simple commands don't have an argument count.
+        let capacity = if self.command_id.is_simple() {
+            0
+        } else {
+            u8::MAX as usize
+        };
+
+        self.argument_count as usize + amount > capacity
     }
 
     fn update_count(&mut self) {
@@ -242,6 +249,10 @@ impl RequestBuilder {
         &mut self,
         argument: impl Into<Cow<'a, [u8]>>,
     ) -> Result<(), RequestBuilderError> {
+        if self.arguments_would_overfill(1) {
+            return Err(RequestBuilderError::TooManyArguments);
+        }
+
         let argument = argument.into();
         let argument_len = argument.len();
 
-- 
2.43.0


From 122fcd914dea34e98fc11d7f069e6b9be2bf5cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:52 +0000
Subject: [PATCH 07/41] fix: keep the argument count when building on an
 existing request

---
 engine/src/command/request/builder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/engine/src/command/request/builder.rs b/engine/src/command/request/builder.rs
index 4640296..6a40c84 100644
--- a/engine/src/command/request/builder.rs
+++ b/engine/src/command/request/builder.rs
@@ -288,6 +288,7 @@ impl RequestBuilder {
 impl From<Request<'_>> for RequestBuilder {
     fn from(request: Request) -> Self {
         let mut builder = Self::new_with_key_type(request.command_id, request.key_type);
+        builder.argument_count = request.arg_count() as u8;
         builder.buf = request.buf.into_owned();
         builder.positions = request.positions.into_owned();
 
-- 
2.43.0


From 3b9a4b6fe27da3149f3947774b03b8a1eb9013e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:53 +0000
Subject: [PATCH 08/41] fix: treat an empty key in a request as unspecified

Accessing an empty key in the state trips a debug assertion.
---
 engine/src/command/impl/append.rs | 2 +-
 engine/src/command/impl/rename.rs | 7 +++++--
 engine/src/command/request/mod.rs | 2 +-
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/engine/src/command/impl/append.rs b/engine/src/command/impl/append.rs
index ca7a76f..7581ccb 100644
--- a/engine/src/command/impl/append.rs
+++ b/engine/src/command/impl/append.rs
@@ -59,7 +59,7 @@ impl Append {
 
 impl Dispatch for Append {
     fn dispatch(hop: &Hop, req: &Request, resp: &mut Vec<u8>) -> DispatchResult<()> {
-        let key = req.arg(0).ok_or(DispatchError::KeyUnspecified)?;
+        let key = req.key().ok_or(DispatchError::KeyUnspecified)?;
         let args = req.args(1..).ok_or(DispatchError::ArgumentRetrieval)?;
         let key_type = req
             .key_type()
diff --git a/engine/src/command/impl/rename.rs b/engine/src/command/impl/rename.rs
index 45d6c8c..fee5785 100644
--- a/engine/src/command/impl/rename.rs
+++ b/engine/src/command/impl/rename.rs
@@ -10,8 +10,11 @@ impl Dispatch for Rename {
             return Err(DispatchError::KeyTypeUnexpected);
         }
 
-        let key = req.arg(0).ok_or(DispatchError::KeyUnspecified)?;
-        let arg = req.arg(1).ok_or(DispatchError::ArgumentRetrieval)?;
+        let key = req.key().ok_or(DispatchError::KeyUnspecified)?;
+        let arg = req
+            .arg(1)
+            .filter(|arg| !arg.is_empty())
+            .ok_or(DispatchError::ArgumentRetrieval)?;
         let state = hop.state();
 
         if !state.contains_key(key) {
diff --git a/engine/src/command/request/mod.rs b/engine/src/command/request/mod.rs
index 0483451..e111df0 100644
--- a/engine/src/command/request/mod.rs
+++ b/engine/src/command/request/mod.rs
@@ -191,7 +191,7 @@ impl<'a> Request<'a> {
             return None;
         }
 
-        self.arg(0)
+        self.arg(0).filter(|key| !key.is_empty())
     }
 
     /// Returns the requested type of key to work with, if any.
-- 
2.43.0


From bbde0a9cb157206af0348b01641b8916b93d81f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:17 +0000
Subject: [PATCH 09/41] fix: decode empty bytes, list and set responses

Empty bytes tripped a debug assertion, and an empty list or set response made
the decoder wait for bytes that are never sent.
---
 engine/src/command/response/context.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/engine/src/command/response/context.rs b/engine/src/command/response/context.rs
index ba018a7..fc1100e 100644
--- a/engine/src/command/response/context.rs
+++ b/engine/src/command/response/context.rs
@@ -390,11 +390,21 @@ impl Context {
             ResponseType::Bytes => {
                 let len = u32::from_be_bytes(bytes.try_into().unwrap());
 
+                if len == 0 {
+                    return Ok(Some(Instruction::Concluded(Response::Value(
+                        Value::bytes(),
+                    ))));
+                }
+
                 Stage::Bytes { len }
             }
             ResponseType::List => {
                 let len = u16::from_be_bytes(bytes.try_into().unwrap());
 
+                if len == 0 {
+                    return Ok(Some(Instruction::Concluded(Response::Value(Value::list()))));
+                }
+
                 Stage::List {
                     args: Vec::new(),
                     len,
@@ -415,6 +425,10 @@ impl Context {
             ResponseType::Set => {
                 let len = u16::from_be_bytes(bytes.try_into().unwrap());
 
+                if len == 0 {
+                    return Ok(Some(Instruction::Concluded(Response::Value(Value::set()))));
+                }
+
                 Stage::Set {
                     args: DashSet::new(),
                     len,
-- 
2.43.0


From 2f4d26d66a3c6e11d5d2c4baaea28b947cbb13e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:17 +0000
Subject: [PATCH 10/41] fix: return an error when decoding an unknown error
 response

---
 engine/src/command/response/context.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/engine/src/command/response/context.rs b/engine/src/command/response/context.rs
index fc1100e..e854d8f 100644
--- a/engine/src/command/response/context.rs
+++ b/engine/src/command/response/context.rs
@@ -215,7 +215,8 @@ impl Context {
             None => return Ok(Some(Instruction::ReadBytes(1))),
         };
 
-        let variant = DispatchError::try_from(byte).unwrap();
+        let variant =
+            DispatchError::try_from(byte).map_err(|_| ParseError::DispatchErrorInvalid)?;
 
         Ok(Some(Instruction::Concluded(Response::from(variant))))
     }
@@ -366,7 +367,8 @@ impl Context {
             None => return Ok(Some(Instruction::ReadBytes(1))),
         };
 
-        let variant = RequestParseError::try_from(byte).unwrap();
+        let variant =
+            RequestParseError::try_from(byte).map_err(|_| ParseError::ParseErrorInvalid)?;
 
         Ok(Some(Instruction::Concluded(Response::from(variant))))
     }
-- 
2.43.0


From 85940d2209ec30459157c368fa44c5b2c78c410d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:18 +0000
Subject: [PATCH 11/41] fix: calculate the bytes left to read of a response's
 length

The calculation underflowed when a response was shorter than its kind needs.
---
 engine/src/command/response/context.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/engine/src/command/response/context.rs b/engine/src/command/response/context.rs
index e854d8f..accfb10 100644
--- a/engine/src/command/response/context.rs
+++ b/engine/src/command/response/context.rs
@@ -383,7 +383,11 @@ impl Context {
 
         let bytes = match buf.get(self.idx..self.idx + read_len) {
             Some(bytes) => bytes,
-            None => return Ok(Some(Instruction::ReadBytes(read_len + 1 - buf.len()))),
+            None => {
+                let remaining = remaining_bytes(self.idx, buf.len(), read_len);
+
+                return Ok(Some(Instruction::ReadBytes(remaining)));
+            }
         };
 
         debug_assert_eq!(bytes.len(), read_len);
-- 
2.43.0


From 67511e0bc0062e3fc449055828e6cc13e1885e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:19 +0000
Subject: [PATCH 12/41] fix: insert a missing key atomically

Two concurrent commands could both find the key missing, and the insert of one
would then replace the value the other had already modified.
---
 engine/src/state/mod.rs | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/engine/src/state/mod.rs b/engine/src/state/mod.rs
index 7321ed8..d4f5a08 100755
--- a/engine/src/state/mod.rs
+++ b/engine/src/state/mod.rs
@@ -177,18 +177,7 @@ impl State {
 
         debug_assert!(!key.is_empty());
 
-        loop {
-            match self.0.get_mut(key) {
-                Some(v) => {
-                    break v;
-                }
-                None => {
-                    self.0.insert(key.to_owned(), f());
-
-                    continue;
-                }
-            }
-        }
+        self.0.entry(key.to_owned()).or_insert_with(f)
     }
 
     /// Retrieve the key type of a key's value, if it exists.
-- 
2.43.0


From c6836ec9f86b30a6f749845a86fa692bc2575820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:19 +0000
Subject: [PATCH 13/41] fix: check for a string in Value::is_string

---
 engine/src/state/value.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/src/state/value.rs b/engine/src/state/value.rs
index 2254b71..bc904c7 100644
--- a/engine/src/state/value.rs
+++ b/engine/src/state/value.rs
@@ -201,7 +201,7 @@ impl Value {
     }
 
     pub fn is_string(&self) -> bool {
-        matches!(self, Value::Boolean(_))
+        matches!(self, Value::String(_))
     }
 }
 
-- 
2.43.0


From fc47ee86a2983c60539a2551b1aac0819eee7fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:20 +0000
Subject: [PATCH 14/41] fix: create a float key when incrementing by a float

An integer key was created instead, and the command then failed.
---
 engine/src/command/impl/increment_by.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/src/command/impl/increment_by.rs b/engine/src/command/impl/increment_by.rs
index 7e042de..3b5a4f8 100644
--- a/engine/src/command/impl/increment_by.rs
+++ b/engine/src/command/impl/increment_by.rs
@@ -11,7 +11,7 @@ impl IncrementBy {
         amount: f64,
         resp: &mut Vec<u8>,
     ) -> DispatchResult<()> {
-        let mut key = hop.state().key_or_insert_with(key, Value::integer);
+        let mut key = hop.state().key_or_insert_with(key, Value::float);
         let float = key.as_float_mut().ok_or(DispatchError::KeyTypeDifferent)?;
 
         *float += amount;
-- 
2.43.0


From 5cf78b638cf7a1ac749b893a9d9f9bc9c05bcfd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:21 +0000
Subject: [PATCH 15/41] fix: wrap integers on overflow

Incrementing an integer past its bounds panicked in builds with overflow checks
and wrapped in those without.
---
 engine/src/command/impl/decrement_by.rs | 2 +-
 engine/src/command/impl/increment_by.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/engine/src/command/impl/decrement_by.rs b/engine/src/command/impl/decrement_by.rs
index da4aab2..b094bc1 100644
--- a/engine/src/command/impl/decrement_by.rs
+++ b/engine/src/command/impl/decrement_by.rs
@@ -12,7 +12,7 @@ impl Dispatch for DecrementBy {
         let key = req.key().ok_or(DispatchError::KeyUnspecified)?;
 
         if let Some(int) = req.typed_arg::<i64>(1) {
-            IncrementBy::increment_int_by(hop, key, 0 - int, resp)
+            IncrementBy::increment_int_by(hop, key, int.wrapping_neg(), resp)
         } else if let Some(float) = req.typed_arg::<f64>(1) {
             IncrementBy::increment_float_by(hop, key, 0f64 - float, resp)
         } else {
diff --git a/engine/src/command/impl/increment_by.rs b/engine/src/command/impl/increment_by.rs
index 3b5a4f8..7a7bc85 100644
--- a/engine/src/command/impl/increment_by.rs
+++ b/engine/src/command/impl/increment_by.rs
@@ -32,7 +32,7 @@ impl IncrementBy {
             .as_integer_mut()
             .ok_or(DispatchError::KeyTypeDifferent)?;
 
-        *int += amount;
+        *int = int.wrapping_add(amount);
 
         response::write_int(resp, *int);
 
-- 
2.43.0


From 825d7211bcc0fbb0337fb817e38d2ea46a818c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:11 +0000
Subject: [PATCH 16/41] fix: increment and decrement by floats when the float
 type is requested

An amount always converts to an integer, so a float amount was interpreted as
the integer with the same bytes.
---
 engine/src/command/impl/decrement_by.rs | 16 +++++++++++-----
 engine/src/command/impl/increment_by.rs | 15 ++++++++++-----
 2 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/engine/src/command/impl/decrement_by.rs b/engine/src/command/impl/decrement_by.rs
index b094bc1..de319a0 100644
--- a/engine/src/command/impl/decrement_by.rs
+++ b/engine/src/command/impl/decrement_by.rs
@@ -2,7 +2,7 @@ use super::{
     super::{Dispatch, DispatchError, DispatchResult, Request},
     increment_by::IncrementBy,
 };
-use crate::Hop;
+use crate::{state::KeyType, Hop};
 use alloc::vec::Vec;
 
 pub struct DecrementBy;
@@ -11,12 +11,18 @@ impl Dispatch for DecrementBy {
     fn dispatch(hop: &Hop, req: &Request, resp: &mut Vec<u8>) -> DispatchResult<()> {
         let key = req.key().ok_or(DispatchError::KeyUnspecified)?;
 
-        if let Some(int) = req.typed_arg::<i64>(1) {
-            IncrementBy::increment_int_by(hop, key, int.wrapping_neg(), resp)
-        } else if let Some(float) = req.typed_arg::<f64>(1) {
+        if req.key_type() == Some(KeyType::Float) {
+            let float = req
+                .typed_arg::<f64>(1)
+                .ok_or(DispatchError::ArgumentRetrieval)?;
+
             IncrementBy::increment_float_by(hop, key, 0f64 - float, resp)
         } else {
-            Err(DispatchError::ArgumentRetrieval)
+            let int = req
+                .typed_arg::<i64>(1)
+                .ok_or(DispatchError::ArgumentRetrieval)?;
+
+            IncrementBy::increment_int_by(hop, key, int.wrapping_neg(), resp)
         }
     }
 }
diff --git a/engine/src/command/impl/increment_by.rs b/engine/src/command/impl/increment_by.rs
index 7a7bc85..730fd78 100644
--- a/engine/src/command/impl/increment_by.rs
+++ b/engine/src/command/impl/increment_by.rs
@@ -1,5 +1,8 @@
 use super::super::{response, Dispatch, DispatchError, DispatchResult, Request};
-use crate::{state::Value, Hop};
+use crate::{
+    state::{KeyType, Value},
+    Hop,
+};
 use alloc::vec::Vec;
 
 pub struct IncrementBy;
@@ -44,12 +47,14 @@ impl Dispatch for IncrementBy {
     fn dispatch(hop: &Hop, req: &Request, resp: &mut Vec<u8>) -> DispatchResult<()> {
         let key = req.key().ok_or(DispatchError::KeyUnspecified)?;
 
-        if let Some(int) = req.typed_arg::<i64>(1) {
-            Self::increment_int_by(hop, key, int, resp)
-        } else if let Some(float) = req.typed_arg::<f64>(1) {
+        if req.key_type() == Some(KeyType::Float) {
+            let float = req.typed_arg(1).ok_or(DispatchError::ArgumentRetrieval)?;
+
             Self::increment_float_by(hop, key, float, resp)
         } else {
-            Err(DispatchError::ArgumentRetrieval)
+            let int = req.typed_arg(1).ok_or(DispatchError::ArgumentRetrieval)?;
+
+            Self::increment_int_by(hop, key, int, resp)
         }
     }
 }
-- 
2.43.0


From 7f38eb10d1139e39c985e3ccbc2fc0a9fbdfcee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:12 +0000
Subject: [PATCH 17/41] fix: increment and decrement float keys when no type is
 requested

Both commands are documented to work on float and integer keys, but errored on
a float key unless the float type was requested.
---
 engine/src/command/impl/decrement.rs    |  8 +++---
 engine/src/command/impl/decrement_by.rs | 10 +++++++-
 engine/src/command/impl/increment.rs    |  8 +++---
 engine/src/command/impl/increment_by.rs | 33 ++++++++++++++++++++++++-
 4 files changed, 49 insertions(+), 10 deletions(-)

diff --git a/engine/src/command/impl/decrement.rs b/engine/src/command/impl/decrement.rs
index 7056129..1c45b06 100644
--- a/engine/src/command/impl/decrement.rs
+++ b/engine/src/command/impl/decrement.rs
@@ -11,10 +11,10 @@ impl Dispatch for Decrement {
     fn dispatch(hop: &Hop, req: &Request, resp: &mut Vec<u8>) -> DispatchResult<()> {
         let key = req.key().ok_or(DispatchError::KeyUnspecified)?;
 
-        if req.key_type() == Some(KeyType::Float) {
-            IncrementBy::increment_float_by(hop, key, -1f64, resp)
-        } else {
-            IncrementBy::increment_int_by(hop, key, -1, resp)
+        match req.key_type() {
+            Some(KeyType::Float) => IncrementBy::increment_float_by(hop, key, -1f64, resp),
+            Some(_) => IncrementBy::increment_int_by(hop, key, -1, resp),
+            None => IncrementBy::increment_existing_by(hop, key, -1f64, -1, resp),
         }
     }
 }
diff --git a/engine/src/command/impl/decrement_by.rs b/engine/src/command/impl/decrement_by.rs
index de319a0..4f4ea03 100644
--- a/engine/src/command/impl/decrement_by.rs
+++ b/engine/src/command/impl/decrement_by.rs
@@ -22,7 +22,15 @@ impl Dispatch for DecrementBy {
                 .typed_arg::<i64>(1)
                 .ok_or(DispatchError::ArgumentRetrieval)?;
 
-            IncrementBy::increment_int_by(hop, key, int.wrapping_neg(), resp)
+            if req.key_type().is_some() {
+                return IncrementBy::increment_int_by(hop, key, int.wrapping_neg(), resp);
+            }
+
+            let float = req
+                .typed_arg::<f64>(1)
+                .ok_or(DispatchError::ArgumentRetrieval)?;
+
+            IncrementBy::increment_existing_by(hop, key, 0f64 - float, int.wrapping_neg(), resp)
         }
     }
 }
diff --git a/engine/src/command/impl/increment.rs b/engine/src/command/impl/increment.rs
index 1971901..c456da9 100644
--- a/engine/src/command/impl/increment.rs
+++ b/engine/src/command/impl/increment.rs
@@ -11,10 +11,10 @@ impl Dispatch for Increment {
     fn dispatch(hop: &Hop, req: &Request, resp: &mut Vec<u8>) -> DispatchResult<()> {
         let key = req.key().ok_or(DispatchError::KeyUnspecified)?;
 
-        if req.key_type() == Some(KeyType::Float) {
-            IncrementBy::increment_float_by(hop, key, 1f64, resp)
-        } else {
-            IncrementBy::increment_int_by(hop, key, 1, resp)
+        match req.key_type() {
+            Some(KeyType::Float) => IncrementBy::increment_float_by(hop, key, 1f64, resp),
+            Some(_) => IncrementBy::increment_int_by(hop, key, 1, resp),
+            None => IncrementBy::increment_existing_by(hop, key, 1f64, 1, resp),
         }
     }
 }
diff --git a/engine/src/command/impl/increment_by.rs b/engine/src/command/impl/increment_by.rs
index 730fd78..c14e217 100644
--- a/engine/src/command/impl/increment_by.rs
+++ b/engine/src/command/impl/increment_by.rs
@@ -8,6 +8,31 @@ use alloc::vec::Vec;
 pub struct IncrementBy;
 
 impl IncrementBy {
+    /// Increment by the amount fitting the kind of the key's value.
+    pub fn increment_existing_by(
+        hop: &Hop,
+        key: &[u8],
+        float_amount: f64,
+        int_amount: i64,
+        resp: &mut Vec<u8>,
+    ) -> DispatchResult<()> {
+        let mut key = hop.state().key_or_insert_with(key, Value::integer);
+
+        match key.value_mut() {
+            Value::Float(float) => {
+                *float += float_amount;
+                response::write_float(resp, *float);
+            }
+            Value::Integer(int) => {
+                *int = int.wrapping_add(int_amount);
+                response::write_int(resp, *int);
+            }
+            _ => return Err(DispatchError::KeyTypeDifferent),
+        }
+
+        Ok(())
+    }
+
     pub fn increment_float_by(
         hop: &Hop,
         key: &[u8],
@@ -54,7 +79,13 @@ impl Dispatch for IncrementBy {
         } else {
             let int = req.typed_arg(1).ok_or(DispatchError::ArgumentRetrieval)?;
 
-            Self::increment_int_by(hop, key, int, resp)
+            if req.key_type().is_some() {
+                return Self::increment_int_by(hop, key, int, resp);
+            }
+
+            let float = req.typed_arg(1).ok_or(DispatchError::ArgumentRetrieval)?;
+
+            Self::increment_existing_by(hop, key, float, int, resp)
         }
     }
 }
-- 
2.43.0


From 8c7dcee8205605626ac3a39dbb59fbcebba00aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:12 +0000
Subject: [PATCH 18/41] fix: set the value of a key atomically

The old value was removed before the new one was inserted, so the key was
missing in between, and a concurrent command could recreate it with a different
type. The type of a key set without a requested type could change as well.
---
 engine/src/command/impl/set.rs | 161 +++++++--------------------------
 1 file changed, 35 insertions(+), 126 deletions(-)

diff --git a/engine/src/command/impl/set.rs b/engine/src/command/impl/set.rs
index 633e836..fb28102 100644
--- a/engine/src/command/impl/set.rs
+++ b/engine/src/command/impl/set.rs
@@ -8,117 +8,21 @@ use alloc::{borrow::ToOwned, vec::Vec};
 pub struct Set;
 
 impl Set {
-    fn boolean(hop: &Hop, req: &Request, resp: &mut Vec<u8>, key: &[u8]) -> DispatchResult<()> {
-        let arg = req.typed_arg(1).ok_or(DispatchError::ArgumentRetrieval)?;
-        hop.state().remove(key);
-        let mut key = hop.state().key_or_insert_with(key, Value::boolean);
-        let boolean = key
-            .as_boolean_mut()
-            .ok_or(DispatchError::KeyTypeDifferent)?;
-
-        *boolean = arg;
-
-        response::write_bool(resp, arg);
-
-        Ok(())
-    }
-
-    fn bytes(hop: &Hop, req: &Request, resp: &mut Vec<u8>, key: &[u8]) -> DispatchResult<()> {
-        let arg = req
-            .typed_arg::<&[u8]>(1)
-            .ok_or(DispatchError::ArgumentRetrieval)?;
-        hop.state().remove(key);
-        let mut key = hop.state().key_or_insert_with(key, Value::bytes);
-        let bytes = key.as_bytes_mut().ok_or(DispatchError::KeyTypeDifferent)?;
-
-        *bytes = arg.to_vec();
-
-        response::write_bytes(resp, arg);
-
-        Ok(())
-    }
-
-    fn float(hop: &Hop, req: &Request, resp: &mut Vec<u8>, key: &[u8]) -> DispatchResult<()> {
-        let arg = req.typed_arg(1).ok_or(DispatchError::ArgumentRetrieval)?;
-        hop.state().remove(key);
-        let mut key = hop.state().key_or_insert_with(key, Value::float);
-        let float = key.as_float_mut().ok_or(DispatchError::KeyTypeDifferent)?;
-
-        *float = arg;
-
-        response::write_float(resp, arg);
-
-        Ok(())
-    }
-
-    fn integer(hop: &Hop, req: &Request, resp: &mut Vec<u8>, key: &[u8]) -> DispatchResult<()> {
-        let arg = req.typed_arg(1).ok_or(DispatchError::ArgumentRetrieval)?;
-        hop.state().remove(key);
-        let mut key = hop.state().key_or_insert_with(key, Value::integer);
-        let int = key
-            .as_integer_mut()
-            .ok_or(DispatchError::KeyTypeDifferent)?;
-
-        *int = arg;
-
-        response::write_int(resp, arg);
-
-        Ok(())
-    }
-
-    fn list(hop: &Hop, req: &Request, resp: &mut Vec<u8>, key: &[u8]) -> DispatchResult<()> {
-        let args = req.args(1..).ok_or(DispatchError::ArgumentRetrieval)?;
-        hop.state().remove(key);
-        let mut key = hop.state().key_or_insert_with(key, Value::list);
-        let list = key.as_list_mut().ok_or(DispatchError::KeyTypeDifferent)?;
-
-        *list = args.map(ToOwned::to_owned).collect();
-        let args = req.args(1..).ok_or(DispatchError::ArgumentRetrieval)?;
-
-        response::write_list(resp, args);
-
-        Ok(())
-    }
-
-    fn map(hop: &Hop, req: &Request, resp: &mut Vec<u8>, key: &[u8]) -> DispatchResult<()> {
-        let args = req.typed_args().ok_or(DispatchError::ArgumentRetrieval)?;
-        hop.state().remove(key);
-        let mut key = hop.state().key_or_insert_with(key, Value::map);
-        let map = key.as_map_mut().ok_or(DispatchError::KeyTypeDifferent)?;
-
-        response::write_map(resp, &args);
-
-        *map = args;
-
-        Ok(())
-    }
-
-    fn set(hop: &Hop, req: &Request, resp: &mut Vec<u8>, key: &[u8]) -> DispatchResult<()> {
-        let args = req.typed_args().ok_or(DispatchError::ArgumentRetrieval)?;
-        hop.state().remove(key);
-        let mut key = hop.state().key_or_insert_with(key, Value::set);
-        let set = key.as_set_mut().ok_or(DispatchError::KeyTypeDifferent)?;
-
-        response::write_set(resp, &args);
-
-        *set = args;
-
-        Ok(())
-    }
-
-    fn string(hop: &Hop, req: &Request, resp: &mut Vec<u8>, key: &[u8]) -> DispatchResult<()> {
-        let arg = req
-            .typed_arg::<&str>(1)
-            .ok_or(DispatchError::ArgumentRetrieval)?;
-        hop.state().remove(key);
-        let mut key = hop.state().key_or_insert_with(key, Value::string);
-        let string = key.as_string_mut().ok_or(DispatchError::KeyTypeDifferent)?;
-
-        *string = arg.to_owned();
-
-        response::write_str(resp, arg);
-
-        Ok(())
+    fn value(req: &Request, key_type: KeyType) -> DispatchResult<Value> {
+        let value = match key_type {
+            KeyType::Bytes => req.typed_arg(1).map(<[u8]>::to_vec).map(Value::Bytes),
+            KeyType::Boolean => req.typed_arg(1).map(Value::Boolean),
+            KeyType::Float => req.typed_arg(1).map(Value::Float),
+            KeyType::Integer => req.typed_arg(1).map(Value::Integer),
+            KeyType::List => req
+                .args(1..)
+                .map(|args| Value::List(args.map(ToOwned::to_owned).collect())),
+            KeyType::Map => req.typed_args().map(Value::Map),
+            KeyType::Set => req.typed_args().map(Value::Set),
+            KeyType::String => req.typed_arg(1).map(str::to_owned).map(Value::String),
+        };
+
+        value.ok_or(DispatchError::ArgumentRetrieval)
     }
 }
 
@@ -131,21 +35,26 @@ impl Dispatch for Set {
             return Err(DispatchError::ArgumentRetrieval);
         }
 
-        let key_type = req
-            .key_type()
-            .or_else(|| hop.state().key_type(key))
-            .unwrap_or(KeyType::Bytes);
-
-        match key_type {
-            KeyType::Bytes => Self::bytes(hop, req, resp, key),
-            KeyType::Boolean => Self::boolean(hop, req, resp, key),
-            KeyType::Float => Self::float(hop, req, resp, key),
-            KeyType::Integer => Self::integer(hop, req, resp, key),
-            KeyType::List => Self::list(hop, req, resp, key),
-            KeyType::Map => Self::map(hop, req, resp, key),
-            KeyType::Set => Self::set(hop, req, resp, key),
-            KeyType::String => Self::string(hop, req, resp, key),
-        }
+        // A key without a value is always settable to bytes, so inserting the
+        // default can't be left behind by an argument of the wrong type.
+        let (mut current, value) = match req.key_type() {
+            Some(key_type) => {
+                let value = Self::value(req, key_type)?;
+
+                (hop.state().key_or_insert_with(key, Value::bytes), value)
+            }
+            None => {
+                let current = hop.state().key_or_insert_with(key, Value::bytes);
+                let value = Self::value(req, current.kind())?;
+
+                (current, value)
+            }
+        };
+
+        response::write_value(resp, &value);
+        *current = value;
+
+        Ok(())
     }
 }
 
-- 
2.43.0


From 4fd3759669ae532c7c0daa4ebfca53a3e53c5d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:35 +0000
Subject: [PATCH 19/41] fix: determine the type to append to while holding the
 key

The key could be replaced by one of a different type before it was appended to,
making an append without a requested type fail.
---
 engine/src/command/impl/append.rs | 33 ++++++++++++++-----------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/engine/src/command/impl/append.rs b/engine/src/command/impl/append.rs
index 7581ccb..95db7aa 100644
--- a/engine/src/command/impl/append.rs
+++ b/engine/src/command/impl/append.rs
@@ -12,8 +12,7 @@ use core::str;
 pub struct Append;
 
 impl Append {
-    fn bytes(hop: &Hop, args: Arguments<'_>, resp: &mut Vec<u8>, key: &[u8]) -> DispatchResult<()> {
-        let mut key = hop.state().key_or_insert_with(key, Value::bytes);
+    fn bytes(args: Arguments<'_>, resp: &mut Vec<u8>, key: &mut Value) -> DispatchResult<()> {
         let bytes = key.as_bytes_mut().ok_or(DispatchError::KeyTypeDifferent)?;
 
         for arg in args {
@@ -25,8 +24,7 @@ impl Append {
         Ok(())
     }
 
-    fn list(hop: &Hop, args: Arguments<'_>, resp: &mut Vec<u8>, key: &[u8]) -> DispatchResult<()> {
-        let mut key = hop.state().key_or_insert_with(key, Value::list);
+    fn list(args: Arguments<'_>, resp: &mut Vec<u8>, key: &mut Value) -> DispatchResult<()> {
         let list = key.as_list_mut().ok_or(DispatchError::KeyTypeDifferent)?;
 
         list.append(&mut args.map(ToOwned::to_owned).collect());
@@ -36,13 +34,7 @@ impl Append {
         Ok(())
     }
 
-    fn string(
-        hop: &Hop,
-        args: Arguments<'_>,
-        resp: &mut Vec<u8>,
-        key: &[u8],
-    ) -> DispatchResult<()> {
-        let mut key = hop.state().key_or_insert_with(key, Value::string);
+    fn string(args: Arguments<'_>, resp: &mut Vec<u8>, key: &mut Value) -> DispatchResult<()> {
         let string = key.as_string_mut().ok_or(DispatchError::KeyTypeDifferent)?;
 
         for arg in args {
@@ -61,15 +53,20 @@ impl Dispatch for Append {
     fn dispatch(hop: &Hop, req: &Request, resp: &mut Vec<u8>) -> DispatchResult<()> {
         let key = req.key().ok_or(DispatchError::KeyUnspecified)?;
         let args = req.args(1..).ok_or(DispatchError::ArgumentRetrieval)?;
-        let key_type = req
-            .key_type()
-            .or_else(|| hop.state().key_type(key))
-            .unwrap_or(KeyType::Bytes);
+        let default = match req.key_type() {
+            None | Some(KeyType::Bytes) => Value::bytes,
+            Some(KeyType::List) => Value::list,
+            Some(KeyType::String) => Value::string,
+            Some(_) => return Err(DispatchError::KeyTypeDifferent),
+        };
+
+        let mut key = hop.state().key_or_insert_with(key, default);
+        let key_type = req.key_type().unwrap_or_else(|| key.kind());
 
         match key_type {
-            KeyType::Bytes => Self::bytes(hop, args, resp, key),
-            KeyType::List => Self::list(hop, args, resp, key),
-            KeyType::String => Self::string(hop, args, resp, key),
+            KeyType::Bytes => Self::bytes(args, resp, &mut key),
+            KeyType::List => Self::list(args, resp, &mut key),
+            KeyType::String => Self::string(args, resp, &mut key),
             _ => Err(DispatchError::KeyTypeDifferent),
         }
     }
-- 
2.43.0


From db4e46131a885475c54e20c85db56bdadc2a90e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:36 +0000
Subject: [PATCH 20/41] fix: determine the type of a key's value while holding
 the key

The key could be replaced by one of a different type before its length or keys
were read, making a command without a requested type fail.
---
 engine/src/command/impl/keys.rs   | 28 +++++++------
 engine/src/command/impl/length.rs | 65 +++++++++++++------------------
 2 files changed, 44 insertions(+), 49 deletions(-)

diff --git a/engine/src/command/impl/keys.rs b/engine/src/command/impl/keys.rs
index bfc3ff7..859ed5d 100644
--- a/engine/src/command/impl/keys.rs
+++ b/engine/src/command/impl/keys.rs
@@ -1,15 +1,14 @@
 use super::super::{response, Dispatch, DispatchError, DispatchResult, Request};
-use crate::{state::KeyType, Hop};
+use crate::{
+    state::{KeyType, Value},
+    Hop,
+};
 use alloc::vec::Vec;
 
 pub struct Keys;
 
 impl Keys {
-    fn map(hop: &Hop, key: &[u8], resp: &mut Vec<u8>) -> DispatchResult<()> {
-        let key = hop
-            .state()
-            .key_ref(key)
-            .ok_or(DispatchError::KeyNonexistent)?;
+    fn map(key: &Value, resp: &mut Vec<u8>) -> DispatchResult<()> {
         let map = key.as_map_ref().ok_or(DispatchError::KeyTypeDifferent)?;
         let iter = map.iter().map(|r| r.key().to_vec());
 
@@ -22,13 +21,18 @@ impl Keys {
 impl Dispatch for Keys {
     fn dispatch(hop: &Hop, req: &Request, resp: &mut Vec<u8>) -> DispatchResult<()> {
         let key = req.key().ok_or(DispatchError::KeyUnspecified)?;
-        let key_type = req
-            .key_type()
-            .or_else(|| hop.state().key_type(key))
-            .unwrap_or(KeyType::Map);
 
-        match key_type {
-            KeyType::Map => Self::map(hop, key, resp),
+        if req.key_type().map_or(false, |kind| kind != KeyType::Map) {
+            return Err(DispatchError::KeyTypeInvalid);
+        }
+
+        let key = hop
+            .state()
+            .key_ref(key)
+            .ok_or(DispatchError::KeyNonexistent)?;
+
+        match req.key_type().unwrap_or_else(|| key.kind()) {
+            KeyType::Map => Self::map(&key, resp),
             _ => Err(DispatchError::KeyTypeInvalid),
         }
     }
diff --git a/engine/src/command/impl/length.rs b/engine/src/command/impl/length.rs
index f68781b..b592a70 100644
--- a/engine/src/command/impl/length.rs
+++ b/engine/src/command/impl/length.rs
@@ -1,15 +1,14 @@
 use super::super::{response, Dispatch, DispatchError, DispatchResult, Request};
-use crate::{state::KeyType, Hop};
+use crate::{
+    state::{KeyType, Value},
+    Hop,
+};
 use alloc::vec::Vec;
 
 pub struct Length;
 
 impl Length {
-    fn bytes(hop: &Hop, key: &[u8], resp: &mut Vec<u8>) -> DispatchResult<()> {
-        let key = hop
-            .state()
-            .key_ref(key)
-            .ok_or(DispatchError::KeyNonexistent)?;
+    fn bytes(key: &Value, resp: &mut Vec<u8>) -> DispatchResult<()> {
         let bytes = key.as_bytes_ref().ok_or(DispatchError::KeyTypeDifferent)?;
 
         response::write_int(resp, bytes.len() as i64);
@@ -17,11 +16,7 @@ impl Length {
         Ok(())
     }
 
-    fn list(hop: &Hop, key: &[u8], resp: &mut Vec<u8>) -> DispatchResult<()> {
-        let key = hop
-            .state()
-            .key_ref(key)
-            .ok_or(DispatchError::KeyNonexistent)?;
+    fn list(key: &Value, resp: &mut Vec<u8>) -> DispatchResult<()> {
         let list = key.as_list_ref().ok_or(DispatchError::KeyTypeDifferent)?;
 
         response::write_int(resp, list.len() as i64);
@@ -29,11 +24,7 @@ impl Length {
         Ok(())
     }
 
-    fn map(hop: &Hop, key: &[u8], resp: &mut Vec<u8>) -> DispatchResult<()> {
-        let key = hop
-            .state()
-            .key_ref(key)
-            .ok_or(DispatchError::KeyNonexistent)?;
+    fn map(key: &Value, resp: &mut Vec<u8>) -> DispatchResult<()> {
         let map = key.as_map_ref().ok_or(DispatchError::KeyTypeDifferent)?;
 
         response::write_int(resp, map.len() as i64);
@@ -41,11 +32,7 @@ impl Length {
         Ok(())
     }
 
-    fn set(hop: &Hop, key: &[u8], resp: &mut Vec<u8>) -> DispatchResult<()> {
-        let key = hop
-            .state()
-            .key_ref(key)
-            .ok_or(DispatchError::KeyNonexistent)?;
+    fn set(key: &Value, resp: &mut Vec<u8>) -> DispatchResult<()> {
         let set = key.as_set_ref().ok_or(DispatchError::KeyTypeDifferent)?;
 
         response::write_int(resp, set.len() as i64);
@@ -53,11 +40,7 @@ impl Length {
         Ok(())
     }
 
-    fn string(hop: &Hop, key: &[u8], resp: &mut Vec<u8>) -> DispatchResult<()> {
-        let key = hop
-            .state()
-            .key_ref(key)
-            .ok_or(DispatchError::KeyNonexistent)?;
+    fn string(key: &Value, resp: &mut Vec<u8>) -> DispatchResult<()> {
         let string = key.as_string_ref().ok_or(DispatchError::KeyTypeDifferent)?;
 
         response::write_int(resp, string.chars().count() as i64);
@@ -69,17 +52,25 @@ impl Length {
 impl Dispatch for Length {
     fn dispatch(hop: &Hop, req: &Request, resp: &mut Vec<u8>) -> DispatchResult<()> {
         let key = req.key().ok_or(DispatchError::KeyUnspecified)?;
-        let key_type = req
-            .key_type()
-            .or_else(|| hop.state().key_type(key))
-            .unwrap_or(KeyType::Bytes);
-
-        match key_type {
-            KeyType::Bytes => Self::bytes(hop, key, resp),
-            KeyType::List => Self::list(hop, key, resp),
-            KeyType::Map => Self::map(hop, key, resp),
-            KeyType::Set => Self::set(hop, key, resp),
-            KeyType::String => Self::string(hop, key, resp),
+
+        match req.key_type() {
+            Some(KeyType::Boolean) | Some(KeyType::Float) | Some(KeyType::Integer) => {
+                return Err(DispatchError::KeyTypeInvalid);
+            }
+            _ => {}
+        }
+
+        let key = hop
+            .state()
+            .key_ref(key)
+            .ok_or(DispatchError::KeyNonexistent)?;
+
+        match req.key_type().unwrap_or_else(|| key.kind()) {
+            KeyType::Bytes => Self::bytes(&key, resp),
+            KeyType::List => Self::list(&key, resp),
+            KeyType::Map => Self::map(&key, resp),
+            KeyType::Set => Self::set(&key, resp),
+            KeyType::String => Self::string(&key, resp),
             _ => Err(DispatchError::KeyTypeInvalid),
         }
     }
-- 
2.43.0


From 9b53f46b3f7a2b3a6916d78e7f6579b5037a260b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:06 +0000
Subject: [PATCH 21/41] fix: never overwrite or lose a value when renaming

Another command could create either key after it was checked, whose value the
rename then replaced.
---
 engine/src/command/impl/rename.rs | 10 ++++++++--
 engine/src/state/mod.rs           | 18 +++++++++++++++++-
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/engine/src/command/impl/rename.rs b/engine/src/command/impl/rename.rs
index fee5785..e0acc6e 100644
--- a/engine/src/command/impl/rename.rs
+++ b/engine/src/command/impl/rename.rs
@@ -25,8 +25,14 @@ impl Dispatch for Rename {
             return Err(DispatchError::PreconditionFailed);
         }
 
-        let (_, v) = state.remove(key).ok_or(DispatchError::KeyNonexistent)?;
-        state.insert(arg.to_vec(), v);
+        let (k, v) = state.remove(key).ok_or(DispatchError::KeyNonexistent)?;
+
+        // Either key may have been created by another command in the meantime.
+        if let Some(v) = state.insert_vacant(arg.to_vec(), v) {
+            state.insert_vacant(k, v);
+
+            return Err(DispatchError::PreconditionFailed);
+        }
 
         response::write_bytes(resp, arg);
 
diff --git a/engine/src/state/mod.rs b/engine/src/state/mod.rs
index d4f5a08..152f6c8 100755
--- a/engine/src/state/mod.rs
+++ b/engine/src/state/mod.rs
@@ -5,7 +5,10 @@ pub use self::value::Value;
 use alloc::{borrow::ToOwned, string::String, sync::Arc, vec::Vec};
 use core::convert::TryFrom;
 use dashmap::{
-    mapref::one::{Ref, RefMut},
+    mapref::{
+        entry::Entry,
+        one::{Ref, RefMut},
+    },
     DashMap,
 };
 
@@ -87,6 +90,19 @@ impl State {
         self.0.insert(key, value)
     }
 
+    /// Insert a value by key only if the key isn't taken, otherwise returning
+    /// the value that couldn't be inserted.
+    pub(crate) fn insert_vacant(&self, key: Vec<u8>, value: Value) -> Option<Value> {
+        match self.0.entry(key) {
+            Entry::Occupied(_) => Some(value),
+            Entry::Vacant(entry) => {
+                entry.insert(value);
+
+                None
+            }
+        }
+    }
+
     /// Remove a value by key, returning both the owned key and value if
     /// present.
     ///
-- 
2.43.0


From 2af2c9710fa9c557d87572e13503bfd06d395a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:07 +0000
Subject: [PATCH 22/41] fix: allocate session IDs atomically

Concurrently added sessions could be assigned the same ID, and adding a session
panicked if its ID was still in use after the counter wrapped around.
---
 engine/src/session/manager.rs | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/engine/src/session/manager.rs b/engine/src/session/manager.rs
index 1516c15..564b2c8 100644
--- a/engine/src/session/manager.rs
+++ b/engine/src/session/manager.rs
@@ -27,22 +27,17 @@ impl SessionManager {
     }
 
     pub fn add(&mut self, client_token: [u8; 32]) -> RefMut<'_, u32, Session> {
-        let session = Session::new(client_token, self.next_id());
+        loop {
+            let id = self.next_id();
 
-        let value = match self.0.sessions.entry(self.next_id()) {
-            Entry::Occupied(_) => {
-                unreachable!();
-            }
-            Entry::Vacant(v) => v.insert(session),
-        };
-
-        self.0.metrics_writer.increment(Metric::SessionsStarted);
+            if let Entry::Vacant(v) = self.0.sessions.entry(id) {
+                let value = v.insert(Session::new(client_token, id));
 
-        self.0
-            .next_id
-            .store(self.next_id().wrapping_add(1), Ordering::SeqCst);
+                self.0.metrics_writer.increment(Metric::SessionsStarted);
 
-        value
+                return value;
+            }
+        }
     }
 
     pub fn remove(&self, id: u32) -> bool {
@@ -50,7 +45,7 @@ impl SessionManager {
     }
 
     fn next_id(&self) -> u32 {
-        self.0.next_id.load(Ordering::SeqCst)
+        self.0.next_id.fetch_add(1, Ordering::SeqCst)
     }
 }
 
-- 
2.43.0


From ca974215a7199b7b8f3dac8b3b23fcea57b8a10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:08 +0000
Subject: [PATCH 23/41] fix: count and report ended sessions

---
 engine/src/command/impl/stats.rs | 1 +
 engine/src/session/manager.rs    | 8 +++++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/engine/src/command/impl/stats.rs b/engine/src/command/impl/stats.rs
index 48e8db5..8126561 100644
--- a/engine/src/command/impl/stats.rs
+++ b/engine/src/command/impl/stats.rs
@@ -11,6 +11,7 @@ impl Stats {
     const COUNTERS: &'static [Metric] = &[
         Metric::CommandsErrored,
         Metric::CommandsSuccessful,
+        Metric::SessionsEnded,
         Metric::SessionsStarted,
     ];
 }
diff --git a/engine/src/session/manager.rs b/engine/src/session/manager.rs
index 564b2c8..de8a475 100644
--- a/engine/src/session/manager.rs
+++ b/engine/src/session/manager.rs
@@ -41,7 +41,13 @@ impl SessionManager {
     }
 
     pub fn remove(&self, id: u32) -> bool {
-        self.0.sessions.remove(&id).is_some()
+        let removed = self.0.sessions.remove(&id).is_some();
+
+        if removed {
+            self.0.metrics_writer.increment(Metric::SessionsEnded);
+        }
+
+        removed
     }
 
     fn next_id(&self) -> u32 {
-- 
2.43.0


From 61923f34202bb16e7ad443fae21c3d257fdd0acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:08 +0000
Subject: [PATCH 24/41] fix: allow multiple sessions to subscribe to a key

Only the first session to subscribe to a key was recorded in the set of the
key's sessions, and the others were told they were already subscribed.
---
 engine/src/pubsub/manager.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/engine/src/pubsub/manager.rs b/engine/src/pubsub/manager.rs
index 2c04fde..34f1726 100644
--- a/engine/src/pubsub/manager.rs
+++ b/engine/src/pubsub/manager.rs
@@ -40,15 +40,13 @@ impl PubSubManager {
             }
         };
 
-        match self.0.keys.entry(object_key) {
-            Entry::Occupied(_) => None,
-            Entry::Vacant(v) => {
-                let set = v.insert(DashSet::new());
-                set.insert(session_id);
+        self.0
+            .keys
+            .entry(object_key)
+            .or_default()
+            .insert(session_id);
 
-                Some(subscription)
-            }
-        }
+        Some(subscription)
     }
 
     /// Unsubscribes a session by ID from an object key.
-- 
2.43.0


From ae04b92f28b3b20d21f898cf0b8d234e9c08f935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:09 +0000
Subject: [PATCH 25/41] fix: forget the subscriptions of a removed session

The session was left in the sets of its keys' sessions, so unsubscribing from
them afterwards reported success.
---
 engine/src/pubsub/manager.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/engine/src/pubsub/manager.rs b/engine/src/pubsub/manager.rs
index 34f1726..8b78235 100644
--- a/engine/src/pubsub/manager.rs
+++ b/engine/src/pubsub/manager.rs
@@ -80,11 +80,19 @@ impl PubSubManager {
             .sessions
             .remove(&session_id)
             .map(|(_, subscriptions)| {
-                for (_, sub) in subscriptions.into_iter() {
+                let subscribed = !subscriptions.is_empty();
+
+                for (key, sub) in subscriptions.into_iter() {
+                    if let Some(sessions) = self.0.keys.get(&key) {
+                        sessions.remove(&session_id);
+                    }
+
                     sub.close();
                 }
+
+                subscribed
             })
-            .is_some()
+            .unwrap_or(false)
     }
 }
 
-- 
2.43.0


From 2595745119f90c88f69745fa8a019761620bdac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:50 +0000
Subject: [PATCH 26/41] fix: read responses from the server

The buffer to read into was always empty, so every request failed with a closed
connection. A response that can't be decoded panicked.
---
 client/src/backend/server.rs | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/client/src/backend/server.rs b/client/src/backend/server.rs
index 9cb7484..74c3b4b 100644
--- a/client/src/backend/server.rs
+++ b/client/src/backend/server.rs
@@ -15,7 +15,10 @@ use hop_engine::{
     },
     state::{KeyType, Value},
 };
-use std::{error::Error as StdError, io::Error as IoError};
+use std::{
+    error::Error as StdError,
+    io::{Error as IoError, ErrorKind as IoErrorKind},
+};
 use tokio::{
     io::{AsyncReadExt, AsyncWriteExt, BufReader},
     net::{
@@ -123,21 +126,12 @@ impl ServerBackend {
             .map_err(|source| Error::WritingMessage { source })?;
 
         let mut ctx = Context::new();
-        let mut resp = Vec::with_capacity(1);
+        let mut resp = Vec::new();
 
         let mut reader = self.reader.lock().await;
 
         loop {
-            let read_amount = reader
-                .read_exact(&mut resp)
-                .await
-                .map_err(|source| Error::ReadingMessage { source })?;
-
-            if read_amount == 0 {
-                return Err(Error::ConnectionClosed);
-            }
-
-            match ctx.feed(&resp).unwrap() {
+            match ctx.feed(&resp).map_err(|_| Error::BadResponse)? {
                 Instruction::Concluded(response) => {
                     return match response {
                         Response::Value(value) => Ok(value),
@@ -146,7 +140,16 @@ impl ServerBackend {
                     }
                 }
                 Instruction::ReadBytes(bytes) => {
-                    resp.reserve_exact(bytes);
+                    let start = resp.len();
+                    resp.resize(start + bytes, 0);
+
+                    reader
+                        .read_exact(&mut resp[start..])
+                        .await
+                        .map_err(|source| match source.kind() {
+                            IoErrorKind::UnexpectedEof => Error::ConnectionClosed,
+                            _ => Error::ReadingMessage { source },
+                        })?;
                 }
             }
         }
-- 
2.43.0


From a517310a9418279a0d3dbc60aa3666ce32381ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:51 +0000
Subject: [PATCH 27/41] fix: wait for the response of the request that was sent

The reader was locked after sending a request, so with concurrent requests one
could read the response of another.
---
 client/src/backend/server.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/client/src/backend/server.rs b/client/src/backend/server.rs
index 74c3b4b..7b2b5cc 100644
--- a/client/src/backend/server.rs
+++ b/client/src/backend/server.rs
@@ -118,6 +118,10 @@ impl ServerBackend {
     }
 
     async fn send_and_wait(&self, request: impl Into<Request<'_>>) -> Result<Value> {
+        // Responses are in the order of the requests, so the reader needs to be
+        // locked for as long as it takes to send a request and read its response.
+        let mut reader = self.reader.lock().await;
+
         self.writer
             .lock()
             .await
@@ -128,8 +132,6 @@ impl ServerBackend {
         let mut ctx = Context::new();
         let mut resp = Vec::new();
 
-        let mut reader = self.reader.lock().await;
-
         loop {
             match ctx.feed(&resp).map_err(|_| Error::BadResponse)? {
                 Instruction::Concluded(response) => {
-- 
2.43.0


From f1a1bc711328addfb1686b5973e6491e68ca4f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:52 +0000
Subject: [PATCH 28/41] fix: don't use a connection with an unread response

A request that was dropped or failed before its response was read left that
response to be read by the next request.
---
 client/src/backend/server.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/client/src/backend/server.rs b/client/src/backend/server.rs
index 7b2b5cc..4a310fc 100644
--- a/client/src/backend/server.rs
+++ b/client/src/backend/server.rs
@@ -97,9 +97,16 @@ impl From<RequestBuilderError> for Error {
     }
 }
 
+#[derive(Debug)]
+struct Reader {
+    inner: BufReader<OwnedReadHalf>,
+    // Whether a request was sent that the response to wasn't read.
+    pending: bool,
+}
+
 #[derive(Debug)]
 pub struct ServerBackend {
-    reader: Mutex<BufReader<OwnedReadHalf>>,
+    reader: Mutex<Reader>,
     writer: Mutex<OwnedWriteHalf>,
 }
 
@@ -112,7 +119,10 @@ impl ServerBackend {
         let (reader, writer) = stream.into_split();
 
         Ok(Self {
-            reader: Mutex::new(BufReader::new(reader)),
+            reader: Mutex::new(Reader {
+                inner: BufReader::new(reader),
+                pending: false,
+            }),
             writer: Mutex::new(writer),
         })
     }
@@ -122,6 +132,12 @@ impl ServerBackend {
         // locked for as long as it takes to send a request and read its response.
         let mut reader = self.reader.lock().await;
 
+        if reader.pending {
+            return Err(Error::ConnectionClosed);
+        }
+
+        reader.pending = true;
+
         self.writer
             .lock()
             .await
@@ -135,6 +151,8 @@ impl ServerBackend {
         loop {
             match ctx.feed(&resp).map_err(|_| Error::BadResponse)? {
                 Instruction::Concluded(response) => {
+                    reader.pending = false;
+
                     return match response {
                         Response::Value(value) => Ok(value),
                         Response::DispatchError(reason) => Err(Error::Dispatching { reason }),
@@ -146,6 +164,7 @@ impl ServerBackend {
                     resp.resize(start + bytes, 0);
 
                     reader
+                        .inner
                         .read_exact(&mut resp[start..])
                         .await
                         .map_err(|source| match source.kind() {
-- 
2.43.0


From 7d6636d9f969bf034c589db15ac24fdc1602c68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:53 +0000
Subject: [PATCH 29/41] fix: return an error when failing to connect

---
 client/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/src/lib.rs b/client/src/lib.rs
index b3f4459..8e10c47 100644
--- a/client/src/lib.rs
+++ b/client/src/lib.rs
@@ -48,7 +48,7 @@ impl Client<backend::ServerBackend> {
     pub async fn connect(
         addrs: impl tokio::net::ToSocketAddrs,
     ) -> Result<Self, <backend::ServerBackend as Backend>::Error> {
-        let backend = backend::ServerBackend::connect(addrs).await.unwrap();
+        let backend = backend::ServerBackend::connect(addrs).await?;
 
         Ok(Self {
             backend: Arc::new(backend),
-- 
2.43.0


From fe578d3d0e91f97ffd4aedb8e145743d2d6643f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:53 +0000
Subject: [PATCH 30/41] fix: send the requested type when incrementing over a
 server connection

---
 client/src/backend/server.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/client/src/backend/server.rs b/client/src/backend/server.rs
index 4a310fc..712b9b0 100644
--- a/client/src/backend/server.rs
+++ b/client/src/backend/server.rs
@@ -311,8 +311,8 @@ impl Backend for ServerBackend {
         }
     }
 
-    async fn increment(&self, key: &[u8], _: Option<KeyType>) -> Result<Value> {
-        let mut builder = RequestBuilder::new(CommandId::Increment);
+    async fn increment(&self, key: &[u8], key_type: Option<KeyType>) -> Result<Value> {
+        let mut builder = RequestBuilder::new_with_key_type(CommandId::Increment, key_type);
         builder.bytes(key)?;
 
         let value = self.send_and_wait(builder).await?;
-- 
2.43.0


From 8c8507da5df4ae6807f701e97eb80ae038f43a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:04 +0000
Subject: [PATCH 31/41] fix: return an error when getting a key of a different
 type

Getting a key as a specific type panicked when it was of a different one. The
engine already errors if the type to get is part of the request.
---
 client/src/backend/memory.rs          | 4 ++--
 client/src/backend/mod.rs             | 2 +-
 client/src/backend/server.rs          | 4 ++--
 client/src/request/get/get_boolean.rs | 4 ++--
 client/src/request/get/get_bytes.rs   | 4 ++--
 client/src/request/get/get_float.rs   | 4 ++--
 client/src/request/get/get_integer.rs | 4 ++--
 client/src/request/get/get_list.rs    | 4 ++--
 client/src/request/get/get_map.rs     | 4 ++--
 client/src/request/get/get_set.rs     | 4 ++--
 client/src/request/get/get_string.rs  | 4 ++--
 client/src/request/get/mod.rs         | 2 +-
 12 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/client/src/backend/memory.rs b/client/src/backend/memory.rs
index 1d00a44..c216280 100644
--- a/client/src/backend/memory.rs
+++ b/client/src/backend/memory.rs
@@ -216,8 +216,8 @@ impl Backend for MemoryBackend {
         }
     }
 
-    async fn get(&self, key: &[u8]) -> Result<Value, Self::Error> {
-        let mut builder = RequestBuilder::new(CommandId::Get);
+    async fn get(&self, key: &[u8], key_type: Option<KeyType>) -> Result<Value, Self::Error> {
+        let mut builder = RequestBuilder::new_with_key_type(CommandId::Get, key_type);
         builder.bytes(key)?;
 
         self.send(builder)
diff --git a/client/src/backend/mod.rs b/client/src/backend/mod.rs
index df98f63..3483158 100644
--- a/client/src/backend/mod.rs
+++ b/client/src/backend/mod.rs
@@ -52,7 +52,7 @@ pub trait Backend: Send + Sync {
     where
         Self: Sized;
 
-    async fn get(&self, key: &[u8]) -> Result<Value, Self::Error>
+    async fn get(&self, key: &[u8], key_type: Option<KeyType>) -> Result<Value, Self::Error>
     where
         Self: Sized;
 
diff --git a/client/src/backend/server.rs b/client/src/backend/server.rs
index 712b9b0..67cd75e 100644
--- a/client/src/backend/server.rs
+++ b/client/src/backend/server.rs
@@ -283,8 +283,8 @@ impl Backend for ServerBackend {
         }
     }
 
-    async fn get(&self, key: &[u8]) -> Result<Value> {
-        let mut builder = RequestBuilder::new(CommandId::Get);
+    async fn get(&self, key: &[u8], key_type: Option<KeyType>) -> Result<Value> {
+        let mut builder = RequestBuilder::new_with_key_type(CommandId::Get, key_type);
         builder.bytes(key)?;
 
         self.send_and_wait(builder).await
diff --git a/client/src/request/get/get_boolean.rs b/client/src/request/get/get_boolean.rs
index 9a18fa9..dfd34ce 100644
--- a/client/src/request/get/get_boolean.rs
+++ b/client/src/request/get/get_boolean.rs
@@ -6,7 +6,7 @@ use core::{
     pin::Pin,
     task::{Context, Poll},
 };
-use hop_engine::state::Value;
+use hop_engine::state::{KeyType, Value};
 
 /// A configured `get` command that will resolve to a boolean when `await`ed.
 ///
@@ -41,7 +41,7 @@ impl<'a, B: Backend + Send + Sync + 'static, K: AsRef<[u8]> + Send + Unpin> Futu
 
             self.fut.replace(Box::pin(async move {
                 let key = key.as_ref();
-                let value = backend.get(key).await?;
+                let value = backend.get(key, Some(KeyType::Boolean)).await?;
 
                 match value {
                     Value::Boolean(bool) => Ok(bool),
diff --git a/client/src/request/get/get_bytes.rs b/client/src/request/get/get_bytes.rs
index 1d7622f..0f10cb3 100644
--- a/client/src/request/get/get_bytes.rs
+++ b/client/src/request/get/get_bytes.rs
@@ -6,7 +6,7 @@ use core::{
     pin::Pin,
     task::{Context, Poll},
 };
-use hop_engine::state::Value;
+use hop_engine::state::{KeyType, Value};
 
 /// A configured `get` command that will resolve to bytes when `await`ed.
 ///
@@ -41,7 +41,7 @@ impl<'a, B: Backend + Send + Sync + 'static, K: AsRef<[u8]> + Send + Unpin> Futu
 
             self.fut.replace(Box::pin(async move {
                 let key = key.as_ref();
-                let value = backend.get(key).await?;
+                let value = backend.get(key, Some(KeyType::Bytes)).await?;
 
                 match value {
                     Value::Bytes(bytes) => Ok(bytes),
diff --git a/client/src/request/get/get_float.rs b/client/src/request/get/get_float.rs
index 512960e..dc4c2f4 100644
--- a/client/src/request/get/get_float.rs
+++ b/client/src/request/get/get_float.rs
@@ -6,7 +6,7 @@ use core::{
     pin::Pin,
     task::{Context, Poll},
 };
-use hop_engine::state::Value;
+use hop_engine::state::{KeyType, Value};
 
 /// A configured `get` command that will resolve to a float when `await`ed.
 ///
@@ -41,7 +41,7 @@ impl<'a, B: Backend + Send + Sync + 'static, K: AsRef<[u8]> + Send + Unpin> Futu
 
             self.fut.replace(Box::pin(async move {
                 let key = key.as_ref();
-                let value = backend.get(key).await?;
+                let value = backend.get(key, Some(KeyType::Float)).await?;
 
                 match value {
                     Value::Float(float) => Ok(float),
diff --git a/client/src/request/get/get_integer.rs b/client/src/request/get/get_integer.rs
index 18e1af2..cd09047 100644
--- a/client/src/request/get/get_integer.rs
+++ b/client/src/request/get/get_integer.rs
@@ -6,7 +6,7 @@ use core::{
     pin::Pin,
     task::{Context, Poll},
 };
-use hop_engine::state::Value;
+use hop_engine::state::{KeyType, Value};
 
 /// A configured `get` command that will resolve to an integer when `await`ed.
 ///
@@ -41,7 +41,7 @@ impl<'a, B: Backend + Send + Sync + 'static, K: AsRef<[u8]> + Send + Unpin> Futu
 
             self.fut.replace(Box::pin(async move {
                 let key = key.as_ref();
-                let value = backend.get(key).await?;
+                let value = backend.get(key, Some(KeyType::Integer)).await?;
 
                 match value {
                     Value::Integer(int) => Ok(int),
diff --git a/client/src/request/get/get_list.rs b/client/src/request/get/get_list.rs
index b4a6fe3..5a0afc6 100644
--- a/client/src/request/get/get_list.rs
+++ b/client/src/request/get/get_list.rs
@@ -6,7 +6,7 @@ use core::{
     pin::Pin,
     task::{Context, Poll},
 };
-use hop_engine::state::Value;
+use hop_engine::state::{KeyType, Value};
 
 /// A configured `get` command that will resolve to a list when `await`ed.
 ///
@@ -41,7 +41,7 @@ impl<'a, B: Backend + Send + Sync + 'static, K: AsRef<[u8]> + Send + Unpin> Futu
 
             self.fut.replace(Box::pin(async move {
                 let key = key.as_ref();
-                let value = backend.get(key).await?;
+                let value = backend.get(key, Some(KeyType::List)).await?;
 
                 match value {
                     Value::List(list) => Ok(list),
diff --git a/client/src/request/get/get_map.rs b/client/src/request/get/get_map.rs
index 4641c57..fddf6e3 100644
--- a/client/src/request/get/get_map.rs
+++ b/client/src/request/get/get_map.rs
@@ -6,7 +6,7 @@ use core::{
     pin::Pin,
     task::{Context, Poll},
 };
-use hop_engine::{dashmap::DashMap, state::Value};
+use hop_engine::{dashmap::DashMap, state::{KeyType, Value}};
 
 /// A configured `get` command that will resolve to a map when `await`ed.
 ///
@@ -41,7 +41,7 @@ impl<'a, B: Backend + Send + Sync + 'static, K: AsRef<[u8]> + Send + Unpin> Futu
 
             self.fut.replace(Box::pin(async move {
                 let key = key.as_ref();
-                let value = backend.get(key).await?;
+                let value = backend.get(key, Some(KeyType::Map)).await?;
 
                 match value {
                     Value::Map(map) => Ok(map),
diff --git a/client/src/request/get/get_set.rs b/client/src/request/get/get_set.rs
index 91037c4..a2fee20 100644
--- a/client/src/request/get/get_set.rs
+++ b/client/src/request/get/get_set.rs
@@ -6,7 +6,7 @@ use core::{
     pin::Pin,
     task::{Context, Poll},
 };
-use hop_engine::{dashmap::DashSet, state::Value};
+use hop_engine::{dashmap::DashSet, state::{KeyType, Value}};
 
 /// A configured `get` command that will resolve to a set when `await`ed.
 ///
@@ -41,7 +41,7 @@ impl<'a, B: Backend + Send + Sync + 'static, K: AsRef<[u8]> + Send + Unpin> Futu
 
             self.fut.replace(Box::pin(async move {
                 let key = key.as_ref();
-                let value = backend.get(key).await?;
+                let value = backend.get(key, Some(KeyType::Set)).await?;
 
                 match value {
                     Value::Set(set) => Ok(set),
diff --git a/client/src/request/get/get_string.rs b/client/src/request/get/get_string.rs
index 02ffc62..fc7c444 100644
--- a/client/src/request/get/get_string.rs
+++ b/client/src/request/get/get_string.rs
@@ -6,7 +6,7 @@ use core::{
     pin::Pin,
     task::{Context, Poll},
 };
-use hop_engine::state::Value;
+use hop_engine::state::{KeyType, Value};
 
 /// A configured `get` command that will resolve to a string when `await`ed.
 ///
@@ -41,7 +41,7 @@ impl<'a, B: Backend + Send + Sync + 'static, K: AsRef<[u8]> + Send + Unpin> Futu
 
             self.fut.replace(Box::pin(async move {
                 let key = key.as_ref();
-                let value = backend.get(key).await?;
+                let value = backend.get(key, Some(KeyType::String)).await?;
 
                 match value {
                     Value::String(string) => Ok(string),
diff --git a/client/src/request/get/mod.rs b/client/src/request/get/mod.rs
index 770d270..9819d4c 100644
--- a/client/src/request/get/mod.rs
+++ b/client/src/request/get/mod.rs
@@ -281,7 +281,7 @@ impl<'a, B: Backend + Send + Sync + 'static, K: AsRef<[u8]> + Send + Unpin + 'a>
 
             self.fut.replace(Box::pin(async move {
                 let key = key.as_ref();
-                backend.get(key).await
+                backend.get(key, None).await
             }));
         }
 
-- 
2.43.0


From 3447cf168c7b263d65240e0db73966b7596542c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:52 +0000
Subject: [PATCH 32/41] fix: handle requests when their last byte is received

Requests are delimited by the lengths they contain and not by newlines, so the
server never responded to the requests of the client, and lost the bytes of the
requests following one.
---
 server/src/main.rs | 39 +++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/server/src/main.rs b/server/src/main.rs
index ed393e0..171b3d8 100755
--- a/server/src/main.rs
+++ b/server/src/main.rs
@@ -14,7 +14,7 @@ use std::{
     str::FromStr as _,
 };
 use tokio::{
-    io::{AsyncBufReadExt, AsyncWriteExt, BufReader},
+    io::{AsyncReadExt, AsyncWriteExt},
     net::{TcpListener, TcpStream},
     stream::StreamExt,
     task,
@@ -83,36 +83,43 @@ async fn handle_socket_inner(socket: TcpStream, hop: Hop) -> Result<(), Box<dyn
     let mut input = Vec::new();
     let mut ctx = Context::new();
 
-    let (reader, mut writer) = socket.into_split();
-    let mut reader = BufReader::new(reader);
+    let (mut reader, mut writer) = socket.into_split();
     let mut resp = Vec::new();
 
-    while let Ok(size) = reader.read_until(b'\n', &mut input).await {
+    while let Ok(size) = reader.read_buf(&mut input).await {
         // If we get no bytes then we're EOF.
         if size == 0 {
             break;
         }
 
-        match ctx.feed(&input) {
-            Ok(Some(req)) => match hop.dispatch(&req, &mut resp) {
-                Ok(()) => {}
+        // There can be any amount of requests in what was received so far.
+        loop {
+            let consumed = match ctx.feed(&input) {
+                Ok(Some(req)) => {
+                    if let Err(why) = hop.dispatch(&req, &mut resp) {
+                        let res = Response::DispatchError(why);
+
+                        res.copy_to(&mut resp);
+                    }
+
+                    req.as_bytes().len()
+                }
+                Ok(None) => break,
                 Err(why) => {
-                    let res = Response::DispatchError(why);
+                    let res = Response::ParseError(why);
 
                     res.copy_to(&mut resp);
+
+                    // It's unknown where the next request starts.
+                    input.len()
                 }
-            },
-            Ok(None) => continue,
-            Err(why) => {
-                let res = Response::ParseError(why);
+            };
 
-                res.copy_to(&mut resp);
-            }
-        };
+            input.drain(..consumed);
+        }
 
         writer.write_all(&resp).await?;
         resp.clear();
-        input.clear();
     }
 
     Ok(())
-- 
2.43.0


From 449566f8b51e7ea45db0262b69fc85bf7defbce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:52 +0000
Subject: [PATCH 33/41] fix: keep serving after failing to accept a connection

Accepting can fail temporarily, such as when a connection is aborted before it
is accepted.
---
 server/src/main.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/server/src/main.rs b/server/src/main.rs
index 171b3d8..885f78d 100755
--- a/server/src/main.rs
+++ b/server/src/main.rs
@@ -61,8 +61,13 @@ async fn main() -> Result<(), Box<dyn Error>> {
 
     debug!("Listening for new connections on {}", addr);
 
-    while let Some(Ok(socket)) = incoming.next().await {
-        task::spawn(handle_socket(socket, hop.clone()));
+    while let Some(socket) = incoming.next().await {
+        match socket {
+            Ok(socket) => {
+                task::spawn(handle_socket(socket, hop.clone()));
+            }
+            Err(why) => warn!("Failed to accept a connection: {}", why),
+        }
     }
 
     Ok(())
-- 
2.43.0


From 57bf234fae45784fb0cf10ab00a8c3e184a57cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:52 +0000
Subject: [PATCH 34/41] fix: print lists and maps whole

The last character was cut off together with the last newline, and printing an
empty list or map panicked.
---
 cli/lib/src/print.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cli/lib/src/print.rs b/cli/lib/src/print.rs
index 5342522..6b8899a 100644
--- a/cli/lib/src/print.rs
+++ b/cli/lib/src/print.rs
@@ -21,7 +21,7 @@ pub fn list<T: IntoIterator<Item = U>, U: AsRef<[u8]>>(items: T) -> String {
         output.push('\n');
     }
 
-    output.truncate(output.len() - 2);
+    output.pop();
 
     output
 }
@@ -36,7 +36,7 @@ pub fn map<T: IntoIterator<Item = (U, V)>, U: AsRef<[u8]>, V: AsRef<[u8]>>(pairs
         output.push('\n');
     }
 
-    output.truncate(output.len() - 2);
+    output.pop();
 
     output
 }
-- 
2.43.0


From 20dc8983da49b03515c78cd2e9880479bfb48752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:52 +0000
Subject: [PATCH 35/41] fix: reject a map argument without a value

---
 cli/lib/src/parse.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cli/lib/src/parse.rs b/cli/lib/src/parse.rs
index 77f9b9a..d876f8f 100644
--- a/cli/lib/src/parse.rs
+++ b/cli/lib/src/parse.rs
@@ -159,7 +159,11 @@ fn input_args<'a>(
             KeyType::Map => {
                 let value = match iter.next() {
                     Some(arg) => arg.as_bytes().to_vec(),
-                    None => break,
+                    None => {
+                        return Err(ParseError::MapIncomplete {
+                            key: arg.to_owned(),
+                        })
+                    }
                 };
 
                 args.push(arg.as_bytes().to_vec());
-- 
2.43.0


From b0e8200c80adaec42cc53fa3e426cb22886d2944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:53 +0000
Subject: [PATCH 36/41] fix: don't request the bytes type when no type is
 provided

Commands which don't take a type were rejected, and those that default to the
type of the key required it to be bytes.
---
 cli/lib/src/parse.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cli/lib/src/parse.rs b/cli/lib/src/parse.rs
index d876f8f..231845f 100644
--- a/cli/lib/src/parse.rs
+++ b/cli/lib/src/parse.rs
@@ -69,13 +69,12 @@ pub fn parse(input: &str) -> Result<Request, ParseError> {
         provided_name: cmd_name.to_owned(),
     })?;
 
-    let key_type = key_type.unwrap_or(KeyType::Bytes);
     let mut builder = RequestBuilder::new_with_key_type(cmd_id, key_type);
 
     let mut arg_iter = split.peekable();
 
     if arg_iter.peek().is_some() {
-        for arg in input_args(arg_iter, cmd_id, key_type)? {
+        for arg in input_args(arg_iter, cmd_id, key_type.unwrap_or(KeyType::Bytes))? {
             builder.bytes(arg)?;
         }
     }
-- 
2.43.0


From 627b0c5c385d19ce7a119477b86b543ff232832f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:53 +0000
Subject: [PATCH 37/41] fix: increment and decrement keys of the provided type

The type was dropped, so the command was run as if none was provided.
---
 cli/lib/src/process.rs | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/cli/lib/src/process.rs b/cli/lib/src/process.rs
index d3b37ba..ca10b71 100644
--- a/cli/lib/src/process.rs
+++ b/cli/lib/src/process.rs
@@ -9,7 +9,10 @@ use hop::{
     request::CommandConfigurationError,
     Client,
 };
-use hop_engine::command::{CommandId, DispatchError, Request};
+use hop_engine::{
+    command::{CommandId, DispatchError, Request},
+    state::{KeyType, Value},
+};
 use std::error::Error;
 
 #[derive(Debug)]
@@ -211,7 +214,16 @@ where
         CommandId::Decrement => {
             let key = req.key().ok_or_else(|| InnerProcessError::KeyUnspecified)?;
 
-            let v = client.decrement(key).await.map_err(backend_err)?;
+            let v = match req.key_type() {
+                Some(KeyType::Float) => {
+                    Value::Float(client.decrement(key).float().await.map_err(backend_err)?)
+                }
+                Some(KeyType::Integer) => {
+                    Value::Integer(client.decrement(key).int().await.map_err(backend_err)?)
+                }
+                Some(_) => return Err(InnerProcessError::KeyTypeInvalid),
+                None => client.decrement(key).await.map_err(backend_err)?,
+            };
 
             Ok(print::value(v).into())
         }
@@ -267,7 +279,16 @@ where
         CommandId::Increment => {
             let key = req.key().ok_or_else(|| InnerProcessError::KeyUnspecified)?;
 
-            let v = client.increment(key).await.map_err(backend_err)?;
+            let v = match req.key_type() {
+                Some(KeyType::Float) => {
+                    Value::Float(client.increment(key).float().await.map_err(backend_err)?)
+                }
+                Some(KeyType::Integer) => {
+                    Value::Integer(client.increment(key).int().await.map_err(backend_err)?)
+                }
+                Some(_) => return Err(InnerProcessError::KeyTypeInvalid),
+                None => client.increment(key).await.map_err(backend_err)?,
+            };
 
             Ok(print::value(v).into())
         }
-- 
2.43.0


From d738792c6f3b71dc63990e541b90ca304a4e37a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:15 +0000
Subject: [PATCH 38/41] hook: create session ids under cfg(hop_verif)

---
 engine/src/session/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/engine/src/session/mod.rs b/engine/src/session/mod.rs
index 9d81aeb..f45ac76 100644
--- a/engine/src/session/mod.rs
+++ b/engine/src/session/mod.rs
@@ -5,6 +5,15 @@ pub use manager::SessionManager;
 #[derive(Clone, Copy, Debug, Eq, Hash, Ord, PartialEq, PartialOrd)]
 pub struct SessionId(u32);
 
+#[cfg(hop_verif)]
+impl SessionId {
+    /// Create an ID for the verification of the pubsub manager, as there's no
+    /// way to obtain one yet.
+    pub fn from_raw(id: u32) -> Self {
+        Self(id)
+    }
+}
+
 #[derive(Debug)]
 pub struct Session {
     pub client_token: [u8; 32],
-- 
2.43.0


From d12ef99addc9394394e6414f1f32be35e07e5c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:15 +0000
Subject: [PATCH 39/41] fix: report responses of another type than requested as
 bad

The typed requests panicked on them.
---
 client/src/backend/server.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/client/src/backend/server.rs b/client/src/backend/server.rs
index 67cd75e..ef5e145 100644
--- a/client/src/backend/server.rs
+++ b/client/src/backend/server.rs
@@ -177,6 +177,14 @@ impl ServerBackend {
     }
 }
 
+// Ensure that a value has the type that was requested, if one was.
+fn expect_kind(value: Value, key_type: impl Into<Option<KeyType>>) -> Result<Value> {
+    match key_type.into() {
+        Some(key_type) if key_type != value.kind() => Err(Error::BadResponse),
+        _ => Ok(value),
+    }
+}
+
 #[async_trait]
 impl Backend for ServerBackend {
     type Error = Error;
@@ -203,7 +211,9 @@ impl Backend for ServerBackend {
             _ => return Err(Error::KeyTypeUnsupported { key_type }),
         }
 
-        self.send_and_wait(builder).await
+        let value = self.send_and_wait(builder).await?;
+
+        expect_kind(value, key_type)
     }
 
     async fn decrement_by<T: Into<Value> + Send>(&self, key: &[u8], value: T) -> Result<Value> {
@@ -221,7 +231,7 @@ impl Backend for ServerBackend {
 
         let value = self.send_and_wait(builder).await?;
 
-        match value {
+        match expect_kind(value, key_type)? {
             Value::Float(float) => Ok(Value::Float(float)),
             Value::Integer(int) => Ok(Value::Integer(int)),
             _ => Err(Error::BadResponse),
@@ -287,7 +297,9 @@ impl Backend for ServerBackend {
         let mut builder = RequestBuilder::new_with_key_type(CommandId::Get, key_type);
         builder.bytes(key)?;
 
-        self.send_and_wait(builder).await
+        let value = self.send_and_wait(builder).await?;
+
+        expect_kind(value, key_type)
     }
 
     async fn increment_by<T: Into<Value> + Send>(&self, key: &[u8], value: T) -> Result<Value> {
@@ -304,7 +316,7 @@ impl Backend for ServerBackend {
 
         let value = self.send_and_wait(builder).await?;
 
-        match value {
+        match expect_kind(value, key_type)? {
             Value::Float(float) => Ok(Value::Float(float)),
             Value::Integer(int) => Ok(Value::Integer(int)),
             _ => Err(Error::BadResponse),
@@ -419,7 +431,9 @@ impl Backend for ServerBackend {
         builder.bytes(key)?;
         builder.value(value)?;
 
-        self.send_and_wait(builder).await
+        let value = self.send_and_wait(builder).await?;
+
+        expect_kind(value, key_type)
     }
 }
 
-- 
2.43.0


From bfd8c283d4eb5cfa73d6e72d7c2eb8a25ee5b340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:31 +0000
Subject: [PATCH 40/41] fix: don't take part of a number for a key type

---
 client/src/backend/server.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/client/src/backend/server.rs b/client/src/backend/server.rs
index ef5e145..f5041d1 100644
--- a/client/src/backend/server.rs
+++ b/client/src/backend/server.rs
@@ -3,7 +3,7 @@ use crate::model::StatsData;
 use alloc::{boxed::Box, vec::Vec};
 use async_trait::async_trait;
 use core::{
-    convert::TryInto,
+    convert::{TryFrom, TryInto},
     fmt::{Display, Formatter, Result as FmtResult},
     result::Result as StdResult,
 };
@@ -363,7 +363,7 @@ impl Backend for ServerBackend {
 
         match value {
             Value::Integer(int) => {
-                let number = int as u8;
+                let number = u8::try_from(int).map_err(|_| Error::BadResponse)?;
 
                 number
                     .try_into()
-- 
2.43.0


From 30009f80b3742eda345d2e9e5b9a64fd81e9282f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:04 +0000
Subject: [PATCH 41/41] fix: unsubscribe a session in one step

When done at the same time as subscribing or unsubscribing the same session, it
could report success twice or leave the session behind under the key.
---
 engine/src/pubsub/manager.rs | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/engine/src/pubsub/manager.rs b/engine/src/pubsub/manager.rs
index 8b78235..df98918 100644
--- a/engine/src/pubsub/manager.rs
+++ b/engine/src/pubsub/manager.rs
@@ -54,22 +54,22 @@ impl PubSubManager {
     /// Returns whether unsubscribing was successful. This will only be
     /// unsuccessful if the session wasn't subscribed to the key.
     pub fn unsubscribe(&self, object_key: &[u8], session_id: SessionId) -> bool {
-        let key_unsubbed = self
-            .0
-            .keys
-            .get(object_key)
-            .and_then(|sessions| sessions.remove(&session_id))
-            .is_some();
-        let session_unsubbed = self
-            .0
-            .sessions
-            .get(&session_id)
-            .and_then(|keys| keys.remove(object_key))
-            .is_some();
+        // The session is kept locked, as it is when subscribing, so that nothing
+        // happens to its subscriptions between the two steps.
+        let session = match self.0.sessions.get(&session_id) {
+            Some(session) => session,
+            None => return false,
+        };
+
+        if session.remove(object_key).is_none() {
+            return false;
+        }
+
+        if let Some(sessions) = self.0.keys.get(object_key) {
+            sessions.remove(&session_id);
+        }
 
-        // Really either both of these should be true or both false, but we'll
-        // handle state inconsistencies elsewhere...
-        key_unsubbed || session_unsubbed
+        true
     }
 
     /// Unsubscribes a session from all of its subscriptions.
-- 
2.43.0

