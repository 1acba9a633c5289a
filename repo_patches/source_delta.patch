From 678491ab5b6f7c54dcd3916a76b62cbf6da89bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:20 +0000
Subject: [PATCH 01/21] fix: understand every legal LSP message header

Only a lone 'Content-Length: N' line was understood; any other header field, other capitalisation or
spacing ended the session or made the proxy lose its place in the stream.
---
 lsp-proxy/src/main.rs | 49 +++++++++++++++++++++++++------------------
 1 file changed, 29 insertions(+), 20 deletions(-)

diff --git a/lsp-proxy/src/main.rs b/lsp-proxy/src/main.rs
index b4a60a8..8f0e701 100644
--- a/lsp-proxy/src/main.rs
+++ b/lsp-proxy/src/main.rs
@@ -172,28 +172,37 @@ async fn read_lsp_message<R: AsyncBufReadExt + Unpin>(
     reader: &mut R,
     buffer: &mut String,
 ) -> Result<Option<String>, anyhow::Error> {
-    // Read the Content-Length header
-    buffer.clear();
-    match reader.read_line(buffer).await {
-        Ok(0) => return Ok(None), // EOF
-        Ok(_) => {}
-        Err(e) => return Err(anyhow::anyhow!("Failed to read Content-Length: {}", e)),
-    }
-
-    let content_length_line = buffer.trim();
-    if content_length_line.is_empty() {
-        return Ok(None);
-    }
+    // Read the header block: one or more header fields, ended by an empty line. Field names are
+    // case-insensitive, and fields other than Content-Length (such as Content-Type) may appear.
+    let mut content_length: Option<usize> = None;
+    let mut in_header = false;
+    loop {
+        buffer.clear();
+        match reader.read_line(buffer).await {
+            Ok(0) if in_header => return Err(anyhow::anyhow!("Stream ended inside a header")),
+            Ok(0) => return Ok(None), // EOF
+            Ok(_) => {}
+            Err(e) => return Err(anyhow::anyhow!("Failed to read header: {}", e)),
+        }
 
-    // Parse Content-Length
-    let content_length: usize = content_length_line
-        .strip_prefix("Content-Length: ")
-        .ok_or_else(|| anyhow::anyhow!("Invalid Content-Length header: {}", content_length_line))?
-        .parse()?;
+        let line = buffer.trim();
+        if line.is_empty() {
+            if in_header {
+                break;
+            }
+            continue; // stray blank line between messages
+        }
+        in_header = true;
 
-    // Read the empty line after headers
-    buffer.clear();
-    reader.read_line(buffer).await?;
+        let (name, value) = line
+            .split_once(':')
+            .ok_or_else(|| anyhow::anyhow!("Invalid header line: {}", line))?;
+        if name.trim().eq_ignore_ascii_case("Content-Length") {
+            content_length = Some(value.trim().parse()?);
+        }
+    }
+    let content_length =
+        content_length.ok_or_else(|| anyhow::anyhow!("Header without Content-Length"))?;
 
     // Read the JSON payload
     buffer.clear();
-- 
2.43.0


From 71233010f7da875be1259880276f5139e166b84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:20 +0000
Subject: [PATCH 02/21] fix: do not allocate what a Content-Length header
 merely claims

---
 lsp-proxy/src/main.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lsp-proxy/src/main.rs b/lsp-proxy/src/main.rs
index 8f0e701..704a09f 100644
--- a/lsp-proxy/src/main.rs
+++ b/lsp-proxy/src/main.rs
@@ -206,8 +206,15 @@ async fn read_lsp_message<R: AsyncBufReadExt + Unpin>(
 
     // Read the JSON payload
     buffer.clear();
-    let mut json_buffer = vec![0u8; content_length];
-    reader.read_exact(&mut json_buffer).await?;
+    // The buffer grows with what actually arrives: the length is only the peer's claim.
+    let mut json_buffer = Vec::new();
+    (&mut *reader)
+        .take(content_length as u64)
+        .read_to_end(&mut json_buffer)
+        .await?;
+    if json_buffer.len() < content_length {
+        return Err(anyhow::anyhow!("Stream ended inside a message"));
+    }
 
     let json_payload = String::from_utf8(json_buffer)?;
 
-- 
2.43.0


From d31d698aff94ac7b5d081d2f623535ad90fdcb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:20 +0000
Subject: [PATCH 03/21] fix: skip rust-analyzer candidates that do not work

A candidate that could be started but failed (such as a rustup shim without the component) was taken
for a working server, and the later candidates were never tried.
---
 lsp-proxy/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsp-proxy/src/main.rs b/lsp-proxy/src/main.rs
index 704a09f..5e0a6cc 100644
--- a/lsp-proxy/src/main.rs
+++ b/lsp-proxy/src/main.rs
@@ -268,7 +268,7 @@ fn find_rust_analyzer() -> Result<String> {
             .stdout(Stdio::null())
             .stderr(Stdio::null())
             .status()
-            .is_ok()
+            .is_ok_and(|status| status.success())
         {
             return Ok(path);
         }
-- 
2.43.0


From 687011a030b886b93899f2bf9b4da5fc434bd280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:20 +0000
Subject: [PATCH 04/21] fix: relay server diagnostics that are not text, and
 survive a closed stderr

---
 lsp-proxy/src/main.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lsp-proxy/src/main.rs b/lsp-proxy/src/main.rs
index 5e0a6cc..e1adb1e 100644
--- a/lsp-proxy/src/main.rs
+++ b/lsp-proxy/src/main.rs
@@ -1,5 +1,6 @@
 use anyhow::Result;
 use log::{error, info, warn};
+use std::io::Write;
 use std::process::{Command, Stdio};
 use tokio::io::{AsyncBufReadExt, AsyncReadExt, AsyncWriteExt, BufReader};
 use tokio::process::{Child, Command as TokioCommand};
@@ -134,14 +135,15 @@ async fn main() -> Result<()> {
     // Forward stderr from rust-analyzer to our stderr
     let stderr_forwarder = tokio::spawn(async move {
         let mut reader = BufReader::new(ra_stderr);
-        let mut line = String::new();
+        let mut line = Vec::new();
 
         loop {
             line.clear();
-            match reader.read_line(&mut line).await {
+            match reader.read_until(b'\n', &mut line).await {
                 Ok(0) => break, // EOF
                 Ok(_) => {
-                    eprint!("{}", line);
+                    // Diagnostics are passed on as they are; losing them must not end the session.
+                    let _ = std::io::stderr().write_all(&line);
                 }
                 Err(e) => {
                     error!("Failed to read rust-analyzer stderr: {}", e);
-- 
2.43.0


From 8a63b534aeeeedbc347c44d4b4f813847b064648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:49 +0000
Subject: [PATCH 05/21] fix: end the session without losing what was already
 sent

Whichever task ended first ended the session at once: a language server that closed its error stream, an
editor that closed its input, or a server that exited could lose messages already written, the server
was killed before it could wind down, and the process then hung on the pending read of stdin.
---
 lsp-proxy/src/main.rs | 41 +++++++++++++++++++++++++++++++++--------
 1 file changed, 33 insertions(+), 8 deletions(-)

diff --git a/lsp-proxy/src/main.rs b/lsp-proxy/src/main.rs
index e1adb1e..dc8a462 100644
--- a/lsp-proxy/src/main.rs
+++ b/lsp-proxy/src/main.rs
@@ -2,11 +2,19 @@ use anyhow::Result;
 use log::{error, info, warn};
 use std::io::Write;
 use std::process::{Command, Stdio};
+use std::time::Duration;
 use tokio::io::{AsyncBufReadExt, AsyncReadExt, AsyncWriteExt, BufReader};
 use tokio::process::{Child, Command as TokioCommand};
+use tokio::time::timeout;
 
 use whippyunits_lsp_proxy::{DisplayConfig, LspProxy};
 
+/// How long rust-analyzer may take to exit on its own once one direction has ended
+const WIND_DOWN: Duration = Duration::from_secs(10);
+
+/// How long the remaining output of rust-analyzer may take to be delivered once it is gone
+const DRAIN: Duration = Duration::from_secs(30);
+
 #[tokio::main]
 async fn main() -> Result<()> {
     // Initialize logging
@@ -53,7 +61,7 @@ async fn main() -> Result<()> {
 
     // Spawn tasks for bidirectional communication
     let proxy_clone = proxy.clone();
-    let editor_to_ra = tokio::spawn(async move {
+    let mut editor_to_ra = tokio::spawn(async move {
         let mut reader = BufReader::new(stdin);
         let mut buffer = String::new();
 
@@ -93,7 +101,7 @@ async fn main() -> Result<()> {
     });
 
     let proxy_clone = proxy.clone();
-    let ra_to_editor = tokio::spawn(async move {
+    let mut ra_to_editor = tokio::spawn(async move {
         let mut reader = BufReader::new(ra_stdout);
         let mut buffer = String::new();
 
@@ -133,7 +141,7 @@ async fn main() -> Result<()> {
     });
 
     // Forward stderr from rust-analyzer to our stderr
-    let stderr_forwarder = tokio::spawn(async move {
+    let mut stderr_forwarder = tokio::spawn(async move {
         let mut reader = BufReader::new(ra_stderr);
         let mut line = Vec::new();
 
@@ -153,20 +161,37 @@ async fn main() -> Result<()> {
         }
     });
 
-    // Wait for any task to complete (which means something went wrong or EOF)
+    // Wait until one of the peers is done (EOF or something went wrong)
     tokio::select! {
-        _ = editor_to_ra => info!("Editor to rust-analyzer task completed"),
-        _ = ra_to_editor => info!("Rust-analyzer to editor task completed"),
-        _ = stderr_forwarder => info!("Stderr forwarder task completed"),
+        _ = &mut editor_to_ra => info!("Editor to rust-analyzer task completed"),
+        _ = &mut ra_to_editor => {
+            info!("Rust-analyzer to editor task completed");
+            // Deliver what the editor still has to say for as long as rust-analyzer listens
+            tokio::select! {
+                _ = &mut editor_to_ra => {}
+                _ = rust_analyzer.wait() => {}
+                _ = tokio::time::sleep(WIND_DOWN) => {}
+            }
+        }
     }
 
+    // rust-analyzer now sees the end of its input, or has gone: let it wind down
+    let _ = timeout(WIND_DOWN, rust_analyzer.wait()).await;
+
     // Clean up
     if let Err(e) = rust_analyzer.kill().await {
         warn!("Failed to kill rust-analyzer: {}", e);
     }
 
+    // Deliver what rust-analyzer has written up to its end
+    if !ra_to_editor.is_finished() {
+        let _ = timeout(DRAIN, &mut ra_to_editor).await;
+    }
+    let _ = timeout(DRAIN, &mut stderr_forwarder).await;
+
     info!("LSP proxy shutting down");
-    Ok(())
+    // Returning would wait for the pending read of stdin, which may never complete
+    std::process::exit(0)
 }
 
 /// Read a complete LSP message from the reader
-- 
2.43.0


From 1875625999312d509f87b9aa9b967d521832acd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:51 +0000
Subject: [PATCH 06/21] fix: rewrite server messages in place instead of
 through partial structures

Messages and hovers were parsed into structures listing a few fields and serialised back: fields not
listed (hover actions, experimental fields) were lost, and absent ones came out as null, which turned
responses into objects with a null method and a null error.
---
 lsp-proxy/src/hover_processor.rs | 95 +++++++++++++++++---------------
 lsp-proxy/src/lib.rs             | 95 ++++++++++----------------------
 2 files changed, 81 insertions(+), 109 deletions(-)

diff --git a/lsp-proxy/src/hover_processor.rs b/lsp-proxy/src/hover_processor.rs
index 5279738..d0b5a0a 100644
--- a/lsp-proxy/src/hover_processor.rs
+++ b/lsp-proxy/src/hover_processor.rs
@@ -1,5 +1,6 @@
 use crate::{
     lsp_structures::{HoverContent, HoverContents},
+    quantity_detection,
     unit_formatter::{DisplayConfig, UnitFormatter},
 };
 use serde_json::Value;
@@ -31,58 +32,64 @@ impl HoverProcessor {
     /// Improve hover content by formatting whippyunits types
     pub fn improve_hover_content(&self, mut hover: HoverContent) -> HoverContent {
         match &mut hover.contents {
-            HoverContents::Single(item) => {
-                let original_text = item.value.clone();
-                // Apply transformations in sequence, but only if they haven't been applied already
-                let mut processed_text = item.value.clone();
-
-                // Only apply trait signature transformation if not already processed
-                if !processed_text.contains("impl Add for")
-                    && !processed_text.contains("impl Sub for")
-                    && !processed_text.contains("impl Mul<")
-                    && !processed_text.contains("impl Div<")
-                {
-                    processed_text = self.transform_add_trait_signature(&processed_text);
-                }
-
-                // Always apply type conversion as the final step
-                processed_text = self.unit_formatter.format_types_with_original(
-                    &processed_text,
-                    &self.display_config,
-                    &original_text,
-                );
-
-                item.value = processed_text;
-            }
+            HoverContents::Single(item) => item.value = self.improve_hover_text(&item.value),
             HoverContents::Multiple(items) => {
                 for item in items {
-                    let original_text = item.value.clone();
-                    // Apply transformations in sequence, but only if they haven't been applied already
-                    let mut processed_text = item.value.clone();
-
-                    // Only apply trait signature transformation if not already processed
-                    if !processed_text.contains("impl Add for")
-                        && !processed_text.contains("impl Sub for")
-                        && !processed_text.contains("impl Mul<")
-                        && !processed_text.contains("impl Div<")
-                    {
-                        processed_text = self.transform_add_trait_signature(&processed_text);
-                    }
-
-                    // Always apply type conversion as the final step
-                    processed_text = self.unit_formatter.format_types_with_original(
-                        &processed_text,
-                        &self.display_config,
-                        &original_text,
-                    );
-
-                    item.value = processed_text;
+                    item.value = self.improve_hover_text(&item.value);
                 }
             }
         }
         hover
     }
 
+    /// Improve a hover result in place, touching nothing but the displayed text.
+    /// Returns whether anything was changed.
+    pub fn improve_hover_result(&self, result: &mut Value) -> bool {
+        match result.get_mut("contents") {
+            Some(Value::Array(items)) => items
+                .iter_mut()
+                .fold(false, |changed, item| self.improve_hover_item(item) | changed),
+            Some(item) => self.improve_hover_item(item),
+            None => false,
+        }
+    }
+
+    /// Improve one hover content item in place
+    fn improve_hover_item(&self, item: &mut Value) -> bool {
+        let Some(Value::String(text)) = item.get_mut("value") else {
+            return false;
+        };
+        if !quantity_detection::contains_quantity_types_fast(text) {
+            return false;
+        }
+        let improved = self.improve_hover_text(text);
+        let changed = improved != *text;
+        *text = improved;
+        changed
+    }
+
+    /// Improve the text of one hover content item
+    fn improve_hover_text(&self, original_text: &str) -> String {
+        // Apply transformations in sequence, but only if they haven't been applied already
+        let mut processed_text = original_text.to_string();
+
+        // Only apply trait signature transformation if not already processed
+        if !processed_text.contains("impl Add for")
+            && !processed_text.contains("impl Sub for")
+            && !processed_text.contains("impl Mul<")
+            && !processed_text.contains("impl Div<")
+        {
+            processed_text = self.transform_add_trait_signature(&processed_text);
+        }
+
+        // Always apply type conversion as the final step
+        self.unit_formatter.format_types_with_original(
+            &processed_text,
+            &self.display_config,
+            original_text,
+        )
+    }
+
     /// Transform the Add/Sub/Mul/Div trait implementation signatures to be more readable
     fn transform_add_trait_signature(&self, text: &str) -> String {
         // Only process text that contains trait implementations
diff --git a/lsp-proxy/src/lib.rs b/lsp-proxy/src/lib.rs
index 3726c71..3f837e0 100644
--- a/lsp-proxy/src/lib.rs
+++ b/lsp-proxy/src/lib.rs
@@ -13,7 +13,6 @@ mod tests;
 
 use hover_processor::HoverProcessor;
 use inlay_hint_processor::InlayHintProcessor;
-use lsp_structures::LspMessage;
 
 // Re-export for public API
 pub use unit_formatter::DisplayConfig;
@@ -70,8 +69,9 @@ impl LspProxy {
             return Ok(message.to_string());
         }
 
-        // Parse the JSON payload only if we detected Quantity types
-        let mut lsp_msg: LspMessage = match serde_json::from_str(&json_payload) {
+        // Parse the JSON payload only if we detected Quantity types. The message is kept as a generic
+        // JSON value, so that every field we do not know is passed on as it is.
+        let mut lsp_msg: Value = match serde_json::from_str(&json_payload) {
             Ok(msg) => msg,
             Err(e) => {
                 warn!("Failed to parse LSP message: {}", e);
@@ -82,38 +82,24 @@ impl LspProxy {
         // Only process specific message types we care about
         let mut needs_processing = false;
 
-        // Check if this is a hover response
-        if let Some(result) = &lsp_msg.result {
-            if let Some(hover_content) = self.hover_processor.extract_hover_content(result) {
-                match self.hover_processor.improve_hover_content(hover_content) {
-                    improved_content => match serde_json::to_value(improved_content) {
-                        Ok(value) => {
-                            lsp_msg.result = Some(value);
-                            needs_processing = true;
-                        }
-                        Err(e) => {
-                            warn!("Failed to serialize hover content: {}", e);
-                        }
-                    },
-                }
+        if let Some(result) = lsp_msg.get_mut("result") {
+            // Check if this is a hover response
+            if self.hover_processor.improve_hover_result(result) {
+                needs_processing = true;
             }
-        }
 
-        // Check if this is an inlay hint response (including resolve responses)
-        if let Some(result) = &lsp_msg.result {
-            if self.is_inlay_hint_response(&lsp_msg) {
-                // Only process inlay hints if they contain whippyunits types
-                if self.contains_whippyunits_in_result(result) {
-                    match self.process_inlay_hint_result(result) {
-                        Ok(improved_result) => {
-                            lsp_msg.result = Some(improved_result);
-                            needs_processing = true;
-                        }
-                        Err(e) => {
-                            // If processing fails, log the error but don't crash
-                            warn!("Failed to process inlay hint: {}", e);
-                            // Continue without processing - return original message
-                        }
+            // Check if this is an inlay hint response (including resolve responses), and only
+            // process inlay hints if they contain whippyunits types
+            if self.is_inlay_hint_response(result) && self.contains_whippyunits_in_result(result) {
+                match self.process_inlay_hint_result(result) {
+                    Ok(improved_result) => {
+                        *result = improved_result;
+                        needs_processing = true;
+                    }
+                    Err(e) => {
+                        // If processing fails, log the error but don't crash
+                        warn!("Failed to process inlay hint: {}", e);
+                        // Continue without processing - return original message
                     }
                 }
             }
@@ -181,39 +167,18 @@ impl LspProxy {
         }
     }
 
-    /// Check if this is an inlay hint response (has result with inlay hint data)
-    fn is_inlay_hint_response(&self, lsp_msg: &LspMessage) -> bool {
-        // Check if the result contains inlay hint data structure
-        if let Some(result) = &lsp_msg.result {
-            // Check if result is an array (typical for inlay hint requests)
-            if result.is_array() {
-                // Check if any item in the array has inlay hint structure
-                if let Some(array) = result.as_array() {
-                    for item in array.iter() {
-                        if let Some(item_obj) = item.as_object() {
-                            let has_position = item_obj.contains_key("position");
-                            let has_label = item_obj.contains_key("label");
-                            if has_position && has_label {
-                                return true;
-                            }
-                        }
-                    }
-                }
-            }
-
-            // Check if result is an object (typical for inlay hint resolve responses)
-            if result.is_object() {
-                if let Some(obj) = result.as_object() {
-                    let has_position = obj.contains_key("position");
-                    let has_label = obj.contains_key("label");
-                    if has_position && has_label {
-                        return true;
-                    }
-                }
-            }
+    /// Check if this result is an inlay hint response (has inlay hint data)
+    fn is_inlay_hint_response(&self, result: &Value) -> bool {
+        let is_hint =
+            |item: &Value| item.get("position").is_some() && item.get("label").is_some();
+
+        match result {
+            // An array is typical for inlay hint requests
+            Value::Array(items) => items.iter().any(is_hint),
+            // An object is typical for inlay hint resolve responses
+            Value::Object(_) => is_hint(result),
+            _ => false,
         }
-
-        false
     }
 
     /// Check if a result contains whippyunits types
-- 
2.43.0


From b0150d5fffa7c93f4117826d021a9e6dbfb45033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:40 +0000
Subject: [PATCH 07/21] fix: do not panic on hover text that is not ASCII or is
 cut short

Bracket positions counted in characters were used as byte offsets, single bytes were sliced out of
multi-byte characters, and a signature that ends right after 'for' was sliced past its end.
---
 lsp-proxy/src/hover_processor.rs |  6 +--
 lsp-proxy/src/unit_formatter.rs  | 73 ++++----------------------------
 2 files changed, 12 insertions(+), 67 deletions(-)

diff --git a/lsp-proxy/src/hover_processor.rs b/lsp-proxy/src/hover_processor.rs
index d0b5a0a..35dce61 100644
--- a/lsp-proxy/src/hover_processor.rs
+++ b/lsp-proxy/src/hover_processor.rs
@@ -330,9 +330,9 @@ impl HoverProcessor {
                 // Extract the type after the trait
                 // Handle both "Mul<f64> for" and "Mul for" patterns
                 let trait_type = if text[trait_start..].starts_with(&trait_pattern1) {
-                    &text[trait_start + trait_pattern1.len() + 1..type_end] // +1 for space
+                    text[trait_start + trait_pattern1.len()..type_end].trim_start()
                 } else {
-                    &text[trait_start + trait_pattern2.len() + 1..type_end] // +1 for space
+                    text[trait_start + trait_pattern2.len()..type_end].trim_start()
                 };
 
                 // Create simplified signature for scalar operations
@@ -383,7 +383,7 @@ impl HoverProcessor {
                     };
 
                 // Extract the type after the trait
-                let trait_type = &text[trait_start + trait_pattern.len() + 1..type_end]; // +1 for space
+                let trait_type = text[trait_start + trait_pattern.len()..type_end].trim_start();
 
                 // Create simplified signature for reverse scalar operations
                 let simplified = format!("impl {}<Quantity<...>> for {}", trait_name, trait_type);
diff --git a/lsp-proxy/src/unit_formatter.rs b/lsp-proxy/src/unit_formatter.rs
index 0c6e5c4..ec290c8 100644
--- a/lsp-proxy/src/unit_formatter.rs
+++ b/lsp-proxy/src/unit_formatter.rs
@@ -507,20 +507,18 @@ impl UnitFormatter {
     /// Find the matching closing bracket for a given opening bracket
     fn find_matching_bracket(&self, content: &str, start_pos: usize) -> Option<usize> {
         let mut depth = 1;
-        let mut i = start_pos;
 
-        while i < content.len() {
-            match content.chars().nth(i) {
-                Some('<') => depth += 1,
-                Some('>') => {
+        for (i, ch) in content[start_pos..].char_indices() {
+            match ch {
+                '<' => depth += 1,
+                '>' => {
                     depth -= 1;
                     if depth == 0 {
-                        return Some(i);
+                        return Some(start_pos + i);
                     }
                 }
                 _ => {}
             }
-            i += 1;
         }
         None
     }
@@ -611,62 +609,9 @@ impl UnitFormatter {
                 .map(|(i, _)| i);
 
             if let Some(type_end) = type_end {
-                if after_colon.chars().nth(type_end) == Some('<') {
-                    // We found a generic type, extract the full declaration
-                    // Find the start of the variable declaration by looking backwards for 'let'
-                    let mut var_start = start;
-                    let mut found_let = false;
-
-                    // Look backwards to find the start of the declaration
-                    while var_start > 0 {
-                        let char_before =
-                            hover_text[var_start - 1..var_start].chars().next().unwrap();
-                        if char_before.is_whitespace() {
-                            // Check if we've found "let" or "let mut"
-                            let potential_start = var_start;
-                            let before_whitespace = &hover_text[..potential_start];
-
-                            // Look for "let" at the end of the string
-                            if before_whitespace.ends_with("let") {
-                                // Check if there's whitespace before "let" or if it's at the start
-                                let let_start = before_whitespace.len() - 3;
-                                if let_start == 0
-                                    || hover_text[let_start - 1..let_start]
-                                        .chars()
-                                        .next()
-                                        .unwrap()
-                                        .is_whitespace()
-                                {
-                                    var_start = let_start;
-                                    found_let = true;
-                                    break;
-                                }
-                            }
-                        }
-                        var_start -= 1;
-                    }
-
-                    if !found_let {
-                        // Fallback: find the start of the variable name
-                        while var_start > 0
-                            && !hover_text[var_start..var_start + 1]
-                                .chars()
-                                .next()
-                                .unwrap()
-                                .is_whitespace()
-                        {
-                            var_start -= 1;
-                        }
-                        if var_start > 0
-                            && hover_text[var_start..var_start + 1]
-                                .chars()
-                                .next()
-                                .unwrap()
-                                .is_whitespace()
-                        {
-                            var_start += 1; // Skip the whitespace
-                        }
-                    }
+                if after_colon[type_end..].starts_with('<') {
+                    // We found a generic type, extract the full declaration: everything that
+                    // leads up to it (let, const, static, ...) and the type itself
 
                     // Find the end of the type declaration by matching brackets
                     let type_start = start + ": ".len();
@@ -691,7 +636,7 @@ impl UnitFormatter {
                     }
 
                     if end_pos > 0 {
-                        let full_declaration = &hover_text[var_start..start + ": ".len() + end_pos];
+                        let full_declaration = &hover_text[..start + ": ".len() + end_pos];
                         return full_declaration.to_string();
                     }
                 }
-- 
2.43.0


From 02113c3ccc7a05a572ea42e8eaa6fcabc03768c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:18 +0000
Subject: [PATCH 08/21] fix: do not parse types nested deeply enough to exhaust
 the stack

---
 lsp-proxy/src/unit_formatter.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/lsp-proxy/src/unit_formatter.rs b/lsp-proxy/src/unit_formatter.rs
index ec290c8..23ccbfe 100644
--- a/lsp-proxy/src/unit_formatter.rs
+++ b/lsp-proxy/src/unit_formatter.rs
@@ -330,6 +330,11 @@ impl UnitFormatter {
 
     /// Parse the new Quantity type format with Scale<...> and Dimension<...> structs
     fn parse_new_quantity_params(&self, quantity_type: &str) -> Option<QuantityParams> {
+        // The type parser is recursive: what is nested too deeply would exhaust the stack
+        if !self.is_parsable_without_deep_recursion(quantity_type) {
+            return None;
+        }
+
         // Parse Scale parameters - handle all possible combinations of defaulted parameters
         let scale = if quantity_type.contains("Scale<") {
             // Any Scale format with parameters - handle all combinations of defaulted values
@@ -523,6 +528,16 @@ impl UnitFormatter {
         None
     }
 
+    /// Check that a type is neither long nor nested enough to exhaust the stack of its parser.
+    /// Quantity types that occur in practice are far below either limit.
+    fn is_parsable_without_deep_recursion(&self, quantity_type: &str) -> bool {
+        const MAX_LENGTH: usize = 512;
+        const MAX_NESTING: usize = 40;
+
+        quantity_type.len() <= MAX_LENGTH
+            && quantity_type.matches(|c| "<([{&*!|-=".contains(c)).count() <= MAX_NESTING
+    }
+
     /// Extract both the generic type parameter and brand from a Quantity type string
     /// Returns (generic_type, brand) where brand is Some(...) if present, None otherwise
     fn extract_generic_type_and_brand(&self, quantity_type: &str) -> (String, Option<String>) {
-- 
2.43.0


From 05a61d981f8bf4770e03948f17b84dad3dd5e59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:56 +0000
Subject: [PATCH 09/21] fix: keep the documentation of a hover when its raw
 type is included

The text between the code block and the next separator, and all of it when there was no separator, was
dropped.
---
 lsp-proxy/src/unit_formatter.rs | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/lsp-proxy/src/unit_formatter.rs b/lsp-proxy/src/unit_formatter.rs
index 23ccbfe..b1411fe 100644
--- a/lsp-proxy/src/unit_formatter.rs
+++ b/lsp-proxy/src/unit_formatter.rs
@@ -84,24 +84,14 @@ impl UnitFormatter {
                 let after_code_block = &after_code_start[code_end + 3..]; // Skip closing ```
 
                 let result = if !raw_type.is_empty() {
-                    // Insert raw section after the first --- separator
-                    if let Some(separator_pos) = after_code_block.find("---") {
-                        let after_separator = &after_code_block[separator_pos..];
-                        format!(
-                            "{}\n{}\n```\n\n---\nRaw:\n\n```rust\n{}\n```\n{}",
-                            before_code,
-                            formatted_content.trim(),
-                            raw_type,
-                            after_separator
-                        )
-                    } else {
-                        format!(
-                            "{}\n{}\n```\n\n---\nRaw:\n\n```rust\n{}\n```\n",
-                            before_code,
-                            formatted_content.trim(),
-                            raw_type
-                        )
-                    }
+                    // Insert raw section between the code block and whatever follows it
+                    format!(
+                        "{}\n{}\n```\n\n---\nRaw:\n\n```rust\n{}\n```\n{}",
+                        before_code,
+                        formatted_content.trim(),
+                        raw_type,
+                        after_code_block
+                    )
                 } else {
                     format!(
                         "{}\n{}\n```{}",
-- 
2.43.0


From 43673068f12b86d1f1beed1057e31eb6c85ddac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:27 +0000
Subject: [PATCH 10/21] fix: convert inlay hints without losing parts of their
 label or their edit's range

The closing bracket of an enclosing type in the same label part made the conversion swallow the rest of
the label, as did a Quantity without generic parameters; the converted part lost its tooltip and
command; and the range of the hint's text edit was read only after the edits had been cleared.
---
 lsp-proxy/src/inlay_hint_processor.rs | 176 +++++++++++---------------
 1 file changed, 75 insertions(+), 101 deletions(-)

diff --git a/lsp-proxy/src/inlay_hint_processor.rs b/lsp-proxy/src/inlay_hint_processor.rs
index f9940be..4935b4b 100644
--- a/lsp-proxy/src/inlay_hint_processor.rs
+++ b/lsp-proxy/src/inlay_hint_processor.rs
@@ -88,11 +88,15 @@ impl InlayHintProcessor {
 
         if has_whippyunits {
             // Get the label array from the object and process it
+            let mut converted = false;
             if let Some(label) = hint_obj.get_mut("label") {
                 if let Some(label_array) = label.as_array_mut() {
-                    self.convert_whippyunits_hint(label_array)?;
+                    converted = self.convert_whippyunits_hint(label_array)?;
                 }
             }
+            if !converted {
+                return Ok(());
+            }
 
             // Always add the unit! macro completion, regardless of resolution state
             self.add_seeded_unit_macro_text_edit(hint_obj)?;
@@ -111,118 +115,88 @@ impl InlayHintProcessor {
         quantity_detection::contains_whippyunits_type(label_array)
     }
 
-    /// Convert a whippyunits inlay hint to pretty format
-    pub fn convert_whippyunits_hint(&self, label_array: &mut Vec<Value>) -> Result<()> {
-        // Find the Quantity part
-        let mut quantity_part_index = None;
-        for (i, part) in label_array.iter().enumerate() {
-            if let Some(value) = part.get("value") {
-                if let Some(text) = value.as_str() {
-                    if text == "Quantity" {
-                        quantity_part_index = Some(i);
-                        break;
-                    }
-                }
-            }
+    /// Convert a whippyunits inlay hint to pretty format.
+    /// Returns whether there was a complete type to convert.
+    pub fn convert_whippyunits_hint(&self, label_array: &mut Vec<Value>) -> Result<bool> {
+        fn text_of(part: &Value) -> Option<&str> {
+            part.get("value").and_then(Value::as_str)
         }
 
-        // If we found the Quantity part, collect all the generic parameters
-        if let Some(quantity_idx) = quantity_part_index {
-            // Collect all parts after Quantity that form the generic parameters
-            let mut generic_parts = Vec::new();
-            let mut bracket_depth = 0;
-            let mut found_opening_bracket = false;
-
-            for i in (quantity_idx + 1)..label_array.len() {
-                if let Some(value) = label_array[i].get("value") {
-                    if let Some(text) = value.as_str() {
-                        // Track bracket depth to know when we've reached the end
-                        for ch in text.chars() {
-                            if ch == '<' {
-                                bracket_depth += 1;
-                                found_opening_bracket = true;
-                            } else if ch == '>' {
-                                bracket_depth -= 1;
-                            }
-                        }
-
-                        generic_parts.push(text);
+        // Find the Quantity part
+        let Some(quantity_idx) = label_array
+            .iter()
+            .position(|part| text_of(part) == Some("Quantity"))
+        else {
+            return Ok(false);
+        };
 
-                        // Stop when we've closed all brackets
-                        if found_opening_bracket && bracket_depth == 0 {
-                            break;
-                        }
-                    }
-                }
+        // Collect the parts after Quantity that form the generic parameters, up to the bracket that
+        // closes them. That bracket may be followed by text of an enclosing type in the same part.
+        let mut generic_params = String::new();
+        let mut parts_to_remove = Vec::new();
+        let mut surplus = None;
+        let mut bracket_depth = 0;
+
+        for i in (quantity_idx + 1)..label_array.len() {
+            let Some(text) = text_of(&label_array[i]) else {
+                continue;
+            };
+            if generic_params.is_empty() && !text.starts_with('<') {
+                break; // Quantity without generic parameters
             }
 
-            if !generic_parts.is_empty() {
-                // Create the complete generic parameters string
-                let generic_params = generic_parts.join("");
-
-                // Construct the full type string
-                let full_type = format!("Quantity{}", generic_params);
-
-                // For inlay hints, use the full Quantity<unit, type> format
-                let pretty_type = self
-                    .formatter
-                    .format_types_inlay_hint(&full_type, &self.display_config);
-
-                // For inlay hints specifically, prune ^1 exponents while keeping meaningful ones
-                let pretty_type = self.prune_inlay_hint_exponents(&pretty_type);
-
-                // Replace the "Quantity" part with the pretty version
-                // Preserve the location information if it exists
-                let quantity_part = &label_array[quantity_idx];
-                let mut new_quantity_part = json!({
-                    "value": pretty_type
-                });
+            let end = text.char_indices().find_map(|(at, ch)| {
+                match ch {
+                    '<' => bracket_depth += 1,
+                    '>' => bracket_depth -= 1,
+                    _ => {}
+                }
+                (bracket_depth == 0).then_some(at + ch.len_utf8())
+            });
 
-                // Copy over the location if it exists
-                if let Some(location) = quantity_part.get("location") {
-                    new_quantity_part["location"] = location.clone();
+            parts_to_remove.push(i);
+            match end {
+                Some(end) => {
+                    generic_params.push_str(&text[..end]);
+                    surplus = Some((i, text[end..].to_string()));
+                    break;
                 }
+                None => generic_params.push_str(text),
+            }
+        }
 
-                label_array[quantity_idx] = new_quantity_part;
+        // Without the closing bracket the type is incomplete: leave it alone
+        let Some((last, surplus)) = surplus else {
+            return Ok(false);
+        };
 
-                // Remove all the generic parameters parts
-                let mut parts_to_remove = Vec::new();
-                let mut bracket_depth = 0;
-                let mut found_opening_bracket = false;
+        // Construct the full type string
+        let full_type = format!("Quantity{}", generic_params);
 
-                for i in (quantity_idx + 1)..label_array.len() {
-                    if let Some(value) = label_array[i].get("value") {
-                        if let Some(text) = value.as_str() {
-                            // Track bracket depth to know when we've reached the end
-                            for ch in text.chars() {
-                                if ch == '<' {
-                                    bracket_depth += 1;
-                                    found_opening_bracket = true;
-                                } else if ch == '>' {
-                                    bracket_depth -= 1;
-                                }
-                            }
+        // For inlay hints, use the full Quantity<unit, type> format
+        let pretty_type = self
+            .formatter
+            .format_types_inlay_hint(&full_type, &self.display_config);
 
-                            parts_to_remove.push(i);
+        // For inlay hints specifically, prune ^1 exponents while keeping meaningful ones
+        let pretty_type = self.prune_inlay_hint_exponents(&pretty_type);
 
-                            // Stop when we've closed all brackets
-                            if found_opening_bracket && bracket_depth == 0 {
-                                break;
-                            }
-                        }
-                    }
-                }
+        // Replace the text of the "Quantity" part with the pretty version, preserving everything
+        // else about it (such as its location)
+        label_array[quantity_idx]["value"] = json!(pretty_type);
 
-                // Remove parts in reverse order to maintain indices
-                for &i in parts_to_remove.iter().rev() {
-                    label_array.remove(i);
-                }
-            } else {
-            }
-        } else {
+        // Remove the generic parameters parts, keeping what belongs to an enclosing type
+        if !surplus.is_empty() {
+            label_array[last]["value"] = json!(surplus);
+            parts_to_remove.pop();
         }
 
-        Ok(())
+        // Remove parts in reverse order to maintain indices
+        for &i in parts_to_remove.iter().rev() {
+            label_array.remove(i);
+        }
+
+        Ok(true)
     }
 
     /// Add a unit! macro text edit to the hint
@@ -243,9 +217,6 @@ impl InlayHintProcessor {
         // Replace existing textEdits with our seeded unit macro
         if let Some(existing_text_edits) = hint_obj.get_mut("textEdits") {
             if let Some(text_edits_array) = existing_text_edits.as_array_mut() {
-                // Clear existing text edits and add our unit! macro one
-                text_edits_array.clear();
-
                 // Get the range from the first existing text edit (if any)
                 let range = if let Some(first_edit) = text_edits_array.first() {
                     if let Some(range) = first_edit.get("range") {
@@ -265,6 +236,9 @@ impl InlayHintProcessor {
                     })
                 };
 
+                // Clear existing text edits and add our unit! macro one
+                text_edits_array.clear();
+
                 // Add our unit! macro text edit
                 let text_edit = json!({
                     "range": range,
-- 
2.43.0


From 9fc860531e659fc78ba5cb0dd1cd063bf4e80d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:27 +0000
Subject: [PATCH 11/21] fix: report a failure to write the end of a filtered
 file

The last line has no line end in file mode, so it was left to be written at exit, where errors are
ignored: the filter reported success although its output was cut short.
---
 whippyunits-pretty/src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/whippyunits-pretty/src/main.rs b/whippyunits-pretty/src/main.rs
index e5f888b..7304162 100644
--- a/whippyunits-pretty/src/main.rs
+++ b/whippyunits-pretty/src/main.rs
@@ -1,7 +1,7 @@
 use anyhow::Result;
 use clap::Parser;
 use log::info;
-use std::io::{self, BufRead, BufReader};
+use std::io::{self, BufRead, BufReader, Write};
 
 use whippyunits_lsp_proxy::DisplayConfig;
 use whippyunits_pretty::rustc_pretty::RustcPrettyPrinter;
@@ -71,5 +71,8 @@ async fn main() -> Result<()> {
         }
     }
 
+    // What is still buffered would be written at exit, where a failure goes unnoticed
+    io::stdout().flush()?;
+
     Ok(())
 }
-- 
2.43.0


From 9361e7bc4093eb1fe9ee891e17a384d446812135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:55 +0000
Subject: [PATCH 12/21] fix: define acre, foot-pound, gradian, arcminute,
 arcsecond and fahrenheit as they are

---
 src/quantity.rs               |  2 +-
 whippyunits-core/src/units.rs | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/quantity.rs b/src/quantity.rs
index cf1ef5e..32d928c 100644
--- a/src/quantity.rs
+++ b/src/quantity.rs
@@ -117,7 +117,7 @@ pub struct _A<const EXP: i16 = 0>;
 /// Angular units can involve "all of the above", plus a possible factor of π:
 ///  - revolution: `2π = _2<1>, _3<0>, _5<0>, _Pi<1>`
 ///  - degree: `π/180 = _2<-2>, _3<-2>, _5<-1>, _Pi<1>`
-///  - arcminute: `π/10800 = _2<-4>, _3<-2>, _5<-2>, _Pi<1>`
+///  - arcminute: `π/10800 = _2<-4>, _3<-3>, _5<-2>, _Pi<1>`
 #[allow(dead_code)]
 #[derive(PartialEq)]
 pub struct Scale<P2 = _2<0>, P3 = _3<0>, P5 = _5<0>, PI = _Pi<0>> {
diff --git a/whippyunits-core/src/units.rs b/whippyunits-core/src/units.rs
index 249a52b..f438a48 100644
--- a/whippyunits-core/src/units.rs
+++ b/whippyunits-core/src/units.rs
@@ -554,7 +554,7 @@ impl Unit<crate::dimension_exponents!([0, 0, 0, 0, 1, 0, 0, 0])> {
         symbols: &["degF"],
         scale: ScaleExponents([0, -2, 1, 0]),
         conversion_factor: IDENTITY,
-        affine_offset: 459.7,
+        affine_offset: 459.67,
         exponents: TypeDimensionExponents::new(),
         system: System::Imperial,
     };
@@ -598,7 +598,7 @@ impl Unit<crate::dimension_exponents!([0, 0, 0, 0, 0, 0, 0, 1])> {
     pub const GRADIAN: Self = Self {
         name: "gradian",
         symbols: &["grad"],
-        scale: ScaleExponents([-3, -1, -1, 1]),
+        scale: ScaleExponents([-3, 0, -2, 1]),
         conversion_factor: IDENTITY,
         affine_offset: NONE,
         exponents: TypeDimensionExponents::new(),
@@ -618,7 +618,7 @@ impl Unit<crate::dimension_exponents!([0, 0, 0, 0, 0, 0, 0, 1])> {
     pub const ARCMINUTE: Self = Self {
         name: "arcminute",
         symbols: &["arcmin"],
-        scale: ScaleExponents([-4, -2, -2, 1]),
+        scale: ScaleExponents([-4, -3, -2, 1]),
         conversion_factor: IDENTITY,
         affine_offset: NONE,
         exponents: TypeDimensionExponents::new(),
@@ -628,7 +628,7 @@ impl Unit<crate::dimension_exponents!([0, 0, 0, 0, 0, 0, 0, 1])> {
     pub const ARCSECOND: Self = Self {
         name: "arcsecond",
         symbols: &["arcsec"],
-        scale: ScaleExponents([-6, -2, -2, 1]),
+        scale: ScaleExponents([-6, -4, -3, 1]),
         conversion_factor: IDENTITY,
         affine_offset: NONE,
         exponents: TypeDimensionExponents::new(),
@@ -717,7 +717,7 @@ impl Unit<crate::dimension_exponents!([1, 2, -2, 0, 0, 0, 0, 0])> {
     pub const FOOT_POUND: Self = Self {
         name: "foot_pound",
         symbols: &["ft_lb"],
-        scale: ScaleExponents::_10(1),
+        scale: ScaleExponents::IDENTITY,
         conversion_factor: 1.3558179483314004,
         affine_offset: NONE,
         exponents: TypeDimensionExponents::new(),
@@ -999,7 +999,7 @@ impl Unit<crate::dimension_exponents!([0, 2, 0, 0, 0, 0, 0, 0])> {
     pub const ACRE: Self = Self {
         name: "acre",
         symbols: &["acre"],
-        scale: ScaleExponents::_10(3),
+        scale: ScaleExponents::_10(4),
         conversion_factor: 0.40468564224, // 1 acre = 4046.8564224 m²
         affine_offset: NONE,
         exponents: TypeDimensionExponents::new(),
-- 
2.43.0


From 01e2dd76a2ac6d235af445a2c4af9f9d81d308df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:34 +0000
Subject: [PATCH 13/21] fix: parse keyword and non-ASCII unit symbols and
 refuse exponents out of range

---
 whippyunits-core/src/parser.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/whippyunits-core/src/parser.rs b/whippyunits-core/src/parser.rs
index b09ad63..9392da4 100644
--- a/whippyunits-core/src/parser.rs
+++ b/whippyunits-core/src/parser.rs
@@ -1,6 +1,7 @@
 #[cfg(not(test))]
 extern crate alloc;
 
+use syn::ext::IdentExt;
 use syn::parse::{Parse, ParseStream, Result};
 use syn::token::{Caret, Dot, Slash, Star};
 use syn::{Ident, LitInt};
@@ -115,6 +116,7 @@ impl UnitExpr {
         if input.peek(Caret) {
             let _caret: Caret = input.parse()?;
             let exponent: LitInt = input.parse()?;
+            exponent.base10_parse::<i16>()?; // evaluation relies on the exponent being in range
             Ok(UnitExpr::Pow(Box::new(base), exponent))
         } else {
             Ok(base)
@@ -135,7 +137,7 @@ impl UnitExpr {
             if input.peek(Caret) {
                 let _caret: Caret = input.parse()?;
                 let exponent_lit: LitInt = input.parse()?;
-                let exponent: i32 = exponent_lit.base10_parse()?;
+                let exponent: i16 = exponent_lit.base10_parse()?;
 
                 // Handle power-of-10 expressions like "10^4"
                 if base_value == 10 {
@@ -144,7 +146,7 @@ impl UnitExpr {
                     // For now, we'll create a unit with the appropriate scale factor
                     Ok(UnitExpr::Unit(UnitExprUnit {
                         name: syn::Ident::new("power_of_10", proc_macro2::Span::call_site()),
-                        exponent: exponent as i16,
+                        exponent,
                     }))
                 } else {
                     // For other bases, treat as regular power expression
@@ -173,11 +175,12 @@ impl UnitExpr {
                 }
             }
         } else {
-            let ident: Ident = input.parse()?;
+            // Some unit symbols, like `in`, are keywords
+            let ident: Ident = input.call(Ident::parse_any)?.unraw();
 
             // Check for implicit exponent notation (UCUM format like "s2" instead of "s^2")
             let ident_str = ident.to_string();
-            if let Some(pos) = ident_str.chars().position(|c| c.is_ascii_digit()) {
+            if let Some(pos) = ident_str.find(|c: char| c.is_ascii_digit()) {
                 let base_name = &ident_str[..pos];
                 let exp_str = &ident_str[pos..];
                 if let Ok(exp) = exp_str.parse::<i16>() {
-- 
2.43.0


From 3a212b8e95a11d09b4f73292ba146b0362e8e171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:32 +0000
Subject: [PATCH 14/21] fix: serialize a quantity's value in the unit that is
 written with it

---
 src/print/name_lookup.rs | 75 ++++++++++++++++++++++++++++++++--------
 src/serialization.rs     | 49 ++++++++++++++++++++++++--
 2 files changed, 108 insertions(+), 16 deletions(-)

diff --git a/src/print/name_lookup.rs b/src/print/name_lookup.rs
index de11179..a763e60 100644
--- a/src/print/name_lookup.rs
+++ b/src/print/name_lookup.rs
@@ -1,4 +1,4 @@
-use crate::alloc::{String, ToString, Vec};
+use crate::alloc::{String, ToString, Vec, format};
 use whippyunits_core::{
     scale_exponents::ScaleExponents,
     storage_unit::{
@@ -46,25 +46,72 @@ pub fn generate_systematic_unit_name_with_format(
         exponents[7],
     ]);
 
-    // Use the centralized logic from whippyunits-core
-    let base_result = generate_systematic_composite_unit_name(dimension_exponents, long_name);
-
-    // Apply format-specific transformations
     match format {
-        crate::print::prettyprint::UnitFormat::Unicode => base_result,
+        crate::print::prettyprint::UnitFormat::Unicode => {
+            // Use the centralized logic from whippyunits-core
+            generate_systematic_composite_unit_name(dimension_exponents, long_name)
+        }
         crate::print::prettyprint::UnitFormat::Ucum => {
-            // Convert Unicode format to UCUM format
-            convert_unicode_to_ucum_format(&base_result)
+            generate_ucum_unit_name(dimension_exponents, long_name)
         }
     }
 }
 
-/// Convert Unicode format unit string to UCUM format
-fn convert_unicode_to_ucum_format(unicode_unit: &str) -> String {
-    // This is a simplified conversion - in practice, you might need more sophisticated logic
-    // For now, just return the unicode format as-is since the core logic already handles
-    // the basic formatting correctly
-    unicode_unit.to_string()
+/// Generate a UCUM unit expression in coherent SI units (e.g. `kg.m2/s2`, `1/s`, `1`),
+/// as understood by the unit expression parser
+fn generate_ucum_unit_name(
+    dimension_exponents: whippyunits_core::dimension_exponents::DynDimensionExponents,
+    long_name: bool,
+) -> String {
+    let mut numerator: Vec<String> = Vec::new();
+    let mut denominator: Vec<String> = Vec::new();
+
+    for (index, &exponent) in dimension_exponents.0.iter().enumerate() {
+        if exponent == 0 {
+            continue;
+        }
+        if exponent == i16::MIN {
+            // Not resolved
+            return "?".to_string();
+        }
+        let Some(unit) = whippyunits_core::Dimension::BASIS
+            .get(index)
+            .and_then(|dimension| dimension.units.first())
+        else {
+            return "?".to_string();
+        };
+        let name = if long_name {
+            unit.name
+        } else {
+            unit.symbols[0]
+        };
+        // The gram is the only base unit that is not coherent
+        let prefix = match (unit.scale == ScaleExponents::IDENTITY, long_name) {
+            (true, _) => "",
+            (false, true) => "kilo",
+            (false, false) => "k",
+        };
+        let terms = if exponent > 0 {
+            &mut numerator
+        } else {
+            &mut denominator
+        };
+        terms.push(match exponent.unsigned_abs() {
+            1 => format!("{}{}", prefix, name),
+            power => format!("{}{}{}", prefix, name, power),
+        });
+    }
+
+    let mut result = if numerator.is_empty() {
+        "1".to_string()
+    } else {
+        numerator.join(".")
+    };
+    if !denominator.is_empty() {
+        result.push('/');
+        result.push_str(&denominator.join("."));
+    }
+    result
 }
 
 pub type DimensionNames = CoreDimensionNames;
diff --git a/src/serialization.rs b/src/serialization.rs
index eefb8a0..9c0069d 100644
--- a/src/serialization.rs
+++ b/src/serialization.rs
@@ -60,6 +60,9 @@ use syn::parse_str;
 use serde::{Deserialize, Deserializer, Serialize, Serializer, de::Visitor};
 
 /// Convert a whippyunits quantity to UCUM unit string
+///
+/// The unit is the coherent SI unit of the quantity's dimension, whatever the quantity's scale;
+/// [`to_ucum_value`] gives the value that goes with it.
 pub fn to_ucum_unit<
     const MASS_EXPONENT: i16,
     const LENGTH_EXPONENT: i16,
@@ -106,6 +109,48 @@ where
     generate_systematic_unit_name_with_format(exponents, false, UnitFormat::Ucum)
 }
 
+/// Convert a whippyunits quantity to its value in the unit given by [`to_ucum_unit`]
+pub fn to_ucum_value<
+    const MASS_EXPONENT: i16,
+    const LENGTH_EXPONENT: i16,
+    const TIME_EXPONENT: i16,
+    const CURRENT_EXPONENT: i16,
+    const TEMPERATURE_EXPONENT: i16,
+    const AMOUNT_EXPONENT: i16,
+    const LUMINOSITY_EXPONENT: i16,
+    const ANGLE_EXPONENT: i16,
+    const SCALE_P2: i16,
+    const SCALE_P3: i16,
+    const SCALE_P5: i16,
+    const SCALE_PI: i16,
+    T,
+>(
+    quantity: &Quantity<
+        Scale<_2<SCALE_P2>, _3<SCALE_P3>, _5<SCALE_P5>, _Pi<SCALE_PI>>,
+        Dimension<
+            _M<MASS_EXPONENT>,
+            _L<LENGTH_EXPONENT>,
+            _T<TIME_EXPONENT>,
+            _I<CURRENT_EXPONENT>,
+            _Θ<TEMPERATURE_EXPONENT>,
+            _N<AMOUNT_EXPONENT>,
+            _J<LUMINOSITY_EXPONENT>,
+            _A<ANGLE_EXPONENT>,
+        >,
+        T,
+    >,
+) -> f64
+where
+    T: Into<f64> + Copy,
+{
+    let (dimensions, scale) = get_quantity_dimensions(quantity);
+    quantity.unsafe_value.into()
+        * calculate_conversion_factor(
+            &(dimensions, scale),
+            &(dimensions, ScaleExponents::IDENTITY),
+        )
+}
+
 /// Errors that can occur during UCUM serialization/deserialization
 #[derive(Debug, Clone, PartialEq)]
 pub enum UcumError {
@@ -249,7 +294,6 @@ where
     {
         use serde::ser::SerializeMap;
 
-        let value = self.unsafe_value.into();
         // Create a temporary quantity with Brand = () to pass to to_ucum_unit
         // (Brand is a phantom type and doesn't affect unit calculation)
         let temp_value = self.unsafe_value; // T: Copy from trait bounds
@@ -283,6 +327,7 @@ where
             SCALE_PI,
             T,
         >(&quantity_for_unit);
+        let value = to_ucum_value(&quantity_for_unit);
 
         let mut map = serializer.serialize_map(Some(2))?;
         map.serialize_entry("value", &value)?;
@@ -593,7 +638,7 @@ pub fn serialize_to_json<
 where
     T: Into<f64> + Copy,
 {
-    let value = quantity.unsafe_value.into();
+    let value = to_ucum_value(quantity);
     let unit = to_ucum_unit(quantity);
     serde_json::to_string(&serde_json::json!({
         "value": value,
-- 
2.43.0


From ce3ad007be7b385c0a2bdffb51981c4fe831a38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:01 +0000
Subject: [PATCH 15/21] fix: refuse unit strings that would be read as
 something they do not say

---
 src/serialization.rs | 130 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 104 insertions(+), 26 deletions(-)

diff --git a/src/serialization.rs b/src/serialization.rs
index 9c0069d..1b1a8b7 100644
--- a/src/serialization.rs
+++ b/src/serialization.rs
@@ -44,7 +44,7 @@ use crate::quantity::Quantity;
 use crate::quantity::{_2, _3, _5, _A, _I, _J, _L, _M, _N, _Pi, _T, _Θ, Dimension, Scale};
 use whippyunits_core::{
     SiPrefix, Unit, UnitEvaluationResult, UnitExpr, dimension_exponents::DynDimensionExponents,
-    scale_exponents::ScaleExponents,
+    get_unit_info, scale_exponents::ScaleExponents,
 };
 
 /// Represents the dimension and scale exponents for a unit using proper whippyunits-core types
@@ -54,7 +54,7 @@ pub type UnitDimensions = (
 );
 
 use crate::alloc::{String, ToString, Vec, format, vec};
-use proc_macro2::TokenStream;
+use proc_macro2::{TokenStream, TokenTree};
 use syn::parse_str;
 
 use serde::{Deserialize, Deserializer, Serialize, Serializer, de::Visitor};
@@ -648,6 +648,98 @@ where
 
 // deserialize_from_json removed - not compatible with compile-time only units library
 
+/// Longest unit expression that is accepted from outside the program; parsing and evaluation
+/// recurse into it.
+const MAX_UNIT_EXPR_LEN: usize = 512;
+
+/// Parse a unit string into a unit expression that can be evaluated as it stands
+fn parse_unit_expr(unit_str: &str) -> Result<UnitExpr, SerializationError> {
+    let malformed =
+        || SerializationError::ParseError(format!("Failed to parse unit string: {}", unit_str));
+
+    // The tokenizer would skip comments
+    if unit_str.len() > MAX_UNIT_EXPR_LEN || unit_str.contains("//") || unit_str.contains("/*") {
+        return Err(malformed());
+    }
+
+    let token_stream: TokenStream = parse_str(unit_str).map_err(|_| malformed())?;
+    if !literals_are_meaningful(token_stream.clone()) {
+        return Err(malformed());
+    }
+    let unit_expr: UnitExpr = syn::parse2(token_stream).map_err(|_| malformed())?;
+
+    // Evaluation takes unknown units for dimensionless ones
+    for name in unit_expr.collect_unit_identifiers() {
+        let name = name.to_string();
+        if name != "dimensionless" && name != "power_of_10" && get_unit_info(&name).is_none() {
+            return Err(SerializationError::UnknownUnit(name));
+        }
+    }
+
+    if exponent_bound(&unit_expr) > i16::MAX as u64 {
+        return Err(malformed());
+    }
+
+    Ok(unit_expr)
+}
+
+/// Whether every number in a unit expression is an exponent, `1` or `10`; the parser takes any
+/// other number, and the suffix of any number, for dimensionless
+fn literals_are_meaningful(token_stream: TokenStream) -> bool {
+    let mut exponent = false;
+    for token in token_stream {
+        match token {
+            TokenTree::Group(group) => {
+                if !literals_are_meaningful(group.stream()) {
+                    return false;
+                }
+                exponent = false;
+            }
+            TokenTree::Literal(literal) => {
+                let literal = literal.to_string();
+                let meaningful = if exponent {
+                    literal.bytes().all(|byte| byte.is_ascii_digit())
+                } else {
+                    literal == "1" || literal == "10"
+                };
+                if !meaningful {
+                    return false;
+                }
+                exponent = false;
+            }
+            TokenTree::Punct(punct) => {
+                exponent = punct.as_char() == '^' || (exponent && punct.as_char() == '-');
+            }
+            TokenTree::Ident(_) => exponent = false,
+        }
+    }
+    true
+}
+
+/// Upper bound for the magnitude of every exponent that evaluating the expression computes
+fn exponent_bound(expr: &UnitExpr) -> u64 {
+    match expr {
+        UnitExpr::Unit(unit) => {
+            let largest = get_unit_info(&unit.name.to_string())
+                .into_iter()
+                .flat_map(|info| info.exponents.0.into_iter().chain(info.scale.0))
+                .map(|exponent| exponent.unsigned_abs() as u64)
+                .max()
+                .unwrap_or(0);
+            // Prefixes contribute up to 30 to the scale
+            (largest + 30) * unit.exponent.unsigned_abs() as u64
+        }
+        UnitExpr::Mul(a, b) | UnitExpr::Div(a, b) => {
+            exponent_bound(a).saturating_add(exponent_bound(b))
+        }
+        UnitExpr::Pow(base, exponent) => exponent_bound(base).saturating_mul(
+            exponent
+                .base10_parse::<i16>()
+                .map_or(u64::MAX, |exponent| exponent.unsigned_abs() as u64),
+        ),
+    }
+}
+
 /// Parse a UCUM unit string to extract dimension exponents and scale factors
 /// Returns (mass, length, time, current, temperature, amount, luminosity, angle, p2, p3, p5, pi)
 pub fn parse_ucum_unit(ucum_string: &str) -> Result<UnitDimensions, UcumError> {
@@ -659,13 +751,8 @@ pub fn parse_ucum_unit(ucum_string: &str) -> Result<UnitDimensions, UcumError> {
         ));
     }
 
-    // Convert the string to a TokenStream for parsing
-    let token_stream: TokenStream = parse_str(ucum_string).map_err(|_| {
-        UcumError::UnknownDimension(DynDimensionExponents([0, 0, 0, 0, 0, 0, 0, 0]))
-    })?;
-
-    // Parse the TokenStream into a UnitExpr
-    let unit_expr: UnitExpr = syn::parse2(token_stream).map_err(|_| {
+    // Parse the string into a UnitExpr in which every unit is known
+    let unit_expr = parse_unit_expr(ucum_string).map_err(|_| {
         UcumError::UnknownDimension(DynDimensionExponents([0, 0, 0, 0, 0, 0, 0, 0]))
     })?;
 
@@ -699,23 +786,14 @@ pub fn validate_dimensions(
 /// Returns (conversion_factor, affine_offset) for nonstorage units
 /// For storage units, returns (1.0, 0.0)
 fn calculate_unit_conversion_factors(unit_str: &str) -> Result<(f64, f64), SerializationError> {
-    use proc_macro2::TokenStream;
-    use syn::parse_str;
-    use whippyunits_core::{UnitExpr, calculate_unit_conversion_factors as calc_cf};
+    use whippyunits_core::calculate_unit_conversion_factors as calc_cf;
 
     // Handle dimensionless case
     if unit_str == "1" {
         return Ok((1.0, 0.0));
     }
 
-    // Parse the unit string into a UnitExpr
-    let token_stream: TokenStream = parse_str(unit_str).map_err(|_| {
-        SerializationError::ParseError(format!("Failed to parse unit string: {}", unit_str))
-    })?;
-
-    let unit_expr: UnitExpr = syn::parse2(token_stream).map_err(|_| {
-        SerializationError::ParseError(format!("Failed to parse unit expression: {}", unit_str))
-    })?;
+    let unit_expr = parse_unit_expr(unit_str)?;
 
     // Use the shared logic from whippyunits-core
     Ok(calc_cf(&unit_expr))
@@ -1092,6 +1170,9 @@ pub fn deserialize_core<
     value: f64,
     unit_str: &str,
 ) -> Result<f64, SerializationError> {
+    // Calculate nonstorage unit conversion factors (if any)
+    let (unit_cf, unit_af) = calculate_unit_conversion_factors(unit_str)?;
+
     // Parse UCUM unit to get dimensions
     let parsed_dims = parse_ucum_unit(unit_str)
         .map_err(|e| SerializationError::ParseError(format!("Failed to parse UCUM unit: {}", e)))?;
@@ -1119,9 +1200,6 @@ pub fn deserialize_core<
         });
     }
 
-    // Calculate nonstorage unit conversion factors (if any)
-    let (unit_cf, unit_af) = calculate_unit_conversion_factors(unit_str)?;
-
     // Apply nonstorage unit conversion factor and affine offset
     let value_with_unit_conversion = (value * unit_cf) + unit_af;
 
@@ -1169,6 +1247,9 @@ pub fn deserialize_core_quantity<
 where
     T: From<f64> + Copy,
 {
+    // Calculate nonstorage unit conversion factors (if any)
+    let (unit_cf, unit_af) = calculate_unit_conversion_factors(unit_str)?;
+
     // Parse UCUM unit to get dimensions
     let parsed_dims = parse_ucum_unit(unit_str)
         .map_err(|e| SerializationError::ParseError(format!("Failed to parse UCUM unit: {}", e)))?;
@@ -1196,9 +1277,6 @@ where
         });
     }
 
-    // Calculate nonstorage unit conversion factors (if any)
-    let (unit_cf, unit_af) = calculate_unit_conversion_factors(unit_str)?;
-
     // Apply nonstorage unit conversion factor and affine offset
     let value_with_unit_conversion = (value * unit_cf) + unit_af;
 
-- 
2.43.0


From 6b6075ca784f79e3a7da3fa470754da71ea89829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:38 +0000
Subject: [PATCH 16/21] fix: convert between scales that are further apart than
 the lookup tables reach

---
 src/serialization.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/serialization.rs b/src/serialization.rs
index 1b1a8b7..13b89e5 100644
--- a/src/serialization.rs
+++ b/src/serialization.rs
@@ -802,6 +802,29 @@ fn calculate_unit_conversion_factors(unit_str: &str) -> Result<(f64, f64), Seria
 /// Calculate conversion factor between two units with matching dimensions
 /// Uses the existing scale_conversion logic for consistency
 pub fn calculate_conversion_factor(from_dims: &UnitDimensions, to_dims: &UnitDimensions) -> f64 {
+    // The scale conversion tables end at ±100 for the primes and at ±8 for pi, and scales
+    // that are only known at run time may be further apart
+    let differences: Vec<f64> = from_dims
+        .1
+        .0
+        .iter()
+        .zip(to_dims.1.0)
+        .map(|(&from, to)| f64::from(from) - f64::from(to))
+        .collect();
+    if differences[..3].iter().any(|d| d.abs() > 100.0) || differences[3].abs() > 8.0 {
+        // Tens first, as twos and fives alone may be out of range when together they are not
+        let tens = if differences[0] * differences[2] > 0.0 {
+            differences[0].signum() * differences[0].abs().min(differences[2].abs())
+        } else {
+            0.0
+        };
+        return libm::pow(10.0, tens)
+            * libm::pow(2.0, differences[0] - tens)
+            * libm::pow(3.0, differences[1])
+            * libm::pow(5.0, differences[2] - tens)
+            * libm::pow(core::f64::consts::PI, differences[3]);
+    }
+
     // Use the existing scale conversion logic
     aggregate_scale_factor_float(
         from_dims.1.0[0],
-- 
2.43.0


From 42342dacabb1fc80a672a0af4e5b2f42a88c58b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:38 +0000
Subject: [PATCH 17/21] fix: refuse a record with duplicate fields in
 from_json, as deserialization does

---
 src/serialization.rs | 52 ++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 48 insertions(+), 4 deletions(-)

diff --git a/src/serialization.rs b/src/serialization.rs
index 13b89e5..98b546e 100644
--- a/src/serialization.rs
+++ b/src/serialization.rs
@@ -1103,14 +1103,58 @@ macro_rules! from_string {
 pub fn parse_json_input(json: &str) -> Result<(f64, String), SerializationError> {
     use serde_json;
 
-    let json_value: serde_json::Value = serde_json::from_str(json)
+    // A map as it stands in the text, since `serde_json::Value` keeps only one of duplicate fields
+    struct Record(Option<serde_json::Value>, Option<serde_json::Value>);
+
+    impl<'de> Deserialize<'de> for Record {
+        fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
+            struct RecordVisitor;
+
+            impl<'de> Visitor<'de> for RecordVisitor {
+                type Value = Record;
+
+                fn expecting(&self, formatter: &mut core::fmt::Formatter) -> core::fmt::Result {
+                    formatter.write_str("a map with 'value' (number) and 'unit' (string) fields")
+                }
+
+                fn visit_map<A>(self, mut map: A) -> Result<Record, A::Error>
+                where
+                    A: serde::de::MapAccess<'de>,
+                {
+                    use serde::de::Error;
+
+                    let mut record = Record(None, None);
+                    while let Some(key) = map.next_key::<String>()? {
+                        let (field, name) = match key.as_str() {
+                            "value" => (&mut record.0, "value"),
+                            "unit" => (&mut record.1, "unit"),
+                            _ => {
+                                let _ = map.next_value::<serde::de::IgnoredAny>()?;
+                                continue;
+                            }
+                        };
+                        if field.replace(map.next_value()?).is_some() {
+                            return Err(Error::duplicate_field(name));
+                        }
+                    }
+                    Ok(record)
+                }
+            }
+
+            deserializer.deserialize_map(RecordVisitor)
+        }
+    }
+
+    let record: Record = serde_json::from_str(json)
         .map_err(|e| SerializationError::ParseError(format!("Invalid JSON format: {}", e)))?;
 
-    let value: f64 = json_value["value"].as_f64().ok_or_else(|| {
+    let value: f64 = record.0.and_then(|value| value.as_f64()).ok_or_else(|| {
         SerializationError::InvalidFormat("Missing or invalid 'value' field".to_string())
     })?;
-    let unit_str: String = json_value["unit"]
-        .as_str()
+    let unit_str: String = record
+        .1
+        .as_ref()
+        .and_then(|unit| unit.as_str())
         .ok_or_else(|| {
             SerializationError::InvalidFormat("Missing or invalid 'unit' field".to_string())
         })?
-- 
2.43.0


From caec89755edec3fecde8c65234c840791512a24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:53 +0000
Subject: [PATCH 18/21] fix: generate declarators in the same order in every
 build

---
 proc-macros/src/generate_default_declarators_macro.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/proc-macros/src/generate_default_declarators_macro.rs b/proc-macros/src/generate_default_declarators_macro.rs
index f61f445..0fac00e 100644
--- a/proc-macros/src/generate_default_declarators_macro.rs
+++ b/proc-macros/src/generate_default_declarators_macro.rs
@@ -521,9 +521,9 @@ impl DefaultDeclaratorsInput {
             return;
         }
 
-        // Group units by their dimension name (not exponents)
-        let mut grouped_units: std::collections::HashMap<_, Vec<_>> =
-            std::collections::HashMap::new();
+        // Group units by their dimension name (not exponents), in an order that is the same in every build
+        let mut grouped_units: std::collections::BTreeMap<_, Vec<_>> =
+            std::collections::BTreeMap::new();
         for (dimension, unit) in system_units {
             grouped_units
                 .entry(dimension.name)
-- 
2.43.0


From 4ecb1349673bc92bad3b3a53f35bb90773c77fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:19 +0000
Subject: [PATCH 19/21] fix: refuse a unit with a minus sign outside an
 exponent instead of dropping the sign

---
 src/serialization.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/serialization.rs b/src/serialization.rs
index 98b546e..a1b4dbb 100644
--- a/src/serialization.rs
+++ b/src/serialization.rs
@@ -708,7 +708,11 @@ fn literals_are_meaningful(token_stream: TokenStream) -> bool {
                 exponent = false;
             }
             TokenTree::Punct(punct) => {
-                exponent = punct.as_char() == '^' || (exponent && punct.as_char() == '-');
+                // Nor does the sign of anything but an exponent have a meaning
+                if punct.as_char() == '-' && !exponent {
+                    return false;
+                }
+                exponent = matches!(punct.as_char(), '^' | '-');
             }
             TokenTree::Ident(_) => exponent = false,
         }
-- 
2.43.0


From 4981ca503cf49d9f4acbdd9b71c68c42ae4389c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:18 +0000
Subject: [PATCH 20/21] fix: do not take a header cut at its last line end for
 a complete message

---
 lsp-proxy/src/main.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lsp-proxy/src/main.rs b/lsp-proxy/src/main.rs
index dc8a462..03244a2 100644
--- a/lsp-proxy/src/main.rs
+++ b/lsp-proxy/src/main.rs
@@ -208,6 +208,9 @@ async fn read_lsp_message<R: AsyncBufReadExt + Unpin>(
         match reader.read_line(buffer).await {
             Ok(0) if in_header => return Err(anyhow::anyhow!("Stream ended inside a header")),
             Ok(0) => return Ok(None), // EOF
+            Ok(_) if !buffer.ends_with('\n') => {
+                return Err(anyhow::anyhow!("Stream ended inside a header"))
+            }
             Ok(_) => {}
             Err(e) => return Err(anyhow::anyhow!("Failed to read header: {}", e)),
         }
-- 
2.43.0


From f0e172190e19606f5252e23bf2bafc9ac320f3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:45 +0000
Subject: [PATCH 21/21] fix: refuse a second exponent behind the exponent of a
 number

---
 whippyunits-core/src/parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/whippyunits-core/src/parser.rs b/whippyunits-core/src/parser.rs
index 9392da4..19d3ad6 100644
--- a/whippyunits-core/src/parser.rs
+++ b/whippyunits-core/src/parser.rs
@@ -111,9 +111,11 @@ impl UnitExpr {
     }
 
     fn parse_power(input: ParseStream) -> Result<Self> {
+        // The exponent of a number is part of the atom; another one would be ambiguous (10^2^3)
+        let number = input.peek(LitInt);
         let base = Self::parse_atom(input)?;
 
-        if input.peek(Caret) {
+        if input.peek(Caret) && !number {
             let _caret: Caret = input.parse()?;
             let exponent: LitInt = input.parse()?;
             exponent.base10_parse::<i16>()?; // evaluation relies on the exponent being in range
-- 
2.43.0

