From 579b64ac60c62747c6978866692b7cbd09d7697a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:47 +0000
Subject: [PATCH 01/14] fix: write the whole content in write_to_file and
 write_bytes

A single write(2) may be short; the rest of the content was silently lost
while the helpers reported success.
---
 smd-core/src/fs.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/smd-core/src/fs.rs b/smd-core/src/fs.rs
index 098c219..3bf8cc7 100644
--- a/smd-core/src/fs.rs
+++ b/smd-core/src/fs.rs
@@ -47,11 +47,13 @@ pub fn write_to_file(path: &PathBuf, content: &str) -> Result<()> {
 	debug!("Attempting to write file: {}", path_str);
 
 	let mut file = File::create(path)?;
-	match file.write(content.as_bytes()) {
-		Ok(bytes_written) => {
+	match file.write_all(content.as_bytes()) {
+		Ok(()) => {
 			info!(
 				"\"{}\" {}L, {}B written",
-				path_str, line_count, bytes_written
+				path_str,
+				line_count,
+				content.len()
 			);
 			Ok(())
 		}
@@ -69,9 +71,9 @@ pub fn write_bytes(path: &PathBuf, bytes: &Vec<u8>) -> Result<()> {
 	debug!("Attempting to write file: {}", path_str);
 
 	let mut file = File::create(path)?;
-	match file.write(bytes) {
-		Ok(bytes_written) => {
-			info!("\"{}\", {}B written", path_str, bytes_written);
+	match file.write_all(bytes) {
+		Ok(()) => {
+			info!("\"{}\", {}B written", path_str, bytes.len());
 			Ok(())
 		}
 		Err(e) => {
-- 
2.43.0


From 2b49c922e2bd40cdbad795be4e1e33c3f7efc314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:13 +0000
Subject: [PATCH 02/14] fix: give every PDF conversion a temporary page of its
 own and always remove it

tmp.html in the working directory overwrote and deleted a file of the user's
with that name, was shared by concurrent conversions, which then printed each
other's pages or failed, and stayed behind when the browser failed.
---
 smd-core/src/convert.rs | 15 ++++++++++-----
 smd-core/src/fs.rs      | 40 ++++++++++++++++++++++++++++++++++++++--
 2 files changed, 48 insertions(+), 7 deletions(-)

diff --git a/smd-core/src/convert.rs b/smd-core/src/convert.rs
index 3662974..3d2900d 100644
--- a/smd-core/src/convert.rs
+++ b/smd-core/src/convert.rs
@@ -8,7 +8,10 @@ use headless_chrome::types::PrintToPdfOptions;
 use crate::{
 	browser::BrowserSession,
 	error::Result,
-	fs::write_to_file,
+	fs::{
+		create_unique,
+		write_to_file,
+	},
 };
 
 /// Trait for converting html to other file formats.
@@ -30,11 +33,13 @@ impl Convert for PDFConverter {
 		let browser = BrowserSession::initialize()?;
 
 		let current_dir = env::current_dir()?;
-		let tmpfile = current_dir.join("tmp.html");
+		let tmpfile = create_unique(&current_dir, "tmp", "html")?;
 
-		write_to_file(&tmpfile, html)?;
-		let tab_id = browser.open_file(&tmpfile)?;
-		fs::remove_file(tmpfile)?;
+		let opened = write_to_file(&tmpfile, html)
+			.and_then(|()| browser.open_file(&tmpfile));
+		let removed = fs::remove_file(tmpfile);
+		let tab_id = opened?;
+		removed?;
 
 		let options = PrintToPdfOptions {
 			margin_top: Some(0.0),
diff --git a/smd-core/src/fs.rs b/smd-core/src/fs.rs
index 3bf8cc7..df4b9f2 100644
--- a/smd-core/src/fs.rs
+++ b/smd-core/src/fs.rs
@@ -10,8 +10,19 @@ use std::{
 		self,
 		File,
 	},
-	io::Write,
-	path::PathBuf,
+	io::{
+		ErrorKind,
+		Write,
+	},
+	path::{
+		Path,
+		PathBuf,
+	},
+	process,
+	sync::atomic::{
+		AtomicUsize,
+		Ordering,
+	},
 };
 
 /// Trait for serializing objects to strings.
@@ -83,6 +94,31 @@ pub fn write_bytes(path: &PathBuf, bytes: &Vec<u8>) -> Result<()> {
 	}
 }
 
+/// Creates an empty file in `dir` that nobody else uses and returns its path.
+pub(crate) fn create_unique(
+	dir: &Path,
+	prefix: &str,
+	extension: &str,
+) -> Result<PathBuf> {
+	static COUNTER: AtomicUsize = AtomicUsize::new(0);
+
+	loop {
+		let path = dir.join(format!(
+			"{}-{}-{}.{}",
+			prefix,
+			process::id(),
+			COUNTER.fetch_add(1, Ordering::Relaxed),
+			extension
+		));
+
+		match File::create_new(&path) {
+			Ok(_) => return Ok(path),
+			Err(e) if e.kind() == ErrorKind::AlreadyExists => continue,
+			Err(e) => return Err(e.into()),
+		}
+	}
+}
+
 /// Serialize an object to a string.
 pub fn encode_to_string<T>(value: &T) -> Result<String>
 where
-- 
2.43.0


From 630dc66cdb72dba5976d990d14109af6711fd3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:40 +0000
Subject: [PATCH 03/14] fix: percent-encode the path of the page in its file
 URL

In a working directory whose name contains '%', '#', '?' or other characters
with a meaning in URLs the browser was sent to another file or none.
---
 smd-core/src/browser.rs | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/smd-core/src/browser.rs b/smd-core/src/browser.rs
index 9c2f903..5e7aafd 100644
--- a/smd-core/src/browser.rs
+++ b/smd-core/src/browser.rs
@@ -4,7 +4,10 @@ use crate::error::{
 };
 use std::{
 	env,
-	path::PathBuf,
+	path::{
+		Path,
+		PathBuf,
+	},
 };
 
 use headless_chrome::{
@@ -13,6 +16,25 @@ use headless_chrome::{
 	Browser,
 };
 
+/// Builds the URL of a local file, percent-encoding every byte of its path that
+/// has or could have a meaning of its own in a URL.
+fn file_url(path: &Path) -> String {
+	let mut url = String::from("file://");
+
+	for &byte in path.as_os_str().as_encoded_bytes() {
+		if byte.is_ascii_alphanumeric() ||
+			b"/-._~".contains(&byte) ||
+			(cfg!(windows) && b":\\".contains(&byte))
+		{
+			url.push(char::from(byte));
+		} else {
+			url.push_str(&format!("%{:02X}", byte));
+		}
+	}
+
+	url
+}
+
 /// Wrapper for interactions with the `headless_chrome` crate.
 pub struct BrowserSession(Browser);
 
@@ -32,7 +54,7 @@ impl BrowserSession {
 	pub fn open_file(&self, path: &PathBuf) -> Result<TargetID> {
 		let current_dir = env::current_dir()?;
 		let html_file_path = current_dir.join(path);
-		let file_url = format!("file://{}", html_file_path.to_string_lossy());
+		let file_url = file_url(&html_file_path);
 
 		let tab = self.0.new_tab().map_err(|_| {
 			Error::BrowserError("Failed to open new tab.".to_string())
-- 
2.43.0


From 97e337ec47474b201081c2638fb7120960c86eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:40 +0000
Subject: [PATCH 04/14] fix: treat an empty print as a browser error

A print reply without data replaced the PDF with an empty file and smd
reported success.
---
 smd-core/src/browser.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/smd-core/src/browser.rs b/smd-core/src/browser.rs
index 5e7aafd..6131529 100644
--- a/smd-core/src/browser.rs
+++ b/smd-core/src/browser.rs
@@ -97,6 +97,12 @@ impl BrowserSession {
 			Error::BrowserError("Failed to print to PDF:".to_string())
 		})?;
 
+		if pdf_data.is_empty() {
+			return Err(Error::BrowserError(
+				"The browser returned an empty PDF.".to_string(),
+			));
+		}
+
 		Ok(pdf_data)
 	}
 }
-- 
2.43.0


From b0e0a484fbb4cc2793e26eff459d1a3369e4d3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:58 +0000
Subject: [PATCH 05/14] fix: refuse a conversion whose output is its own source

Converting notes.html to HTML (or a file whose .html or .pdf sibling is a link
to it) replaced the source document with its rendering.
---
 smd/src/lib.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/smd/src/lib.rs b/smd/src/lib.rs
index b9c8950..67ab52c 100644
--- a/smd/src/lib.rs
+++ b/smd/src/lib.rs
@@ -9,9 +9,16 @@ use smd_core::{
 		self,
 		PDFConverter,
 	},
-	error::Result,
+	error::{
+		Error,
+		Result,
+	},
 	fs,
 };
+use std::{
+	io::ErrorKind,
+	path::Path,
+};
 
 pub mod args;
 pub mod logger;
@@ -19,6 +26,18 @@ pub mod logger;
 const HTML_FILE_ENDING: &str = "html";
 const PDF_FILE_ENDING: &str = "pdf";
 
+/// Fails if writing the output would overwrite the source document.
+fn ensure_not_input(output: &Path, input: &Path) -> Result<()> {
+	match output.canonicalize() {
+		Ok(path) if path == input => Err(Error::CustomError(format!(
+			"The output would overwrite the input `{}`",
+			input.display()
+		))),
+		Err(e) if e.kind() != ErrorKind::NotFound => Err(e.into()),
+		_ => Ok(()),
+	}
+}
+
 /// Runs `smd`.
 pub fn run(cli: Cli) -> Result<()> {
 	if Commands::Initialize == cli.commands {
@@ -39,6 +58,7 @@ pub fn run(cli: Cli) -> Result<()> {
 
 			if args.output.eq(&args::OutputFileFormat::Html) {
 				out_path.set_extension(HTML_FILE_ENDING);
+				ensure_not_input(&out_path, &args.input)?;
 				fs::write_to_file(&out_path, &result)?;
 
 				return Ok(());
@@ -47,6 +67,7 @@ pub fn run(cli: Cli) -> Result<()> {
 			let converted = match args.output {
 				args::OutputFileFormat::Pdf => {
 					out_path.set_extension(PDF_FILE_ENDING);
+					ensure_not_input(&out_path, &args.input)?;
 					convert::convert_html::<PDFConverter>(&result)?
 				}
 				_ => unreachable!(),
-- 
2.43.0


From 38364d38cc5bd3154dfdfd83ce759e1b42c666e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:59 +0000
Subject: [PATCH 06/14] fix: report a configuration file that cannot be
 examined

A failing stat of the configuration file (no permission on its directory, an
I/O error, a link loop) made smd silently use the default settings.
---
 smd-core/src/config.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/smd-core/src/config.rs b/smd-core/src/config.rs
index 1ffdd2c..9e48190 100644
--- a/smd-core/src/config.rs
+++ b/smd-core/src/config.rs
@@ -9,6 +9,10 @@ use serde::{
 	Deserialize,
 	Serialize,
 };
+use std::{
+	io::ErrorKind,
+	path::Path,
+};
 
 #[derive(Debug, Deserialize, Serialize, Default)]
 pub struct Config {
@@ -54,7 +58,7 @@ impl Config {
 	pub fn load_config() -> Result<Config> {
 		let config_path =
 			dirs::config_dir().unwrap_or_default().join(DEFAULT_CONFIG);
-		if config_path.exists() {
+		if Self::file_exists(&config_path)? {
 			let content = fs::read_to_string(&config_path)?;
 			let config = Self::parse_from_str(&content)?;
 			return Ok(config);
@@ -63,6 +67,14 @@ impl Config {
 		Ok(Self::default())
 	}
 
+	/// Whether there is a file at `path`; not knowing is an error.
+	fn file_exists(path: &Path) -> Result<bool> {
+		match path.try_exists() {
+			Err(e) if e.kind() == ErrorKind::NotADirectory => Ok(false),
+			exists => Ok(exists?),
+		}
+	}
+
 	pub fn initialize() -> Result<()> {
 		let config = Config::default();
 		let mut toml = toml::to_string_pretty(&config)?;
-- 
2.43.0


From 23c34e510ac7b301dd0d996742bcb003400cf50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:10 +0000
Subject: [PATCH 07/14] fix: initialize the configuration atomically and
 without overwriting

The check for an existing file and the creation of the new one were apart, so
a configuration that appeared in between was overwritten, and a kill, a full
disk or a failed write left an empty or partial configuration behind that no
later `smd parse` or `smd initialize` accepted.
---
 smd-core/src/config.rs | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/smd-core/src/config.rs b/smd-core/src/config.rs
index 9e48190..e8113f0 100644
--- a/smd-core/src/config.rs
+++ b/smd-core/src/config.rs
@@ -75,6 +75,24 @@ impl Config {
 		}
 	}
 
+	/// Gives the file at `from` the name `to` unless that name is taken.
+	fn publish(from: &Path, to: &Path) -> Result<()> {
+		std::fs::hard_link(from, to)
+			.or_else(|e| match e.kind() {
+				// Not every file system has hard links.
+				ErrorKind::PermissionDenied | ErrorKind::Unsupported => {
+					std::fs::rename(from, to)
+				}
+				_ => Err(e),
+			})
+			.map_err(|e| match e.kind() {
+				ErrorKind::AlreadyExists => Error::ConfigAlreadyExistsError(
+					to.to_string_lossy().to_string(),
+				),
+				_ => e.into(),
+			})
+	}
+
 	pub fn initialize() -> Result<()> {
 		let config = Config::default();
 		let mut toml = toml::to_string_pretty(&config)?;
@@ -84,18 +102,22 @@ impl Config {
 		);
 		let path = dirs::config_dir().unwrap_or_default().join(DEFAULT_CONFIG);
 
-		if path.exists() {
+		if Self::file_exists(&path)? {
 			return Err(Error::ConfigAlreadyExistsError(
 				path.to_string_lossy().to_string(),
 			));
 		}
 
-		if let Some(parent) = path.parent() {
-			std::fs::create_dir_all(parent)?;
-		}
-		fs::write_to_file(&path, &toml)?;
+		let parent = path.parent().unwrap_or(Path::new(""));
+		std::fs::create_dir_all(parent)?;
+
+		// Only the complete file gets the name of the configuration.
+		let tmpfile = fs::create_unique(parent, "config", "tmp")?;
+		let published = fs::write_to_file(&tmpfile, &toml)
+			.and_then(|()| Self::publish(&tmpfile, &path));
+		let _ = std::fs::remove_file(tmpfile);
 
-		Ok(())
+		published
 	}
 }
 
-- 
2.43.0


From 2ad7d284993ff32f069e80ae54ecbacfc77b0c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:17 +0000
Subject: [PATCH 08/14] fix: render headings whose braces are not an id instead
 of panicking

---
 gfm/src/lexer.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index ed81087..510148f 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -218,15 +218,12 @@ impl<'a> Lexer<'a> {
 			.iter
 			.consume_while_case_holds(&|c| c != "\n")
 			.unwrap_or("");
-		if line.contains("{#") && line.contains('}') {
-			let (heading, _title) = line.split_once("{").unwrap_or(("", ""));
-			line = line
-				.strip_prefix(heading)
-				.unwrap()
-				.strip_prefix("{#")
-				.unwrap()
-				.strip_suffix("}")
-				.unwrap();
+		if let Some(id) = line
+			.find('{')
+			.and_then(|start| line[start..].strip_prefix("{#"))
+			.and_then(|id| id.trim_end().strip_suffix('}'))
+		{
+			line = id;
 		}
 		let line_without_optional_trailing_hash_sequence =
 			match line.trim_end().rsplit_once(' ') {
-- 
2.43.0


From 4c745b9d65450d674557eeadd37f4021fa7701ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:36 +0000
Subject: [PATCH 09/14] fix: end the search for the end of nested details at
 the end of the document

---
 gfm/src/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index 510148f..6a73521 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -886,7 +886,7 @@ impl<'a> Lexer<'a> {
 		if remaining_text.contains("<details>") {
 			let mut opens = remaining_text.matches("<details>").count();
 			let mut closes = remaining_text.matches("</details>").count();
-			while opens == closes {
+			while opens == closes && self.iter.peek().is_some() {
 				self.iter.consume_until_tail_is("</details>").unwrap_or("");
 				remaining_text = self
 					.iter
-- 
2.43.0


From b1949ee53cc1857c96aa1e6629598e0c65971839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:53 +0000
Subject: [PATCH 10/14] fix: lex consecutive indented lines in a loop instead
 of overflowing the stack

---
 gfm/src/lexer.rs | 53 +++++++++++++++++++++++++++---------------------
 1 file changed, 30 insertions(+), 23 deletions(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index 6a73521..bf34947 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -263,22 +263,39 @@ impl<'a> Lexer<'a> {
 		&mut self,
 		tokens: &Vec<Token>,
 	) -> Result<Token<'a>, ParseError<'a>> {
+		let mut nested = false;
+
+		loop {
+			match self.lex_indented_line(tokens) {
+				None => nested = true,
+				Some(Ok(_)) if nested => return Err(ParseError { content: "" }),
+				Some(result) => return result,
+			}
+		}
+	}
+
+	/// Lexes one indented line. Returns None if it is to be followed by the
+	/// next one, which is indented as well.
+	fn lex_indented_line(
+		&mut self,
+		tokens: &Vec<Token>,
+	) -> Option<Result<Token<'a>, ParseError<'a>>> {
 		let start_index = self.iter.get_index();
 		let whitespace = self
 			.iter
 			.consume_while_case_holds(&|c| c == "\t" || c == " ");
 
 		match whitespace {
-			None => return Err(ParseError { content: "" }),
+			None => return Some(Err(ParseError { content: "" })),
 			Some(s) if (1..=3).contains(&s.len()) && !s.contains("\t") => {
-				return Err(ParseError { content: s })
+				return Some(Err(ParseError { content: s }))
 			}
 			Some(s)
 				if s.len() >= 2 &&
 					!s.contains("\t") &&
 					self.iter.peek() == Some("\n") =>
 			{
-				return Ok(Token::LineBreak)
+				return Some(Ok(Token::LineBreak))
 			}
 			Some(_s) => {}
 		}
@@ -291,40 +308,30 @@ impl<'a> Lexer<'a> {
 				if (matches!(tokens.last(), Some(Token::Plaintext(_))) &&
 					line.contains('#')) =>
 			{
-				return Err(ParseError { content: line })
+				return Some(Err(ParseError { content: line }))
 			}
 			"    "
 				if (matches!(tokens.last(), Some(Token::Newline)) &&
 					line.contains('#')) =>
 			{
-				return Err(ParseError { content: line })
+				return Some(Err(ParseError { content: line }))
 			}
 			"\t" if matches!(tokens.last(), Some(Token::Code(_))) => {
-				return Ok(Token::Code(line.to_string()))
+				return Some(Ok(Token::Code(line.to_string())))
+			}
+			"\t" | "    " | "  \t" => {
+				return Some(Ok(Token::Code(line.to_string())))
 			}
-			"\t" | "    " | "  \t" => return Ok(Token::Code(line.to_string())),
-			"\t\t" => return Ok(Token::Code("\t".to_owned() + line)),
+			"\t\t" => return Some(Ok(Token::Code("\t".to_owned() + line))),
 			_ => {}
 		}
 
 		if self.iter.peek() == Some("\t") || self.iter.peek() == Some(" ") {
-			match self.lex_tabs_spaces(tokens) {
-				Ok(Token::CodeBlock(_content, _lang)) => {
-					return Ok(Token::CodeBlock(
-						self.iter
-							.get_substring_from(start_index)
-							.unwrap_or("")
-							.to_string(),
-						"".to_string(),
-					))
-				}
-				Err(e) => return Err(e),
-				Ok(_) => return Err(ParseError { content: "" }),
-			}
+			return None;
 		}
-		Err(ParseError {
+		Some(Err(ParseError {
 			content: self.iter.get_substring_from(start_index).unwrap_or(""),
-		})
+		}))
 	}
 
 	fn lex_numbers(&mut self) -> Result<Token<'a>, ParseError<'a>> {
-- 
2.43.0


From abe15d4d7f82b279e5b31c39b35a3dcfdf9002e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:29 +0000
Subject: [PATCH 11/14] fix: limit the depth of nested content instead of
 overflowing the stack

---
 gfm/src/lib.rs | 39 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/gfm/src/lib.rs b/gfm/src/lib.rs
index 829f7fa..ee92e4a 100644
--- a/gfm/src/lib.rs
+++ b/gfm/src/lib.rs
@@ -2,12 +2,44 @@ mod iter;
 mod lexer;
 mod token;
 
+use std::cell::Cell;
+
 use lexer::Lexer;
 use log::debug;
 use token::Token;
 
 use crate::token::TaskBox;
 
+/// Content nested deeper than this is rendered as text.
+const MAX_NESTING: usize = 100;
+
+thread_local! {
+	/// The number of renderings under way on this thread, one inside the other.
+	static NESTING: Cell<usize> = const { Cell::new(0) };
+}
+
+/// One level of nested content, left when it is dropped.
+struct Nesting;
+
+impl Nesting {
+	/// Enters the next level unless the content is nested too deeply.
+	fn enter() -> Option<Self> {
+		let level = NESTING.get();
+		if level >= MAX_NESTING {
+			return None;
+		}
+
+		NESTING.set(level + 1);
+		Some(Nesting)
+	}
+}
+
+impl Drop for Nesting {
+	fn drop(&mut self) {
+		NESTING.set(NESTING.get() - 1);
+	}
+}
+
 pub struct Parser {}
 
 impl Parser {
@@ -29,11 +61,14 @@ impl Parser {
 	/// ```
 	pub fn render(source: &str) -> String {
 		debug!("Rendering source of length: {}", source.len());
-		Self::parse(&Self::lex(source, &[]))
+		Self::render_ignore(source, &[])
 	}
 
 	pub(crate) fn render_ignore(source: &str, ignore: &[char]) -> String {
-		Self::parse(&Self::lex(source, ignore))
+		match Nesting::enter() {
+			Some(_nesting) => Self::parse(&Self::lex(source, ignore)),
+			None => Self::sanitize_display_text(source),
+		}
 	}
 
 	pub(crate) fn lex<'a>(source: &'a str, ignore: &[char]) -> Vec<Token<'a>> {
-- 
2.43.0


From f6fa5d3f150e1e268a87276451470f3740fda037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:48 +0000
Subject: [PATCH 12/14] fix: accept environments with variables that are not
 valid Unicode

config's environment source panics on any such variable, whatever its name,
as soon as there is a configuration file.
---
 smd-core/src/config.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/smd-core/src/config.rs b/smd-core/src/config.rs
index e8113f0..8aa6e78 100644
--- a/smd-core/src/config.rs
+++ b/smd-core/src/config.rs
@@ -10,6 +10,7 @@ use serde::{
 	Serialize,
 };
 use std::{
+	env,
 	io::ErrorKind,
 	path::Path,
 };
@@ -45,12 +46,27 @@ pub enum ParseErrorAction {
 
 impl Config {
 	pub fn parse_from_str(content: &str) -> Result<Config> {
+		// Not every variable is valid Unicode, and one that is not must neither
+		// panic nor count as unset.
+		let variables = env::vars_os()
+			.map(|(key, value)| {
+				(
+					key.to_string_lossy().to_string(),
+					value.to_string_lossy().to_string(),
+				)
+			})
+			.collect();
+
 		Ok(config::Config::builder()
 			.add_source(config::File::from_str(
 				content,
 				config::FileFormat::Toml,
 			))
-			.add_source(config::Environment::with_prefix("SMD").separator("__"))
+			.add_source(
+				config::Environment::with_prefix("SMD")
+					.separator("__")
+					.source(Some(variables)),
+			)
 			.build()?
 			.try_deserialize()?)
 	}
-- 
2.43.0


From 9cef66e881e5c42a23fc8c8885c152d4e6dcfd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:06 +0000
Subject: [PATCH 13/14] fix: never replace a configuration where hard links are
 not available

---
 smd-core/src/config.rs | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/smd-core/src/config.rs b/smd-core/src/config.rs
index 8aa6e78..cc3af86 100644
--- a/smd-core/src/config.rs
+++ b/smd-core/src/config.rs
@@ -93,20 +93,13 @@ impl Config {
 
 	/// Gives the file at `from` the name `to` unless that name is taken.
 	fn publish(from: &Path, to: &Path) -> Result<()> {
-		std::fs::hard_link(from, to)
-			.or_else(|e| match e.kind() {
-				// Not every file system has hard links.
-				ErrorKind::PermissionDenied | ErrorKind::Unsupported => {
-					std::fs::rename(from, to)
-				}
-				_ => Err(e),
-			})
-			.map_err(|e| match e.kind() {
-				ErrorKind::AlreadyExists => Error::ConfigAlreadyExistsError(
-					to.to_string_lossy().to_string(),
-				),
-				_ => e.into(),
-			})
+		// Renaming would replace a file that has appeared in the meantime.
+		std::fs::hard_link(from, to).map_err(|e| match e.kind() {
+			ErrorKind::AlreadyExists => Error::ConfigAlreadyExistsError(
+				to.to_string_lossy().to_string(),
+			),
+			_ => e.into(),
+		})
 	}
 
 	pub fn initialize() -> Result<()> {
-- 
2.43.0


From 79dea709b8a52e679427cb91a98a421870ceff97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:04:14 +0000
Subject: [PATCH 14/14] fix: run the smd binary from the npm wrapper instead of
 git-cliff

The platform packages the release workflow publishes are named
smd-<os>-<arch> and contain bin/smd, so the wrapper could never find it.
---
 npm/smd/src/getExePath.ts | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/npm/smd/src/getExePath.ts b/npm/smd/src/getExePath.ts
index eab1031..200d57f 100644
--- a/npm/smd/src/getExePath.ts
+++ b/npm/smd/src/getExePath.ts
@@ -1,12 +1,12 @@
 import { arch as getArch, platform as getPlatform } from "os";
 
 /**
- * Returns the executable path for git-cliff located inside node_modules
- * The naming convention is git-cliff-${os}-${arch}
+ * Returns the executable path for smd located inside node_modules
+ * The naming convention is smd-${os}-${arch}
  * If the platform is `win32` or `cygwin`, executable will include a `.exe` extension
  * @see https://nodejs.org/api/os.html#osarch
  * @see https://nodejs.org/api/os.html#osplatform
- * @example "x/xx/node_modules/git-cliff-darwin-arm64"
+ * @example "x/xx/node_modules/smd-darwin-arm64"
  */
 export async function getExePath() {
   const platform = getPlatform();
@@ -23,11 +23,11 @@ export async function getExePath() {
   try {
     // Since the bin will be located inside `node_modules`, we can simply call import.meta.resolve
     return import.meta.resolve(
-      `git-cliff-${os}-${arch}/bin/git-cliff${extension}`,
+      `smd-${os}-${arch}/bin/smd${extension}`,
     );
   } catch (e) {
     throw new Error(
-      `Couldn't find git-cliff binary inside node_modules for ${os}-${arch} (${e})`,
+      `Couldn't find smd binary inside node_modules for ${os}-${arch} (${e})`,
     );
   }
 }
-- 
2.43.0

